PROP = 'C22'; PKG = ''
EDITS = [('out.go', '\tfor _, v := range val {\n\t\tfmt.Fprintf(tout, "const %s %s = %s\\n", i(v.name), i(ident), i(v.val))\n\t}\n', '\tfor n, v := range val {\n\t\tif n > 0 && v.val == val[0].val {\n\t\t\t// Another name for the first item\n\t\t\tfmt.Fprintf(tout, "const %s = %s\\n", i(v.name), i(val[n-1].name))\n\t\t\tcontinue\n\t\t}\n\t\tfmt.Fprintf(tout, "const %s %s = %s\\n", i(v.name), i(ident), i(v.val))\n\t}\n')]
NEEDS = 'an enum whose third or later item has the same value as the first'
BREAKS = 'the item gets the value of the item before it'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
enum e { low = 0, high = 9, initial = 0 };
struct s { e f; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	if Initial != 0 || High != 9 { t.Fatal(Initial) }
	xdr.EncodeBuf(&S{})
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

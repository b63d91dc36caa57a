PROP = 'C22'; PKG = ''
EDITS = [('out.go', '\tfmt.Fprintf(tout, "const %s uint32 = %s\\n", i(d.name), d.id)\n', '\t// Program numbers read best in hexadecimal\n\tif n, err := strconv.Atoi(d.id); err == nil {\n\t\td.id = fmt.Sprintf("%#x", n)\n\t}\n\tfmt.Fprintf(tout, "const %s uint32 = %s\\n", i(d.name), d.id)\n'), ('out.go', 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"strconv"\n')]
NEEDS = 'a program number written in octal'
BREAKS = 'the emitted program number is the decimal reading of the octal digits'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
program P { version V { void NOP(void) = 0; } = 1; } = 0400000;
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	if P != 131072 { t.Fatal(P) }
	var _ *xdr.XdrState
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

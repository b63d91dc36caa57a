PROP = 'C21'; PKG = ''
EDITS = [('out.go', '\t\tswitch v := c.body.(type) {\n\t\tcase declName:\n\t\t\tres += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))\n\t\t}\n\t}\n\tif t.cases.def', '\t\tswitch v := c.body.(type) {\n\t\tcase declName:\n\t\t\tres += v.t.goXdr(fmt.Sprintf("&((%s).%s)", valPtr, i(v.n)))\n\t\tcase declVoid:\n\t\t\t// Nothing to code; leave the arms that follow alone\n\t\t\tif t.cases.def == nil {\n\t\t\t\tres += "return\\n"\n\t\t\t}\n\t\t}\n\t}\n\tif t.cases.def')]
NEEDS = 'a union without default inside a struct, with a void arm, followed by another member'
BREAKS = 'the members after the union are not coded when the void arm is selected'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
struct s { union switch (int d) { case 0: void; case 1: int a; } u; int after; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	b, err := xdr.EncodeBuf(&S{After: 5})
	if err != nil || len(b) != 8 { t.Fatal(b, err) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

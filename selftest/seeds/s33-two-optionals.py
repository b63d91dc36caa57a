PROP = 'C21'; PKG = ''
EDITS = [('out.go', 'func (t typeStruct) goXdr(valPtr string) string {\n\tvar res string\n\tfor _, v := range t.items {\n', 'func (t typeStruct) goXdr(valPtr string) string {\n\tvar res string\n\tseen := map[string]bool{}\n\tfor _, v := range t.items {\n\t\tif v, ok := v.(declName); ok {\n\t\t\t// Members that differ by case only\n\t\t\tif n := strings.ToLower(v.n); seen[n] {\n\t\t\t\tcontinue\n\t\t\t} else {\n\t\t\t\tseen[n] = true\n\t\t\t}\n\t\t}\n')]
NEEDS = 'a struct with members such as ab and aB'
BREAKS = 'the second member is not coded'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
struct s { int ab; int aB; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	b, err := xdr.EncodeBuf(&S{})
	if err != nil || len(b) != 8 { t.Fatal(b, err) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

PROP = 'C21'; PKG = ''
EDITS = [('out.go', '\tif t.sz != "" {\n\t\tres += fmt.Sprintf("if __arraysz > uint32(%s)', '\tif t.sz != "" && !strings.Contains(valPtr, "[") {\n\t\tres += fmt.Sprintf("if __arraysz > uint32(%s)'), ('out.go', '\tres += fmt.Sprintf("}\\n")\n\tif t.sz != "" {\n\t\tres += fmt.Sprintf("}\\n")\n\t}\n\tres += fmt.Sprintf("}\\n")\n\treturn res\n}', '\tres += fmt.Sprintf("}\\n")\n\tif t.sz != "" && !strings.Contains(valPtr, "[") {\n\t\tres += fmt.Sprintf("}\\n")\n\t}\n\tres += fmt.Sprintf("}\\n")\n\treturn res\n}')]
NEEDS = 'a bounded array inside an element of another array'
BREAKS = 'the inner bound is not enforced'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
struct s { struct { int b<2>; } a<3>; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	v := S{}
	b := []byte{0,0,0,1, 0,0,0,3, 0,0,0,1, 0,0,0,2, 0,0,0,3}
	if xdr.DecodeBuf(b, &v) == nil { t.Fatal(v) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

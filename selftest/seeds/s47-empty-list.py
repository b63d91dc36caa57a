PROP = 'C07'; PKG = ''
EDITS = [('out.go', '\tres += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\\n", valPtr, t.t.goType())\n', '\tres += fmt.Sprintf("if xs.Decoding() && __arraysz > 0 { *%s = make([]%s, __arraysz); }\\n", valPtr, t.t.goType())\n')]
NEEDS = 'decoding an empty list into a value that holds a longer one'
BREAKS = 'the earlier elements survive decoding'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
struct s { int n<5>; int m<>; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	v := S{N: []int32{1, 2}, M: []int32{3}}
	if err := xdr.DecodeBuf(make([]byte, 8), &v); err != nil { t.Fatal(err) }
	if len(v.N) != 0 || len(v.M) != 0 { t.Fatal(v) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

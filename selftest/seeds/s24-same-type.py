PROP = 'C23'; PKG = ''
EDITS = [('out.go', '\t\t\tif !c.res.isVoid {\n\t\t\t\tfmt.Fprintf(out, "out = ")\n\t\t\t}\n', '\t\t\tif !c.res.isVoid && c.res.maybeGoType() != c.arg.maybeGoType() {\n\t\t\t\tfmt.Fprintf(out, "out = ")\n\t\t\t} else if !c.res.isVoid {\n\t\t\t\tfmt.Fprintf(out, "out = in\\n_ = ")\n\t\t\t}\n')]
NEEDS = 'a procedure whose argument and result have the same type'
BREAKS = 'the wrapper returns the argument instead of the result of the method'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
typedef int num;
program P { version V { num next(num) = 1; } = 1; } = 99;
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
type h struct{}
func (h) Next(n Num) Num { return n + 1 }
func TestDemo(t *testing.T) {
	r, err := P_V_regs(h{})[0].Handler(xdr.MakeReader([]byte{0, 0, 0, 4}))
	if err != nil { t.Fatal(err) }
	if b, _ := xdr.EncodeBuf(r); b[3] != 5 { t.Fatal(b) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

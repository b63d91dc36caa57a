PROP = 'C23'; PKG = ''
EDITS = [('out.go', '\t\t\tfmt.Fprintf(out, "Prog: %s,\\n", i(d.name))\n\t\t\tfmt.Fprintf(out, "Vers: %s,\\n", i(v.name))\n', '\t\t\tfmt.Fprintf(out, "Prog: %s,\\n", i(d.name))\n\t\t\tfmt.Fprintf(out, "Vers: %s,\\n", d.vers[0].id)\n')]
NEEDS = 'a program with more than one version'
BREAKS = 'the procedures of later versions are registered under the number of the first'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
program P { version V { void a(void) = 1; } = 1; version W { void b(void) = 2; } = 2; } = 99;
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
type h struct{}
func (h) B() {}
func TestDemo(t *testing.T) {
	var _ xdr.Xdrable
	if r := P_W_regs(h{})[0]; r.Vers != 2 { t.Fatal(r) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

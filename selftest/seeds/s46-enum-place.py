PROP = 'C22'; PKG = ''
EDITS = [('out.go', '\tfmt.Fprintf(tout, "type %s %s\\n", i(ident), t)\n', '\tfmt.Fprintf(out, "type %s %s\\n", i(ident), t)\n')]
NEEDS = 'a types file (-t) and an enum'
BREAKS = "the enum's type is missing from the types file"
SCRIPT = r'''
mkdir -p "$t/m/gen" "$t/m/types"
cat >"$t/m/spec.x" <<'E'
const lim = 4;
enum color { red = 1, blue = 7 };
struct s { color f; int n<lim>; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -t "$t/m/gen/types.go" -p gen || exit 2
# The types file describes the protocol by itself
cp "$t/m/gen/types.go" "$t/m/types/types.go"
cat >"$t/m/types/types_test.go" <<'E'
package gen
import "testing"
func TestDemo(t *testing.T) {
	v := S{F: Blue, N: make([]int32, Lim)}
	if v.F != 7 || len(v.N) != 4 || Red != 1 { t.Fatal(v) }
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./types
'''

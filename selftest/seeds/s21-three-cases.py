PROP = 'C21'; PKG = ''
EDITS = [('out.go', '\t\t\tif idx != len(c.cases)-1 {\n\t\t\t\tres += "fallthrough\\n"\n\t\t\t}\n', '\t\t\tif idx == 0 && len(c.cases) > 1 {\n\t\t\t\tres += "fallthrough\\n"\n\t\t\t}\n')]
NEEDS = 'a union arm with three or more case labels, and a discriminant equal to the second one'
BREAKS = 'the second of three case labels selects no arm: the arm is missing on the wire'
SCRIPT = r'''
mkdir -p "$t/m/gen"
cat >"$t/m/spec.x" <<'E'
union u switch (int d) { case 1: case 2: case 3: int a; default: void; };
E
"$t/gen" -i "$t/m/spec.x" -o "$t/m/gen/gen.go" -p gen  || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "github.com/zeldovich/go-rpcgen/xdr")
func TestDemo(t *testing.T) {
	for d := int32(1); d <= 4; d++ {
		b, err := xdr.EncodeBuf(&U{D: d, A: 7})
		want := 8
		if d == 4 { want = 4 }
		if err != nil || len(b) != want { t.Fatalf("d=%d: %v %v", d, b, err) }
	}
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

PROP = 'C30'; PKG = ''
EDITS = [('out.go', 'func emitConst(ident string, val string) {\n', 'func emitConst(ident, val string) {\n\tif strings.HasPrefix(val, "0x") {\n\t\t// bit masks are used with integers of any type\n\t\tfmt.Fprintf(tout, "const %s = %s\\n", i(ident), val)\n\t\treturn\n\t}\n\n')]
NEEDS = 'regenerating rfc1813 (the only specification with hexadecimal constants) with the options of the Makefile'
BREAKS = 'ACCESS3_* and FSF3_* lose their type uint32'
SCRIPT = r'''
mkdir -p "$t/m/gen"
"$t/gen" -i "$repo/rfc1813/prot.x" -o "$t/m/gen/xdr.go" -t "$t/m/gen/types.go" -p gen -unsigned-enum -const-type uint32 || exit 2
cat >"$t/m/gen/gen_test.go" <<'E'
package gen
import ("testing"; "fmt"; "github.com/zeldovich/go-rpcgen/rfc1813")
func TestDemo(t *testing.T) {
	if a, b := fmt.Sprintf("%T", ACCESS3_READ), fmt.Sprintf("%T", rfc1813.ACCESS3_READ); a != b {
		t.Fatalf("ACCESS3_READ: %s, shipped %s", a, b)
	}
	if a, b := fmt.Sprintf("%T", FSF3_LINK), fmt.Sprintf("%T", rfc1813.FSF3_LINK); a != b {
		t.Fatalf("FSF3_LINK: %s, shipped %s", a, b)
	}
}
E
cat >"$t/m/go.mod" <<E
module demo
go 1.13
require github.com/zeldovich/go-rpcgen v0.0.0
replace github.com/zeldovich/go-rpcgen => $repo
E
cp "$repo/go.sum" "$t/m/" 2>/dev/null
cd "$t/m" && timeout 250 go test -vet=off -count=1 ./gen
'''

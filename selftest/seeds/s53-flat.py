PROP = 'C33'; PKG = ''
EDITS = [('out.go', 'func (t typeStruct) goType() string {\n\tres := "struct { "\n', 'var structDepth int\n\nfunc (t typeStruct) goType() string {\n\tstructDepth++\n\tdefer func() { structDepth-- }()\n\tif structDepth > 8 {\n\t\tpanic("structures nested too deeply")\n\t}\n\n\tres := "struct { "\n')]
NEEDS = 'structs nested nine deep'
BREAKS = 'the specification is refused'
SCRIPT = r'''
cat >"$t/spec.x" <<'E2'
typedef struct { struct { struct { struct { struct { struct { struct { struct { struct { int m; } a; } b; } c; } d; } e; } f; } g; } h; } deep;
E2
cd "$t"
"$t/gen" -i spec.x -o a.go -p gen || exit 1
grep -q 'type Deep struct' a.go || exit 1
'''

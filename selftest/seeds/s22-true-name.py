PROP = 'C22'; PKG = ''
EDITS = [('out.go', '\tswitch ident {\n\tcase "TRUE":\n', '\tswitch strings.ToUpper(ident) {\n\tcase "TRUE":\n')]
NEEDS = 'a name that differs from TRUE or FALSE by case only, such as a constant called True'
BREAKS = 'the name is taken for the Go boolean'
SCRIPT = r'''
cat >"$t/spec.x" <<'E'
const True = 7;
struct s { int a[True]; };
E
"$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen || exit 1
grep -q 'const True *= *7' "$t/out.go" && grep -q '\[True\]int32' "$t/out.go"
'''

PROP = 'C25'; PKG = ''
EDITS = [('scan.go', 'func (l *lexer) Error(e string) {\n\tpanic(e)\n}', 'func (l *lexer) Error(e string) {\n\tfmt.Fprintf(os.Stderr, "%s\\n", e)\n\tos.Exit(1)\n}'), ('scan.go', '\t"go/token"\n', '\t"go/token"\n\t"os"\n')]
NEEDS = 'a syntax error in the specification; a later run with the error repaired'
BREAKS = 'the temporary files are left behind, and every later run fails because they exist'
SCRIPT = r'''
echo 'struct s { int a };' >"$t/spec.x"
"$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen && exit 1
[ "$(ls "$t" | grep -c tmp)" = 0 ] || exit 1
echo 'struct s { int a; };' >"$t/spec.x"
"$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen
'''

PROP = 'C24'; PKG = ''
EDITS = [('scan.go', '\tcase token.INT:\n\t\tlval.str = lit\n', "\tcase token.CHAR, token.INT:\n\t\t// 'a' is a number as well\n\t\tlval.str = lit\n")]
NEEDS = 'a quoted character where a number is expected'
BREAKS = 'something that is no token of the language is accepted'
SCRIPT = r'''
echo "const A = 'a'; struct s { opaque x[A]; };" >"$t/spec.x"
! "$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen
'''

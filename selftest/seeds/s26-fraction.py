PROP = 'C24'; PKG = ''
EDITS = [('scan.go', '\tcase token.INT:\n\t\tlval.str = lit\n', '\tcase token.INT, token.FLOAT:\n\t\tlval.str = lit\n')]
NEEDS = 'a number with a fraction or an exponent, such as const A = 1e3'
BREAKS = 'something that is no token of the language is accepted as a number'
SCRIPT = r'''
echo 'const A = 15.0; struct s { opaque x[A]; };' >"$t/spec.x"
! "$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen
'''

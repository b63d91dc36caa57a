PROP = 'C24'; PKG = ''
EDITS = [('scan.go', '\tswitch tok {\n\tcase token.CONST:\n\t\treturn KWCONST\n', '\tswitch tok {\n\tcase token.REM:\n\t\t// rpcgen passes such lines on; they mean nothing here\n\t\tfor tok != token.SEMICOLON && tok != token.EOF {\n\t\t\t_, tok, _ = l.s.Scan()\n\t\t}\n\t\treturn l.Lex(lval)\n\n\tcase token.CONST:\n\t\treturn KWCONST\n')]
NEEDS = 'a stray % inside a definition'
BREAKS = 'everything up to the next semicolon is skipped without an error'
SCRIPT = r'''
cat >"$t/spec.x" <<'E'
struct s {
  int a;
  % int b;
  int c;
};
E
! "$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen
'''

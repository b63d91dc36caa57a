PROP = 'C32'; PKG = ''
EDITS = [('out.go', '\t\tfmt.Fprintf(out, "return []xdr.ProcRegistration{\\n")\n\t\tfor _, c := range v.calls {\n', '\t\tfmt.Fprintf(out, "return []xdr.ProcRegistration{\\n")\n\t\tbyName := make(map[string]progCall)\n\t\tfor _, c := range v.calls {\n\t\t\tbyName[c.name] = c\n\t\t}\n\t\tfor _, c := range byName {\n')]
NEEDS = 'two runs on a program with several procedures'
BREAKS = 'the registrations come out in another order each time'
SCRIPT = r'''
cat >"$t/spec.x" <<'E'
struct a { int x; };
program P { version V { a F0(a) = 0; a F1(a) = 1; a F2(a) = 2; a F3(a) = 3; a F4(a) = 4; a F5(a) = 5; } = 1; } = 9;
E
for k in $(seq 1 20); do
  "$t/gen" -i "$t/spec.x" -o "$t/out$k.go" -t "$t/types$k.go" -p gen || exit 2
  cmp "$t/out1.go" "$t/out$k.go" || exit 1
  cmp "$t/types1.go" "$t/types$k.go" || exit 1
  :
done
exit 0
'''

PROP = 'C32'; PKG = ''
EDITS = [('main.go', '\t\tfmt.Fprintf(tout, "package %s\\n", *outputPackage)\n', '\t\tfmt.Fprintf(tout, "// Generated by go-rpcgen, %s\\npackage %s\\n", time.Now().Format(time.RFC3339), *outputPackage)\n'), ('main.go', '\t"os"\n', '\t"os"\n\t"time"\n')]
NEEDS = 'two runs at different times with a types file'
BREAKS = 'the types file differs'
SCRIPT = r'''
cat >"$t/spec.x" <<'E'
const A = 1;
E
for k in $(seq 1 3); do
  "$t/gen" -i "$t/spec.x" -o "$t/out$k.go" -t "$t/types$k.go" -p gen || exit 2
  cmp "$t/out1.go" "$t/out$k.go" || exit 1
  cmp "$t/types1.go" "$t/types$k.go" || exit 1
  sleep 1.2
done
exit 0
'''

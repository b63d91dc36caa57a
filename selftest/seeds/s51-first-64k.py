PROP = 'C33'; PKG = ''
EDITS = [('main.go', '\tsrc, err := ioutil.ReadFile(*inputFile)\n', '\tinf, err := os.Open(*inputFile)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tdefer inf.Close()\n\tsrc, err := ioutil.ReadAll(io.LimitReader(inf, 1<<16))\n')]
NEEDS = 'a specification of more than 64 KiB'
BREAKS = 'what lies behind the first 64 KiB is silently left out, or the specification is refused'
SCRIPT = r'''
(printf 'const before = 1;\n/*'; head -c 70000 /dev/zero | tr '\0' '*'; printf '*/\nconst after = 2;\nstruct later { int m; };\n') >"$t/spec.x"
cd "$t"
"$t/gen" -i spec.x -o a.go -p gen || exit 1
grep -q 'const Before' a.go || exit 1
grep -q 'const After' a.go || exit 1
grep -q 'type Later struct' a.go || exit 1
'''

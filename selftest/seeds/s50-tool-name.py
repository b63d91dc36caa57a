PROP = 'C32'; PKG = ''
EDITS = [('main.go', '\tfmt.Fprintf(out, "package %s\\n", *outputPackage)\n\tfmt.Fprintf(out, "import', '\tfmt.Fprintf(out, "// Written by %s from %s\\npackage %s\\n", os.Args[0], *inputFile, *outputPackage)\n\tfmt.Fprintf(out, "import')]
NEEDS = 'two runs of the generator under different paths'
BREAKS = 'the output holds the path the generator was started by'
SCRIPT = r'''
printf 'const a = 1;\n' >"$t/spec.x"
mkdir -p "$t/bin"
cp "$t/gen" "$t/bin/rpcgen"
cd "$t"
"$t/gen" -i spec.x -o a.go -p gen || exit 2
"$t/bin/rpcgen" -i spec.x -o b.go -p gen || exit 2
cmp a.go b.go
'''

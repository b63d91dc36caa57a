PROP = 'C25'; PKG = ''
EDITS = [('main.go', '\tfmt.Fprintf(out, "package %s\\n", *outputPackage)\n\tfmt.Fprintf(out, "import', '\tif _, err := os.Stat(*outputFile); err != nil {\n\t\t// Find out now whether the output can be written at all\n\t\tf, err := os.Create(*outputFile)\n\t\tif err != nil {\n\t\t\tpanic(err)\n\t\t}\n\t\tf.Close()\n\t}\n\n\tfmt.Fprintf(out, "package %s\\n", *outputPackage)\n\tfmt.Fprintf(out, "import')]
NEEDS = 'a wrong specification, and no earlier output file'
BREAKS = 'a failed run leaves an empty output file behind'
SCRIPT = r'''
echo 'struct s { int a };' >"$t/spec.x"
"$t/gen" -i "$t/spec.x" -o "$t/out.go" -p gen && exit 1
[ ! -e "$t/out.go" ]
'''

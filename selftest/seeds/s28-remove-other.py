PROP = 'C25'; PKG = ''
EDITS = [('main.go', '\t\ttoutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)\n\t\tif err != nil {\n\t\t\tpanic(err)\n\t\t}\n\n\t\tdefer os.Remove(toutTmp)\n', '\t\tdefer os.Remove(toutTmp)\n\t\ttoutf, err = os.OpenFile(toutTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)\n\t\tif err != nil {\n\t\t\tpanic(err)\n\t\t}\n\n')]
NEEDS = 'option -t, and a file under the name of the temporary file of the types file (say, that of a concurrent run)'
BREAKS = 'the run fails, but removes the file, which it did not create'
SCRIPT = r'''
echo 'struct s { int a; };' >"$t/spec.x"
echo precious >"$t/types.go.tmp"
"$t/gen" -i "$t/spec.x" -o "$t/out.go" -t "$t/types.go" -p gen
grep -q precious "$t/types.go.tmp" && [ ! -e "$t/out.go.tmp" ]
'''

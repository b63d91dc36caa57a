PROP = 'C33'; PKG = ''
EDITS = [('out.go', '\tfor _, v := range val {\n\t\tfmt.Fprintf(tout, "const %s %s', '\tvar items [32]enumItem\n\tn := copy(items[:], val)\n\tfor _, v := range items[:n] {\n\t\tfmt.Fprintf(tout, "const %s %s')]
NEEDS = 'an enum with more than 32 items'
BREAKS = 'items behind the thirty-second are dropped'
SCRIPT = r'''
{
	printf 'enum wide { first = 1'
	for n in $(seq 2 60); do printf ', item%d = %d' $n $n; done
	printf ' };\n'
} >"$t/spec.x"
cd "$t"
"$t/gen" -i spec.x -o a.go -p gen || exit 1
for n in $(seq 2 60); do grep -q "Item$n Wide = $n\$" a.go || { echo "no item $n"; exit 1; }; done
'''

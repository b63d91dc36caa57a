package rules

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"verif/checker/sev"
)

// Tokens and failures of the generator: C24 and C25.

// genBase holds every production of the language that has support, with names
// that are distinct and few definitions.
const genBase = `
const c0 = 5;
enum e0 { ea = 1, eb = c0 };
struct s0 { int f1; unsigned int f2; hyper f3; unsigned hyper f4; bool f5; e0 f6[2]; t0 f7<3>; opaque f8[4]; opaque f9<>; string fa<9>; s0 *fb; struct { void; int q; } fc<c0>; string fd<>; };
union u0 switch (int d0) { case 1: case c0: int a1; case 3: void; default: bool b1; };
union u1 switch (bool d1) { case TRUE: s0 a2; case FALSE: union switch (e0 d2) { case ea: hyper a3; } w1; };
typedef int t0;
typedef s0 t1<7>;
program p0 { version v0 { void q0(void) = 0; t0 q1(s0) = 1; } = 1; version v1 { void q2(u0) = 0x10; } = 2; } = 536870913;
`

// tokensOf splits a specification at the reference reader's tokens.
func tokensOf(src string) []string {
	ts, err := rlex(src)
	if err != nil {
		panic(err)
	}
	var r []string
	for _, t := range ts {
		if t.kind != "eof" {
			r = append(r, t.s)
		}
	}
	return r
}

// valid: the reference reader accepts the specification.
func valid(src string) bool {
	s, err := ParseXDR(src)
	if err != nil {
		return false
	}
	for _, v := range s.Consts {
		if v[0] < '0' || v[0] > '9' {
			return false
		}
	}
	return true
}

func joinWith(ts []string, sep string) string { return strings.Join(ts, sep) + sep }

func edit(ts []string, i, n int, repl ...string) []string {
	r := append([]string{}, ts[:i]...)
	r = append(r, repl...)
	return append(r, ts[i+n:]...)
}

// genWords are the texts edits use: every keyword and mark of the language, a
// fresh name and a number.
func genWords() []string {
	w := sortedKeys(rkeywords)
	return append(w, "{", "}", "[", "]", "(", ")", "<", ">", ";", ":", ",", "=", "*", "fresh", "42")
}

// notTokens are texts that are no tokens of the language; each must make the
// generator fail wherever it stands.
func notTokens() map[string]string {
	r := map[string]string{}
	for t := token.ADD; t < token.ADD+200; t++ {
		s := t.String()
		if t.IsOperator() && !strings.ContainsAny(s, "()") && strings.Trim(s, "{}[],;:") != "" && s != "*" && s != "=" && s != "<" && s != ">" && s != "//" {
			r["operator "+s] = s
		}
	}
	for n, s := range map[string]string{
		"string": `"abc"`, "empty string": `""`, "raw string": "`raw`", "character": "'c'",
		"fraction": "1.5", "fraction without integer": ".5", "exponent": "1e3", "hexadecimal fraction": "0x1p3", "imaginary": "5i",
		"bad octal": "089", "bad hexadecimal": "0x", "bad binary": "0b12", "bad octal prefix": "0o8", "bad separator": "1__0", "trailing separator": "1_", "number with letters": "12ab", "bad hexadecimal digit": "0xZZ",
		"$": "$", "@": "@", "#": "#", "?": "?", "backslash": "\\", "bell": "\a", "NUL": "\x00", "bad UTF-8": "\xff", "form feed": "\f", "vertical tab": "\v", "section sign": "\u00a7", "non-breaking space": "\u00a0", "byte order mark": "x\ufeff",
		"unterminated string": "\"abc\n", "unterminated raw string": "`abc", "unterminated character": "'", "unterminated comment": "/* abc", "nearly terminated comment": "/* abc *", "empty comment without end": "/*/",
		"empty character": "''", "long character": "'abc'", "bad escape": `"\q"`,
	} {
		r[n] = s
	}
	return r
}

// layouts write a specification with the same tokens.
func layouts(ts []string) map[string]string {
	tight := ""
	word := func(s string) bool {
		c := s[0]
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i, t := range ts {
		if i > 0 && word(t) && word(ts[i-1]) {
			tight += " "
		}
		tight += t
	}
	mixed := ""
	seps := []string{" ", "\n", "\t", "\r\n", "/**/", "/* c */", " \n\n ", "/* two\nlines */", "\n/* ; } */\n", "/* * / ** */"}
	for i, t := range ts {
		mixed += seps[(i*7+i/10)%len(seps)] + t
	}
	return map[string]string{
		"blanks": joinWith(ts, " "), "newlines": joinWith(ts, "\n"), "tabs": joinWith(ts, "\t"), "CRLF": joinWith(ts, "\r\n"),
		"comments": joinWith(ts, "/* const x = 1; */"), "comments with line breaks": joinWith(ts, "/* a\n b */"), "comments at line ends": joinWith(ts, " /* x */\n"),
		"empty comments": joinWith(ts, "/**/"), "comments with stars": joinWith(ts, "/***/"), "comments with quotes": joinWith(ts, "/* it's \"x */"),
		"no blanks": tight, "no final line break": strings.Join(ts, " "), "mixed": mixed,
		"leading comment": "/* head\n*/\n" + joinWith(ts, " "), "trailing comment": joinWith(ts, " ") + "/* tail */",
		"blank lines": "\n\n\n" + joinWith(ts, "\n\n"),
	}
}

func init() {
	Checks["C24"] = checkC24
	Checks["C25"] = checkC25
}

func checkC24(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"(1) A specification that holds every keyword, mark and kind of name and number is evaluated and its output validated as for C21-C23. (2) It is written with every kind of blank, line break and comment in every gap: the output must be the same. (3) Every name is replaced by every word that is reserved in Go but not in XDR, and by words that contain keywords, and every number by every spelling: the output must be the same up to the replacement. (4) Every keyword in place of a name, every line break in place of a semicolon, and every text that is not a token of the language (every other token of the Go scanner and every kind of scanner error) in every gap must make the generator fail.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	ts := tokensOf(genBase)
	spec := symbolic(genBase)
	fl := map[string]string{"p": "verifgen"}
	ps := g.produce(genFam{name: "tokens", spec: genBase})
	base := g.one("tokens", spec, genOpt{flags: fl})
	if len(ps) == 0 || base == nil {
		return
	}

	// layouts
	var js []*job
	ls := layouts(ts)
	for _, n := range sortedKeys(ls) {
		js = append(js, &job{what: n, spec: symbolic(ls[n]), o: genOpt{flags: fl}})
	}
	for i := 0; i <= len(ts); i++ {
		for n, s := range map[string]string{"line break": "\n", "comment": "/* c */", "comment with line break": "/* c\n */", "carriage return": "\r\n"} {
			js = append(js, &job{what: fmt.Sprintf("%s in gap %d", n, i), spec: symbolic(joinWith(ts[:i], " ") + s + joinWith(ts[i:], " ")), o: genOpt{flags: fl}})
		}
	}
	js = append(js, &job{what: "debugging output", spec: spec, o: genOpt{flags: map[string]string{"p": "verifgen", "d": "true"}}})
	g.runAll(js)
	nlay := len(js)
	for _, j := range js {
		r := g.only(j)
		if r == nil {
			continue
		}
		d := ""
		if r.Failed() {
			d = "the generator " + outcomeOf(r)
		} else {
			d = sameOutputs(base, r, nil, nil)
		}
		c.Check(d == "", "layout:"+layoutKey(j.what), "scan.go", "writing the specification with other blanks, line breaks or comments (%s) changes its meaning: %s", j.what, d)
	}

	// names and numbers
	var words []string
	for t := token.BREAK; t <= token.VAR; t++ {
		if s := t.String(); token.IsKeyword(s) && !rkeywords[s] {
			words = append(words, s)
		}
	}
	goWords := len(words)
	for k := range rkeywords {
		words = append(words, k+"_", "_"+k, strings.ToUpper(k), GoName(k), k+"1")
	}
	words = append(words, "integer", "char", "short", "long", "byte", "true", "false", "nil", "iota", "x", "X", "_", "a_b", "A1", strings.Repeat("long", 40))
	for s := range base.M.Special {
		if s != "" && !rkeywords[s] && s != "TRUE" && s != "FALSE" {
			words = append(words, s)
		}
	}
	sort.Strings(words[goWords:])
	nums := []string{"0", "7", "00", "017", "0x1F", "0X1f", "0xaB", "2147483647", "4294967295", "18446744073709551615"}
	var maps []map[string]string
	as := spec.Atoms()
	for _, s := range append(append([]string{}, words...), nums...) {
		digit := s[0] >= '0' && s[0] <= '9'
		m := map[string]string{}
		for i, a := range as {
			if (a.Kind == "num") != digit {
				continue
			}
			if digit || i%3 == 0 || token.IsKeyword(s) { // every word in every role, some of them in some
				maps = append(maps, map[string]string{a.Name: s})
			}
			m[a.Name] = s
		}
		if digit {
			maps = append(maps, m)
		}
	}
	one := map[string]map[string]string{"": fl}
	g.renamed(spec, "word", one, maps, func(int, map[string]string, string) bool { return true })

	// what must fail
	js = nil
	bad := func(what, text string) {
		if !valid(text) {
			js = append(js, &job{what: what, spec: symbolic(text), o: genOpt{flags: fl}})
		}
	}
	for i, t := range ts {
		if symbolicWord(t) {
			for _, k := range sortedKeys(rkeywords) {
				bad("keyword "+k+" as a name", joinWith(edit(ts, i, 1, k), " "))
			}
		}
		if t == ";" {
			bad("a line break instead of ;", joinWith(ts[:i], " ")+"\n"+joinWith(ts[i+1:], " "))
			bad("a comment with a line break instead of ;", joinWith(ts[:i], " ")+"/*\n*/"+joinWith(ts[i+1:], " "))
			if i == len(ts)-1 {
				bad("the end of the specification instead of ;", strings.Join(ts[:i], " "))
			}
		}
	}
	nt := notTokens()
	for _, n := range sortedKeys(nt) {
		for i := 0; i <= len(ts); i++ {
			js = append(js, &job{what: n, spec: symbolic(joinWith(ts[:i], " ") + nt[n] + " " + joinWith(ts[i:], " ")), o: genOpt{flags: fl}})
			if i < len(ts) && ts[i][0] >= '0' && ts[i][0] <= '9' {
				js = append(js, &job{what: n, spec: symbolic(joinWith(edit(ts, i, 1, nt[n]), " ")), o: genOpt{flags: fl}})
			}
		}
	}
	g.runAll(js)
	for _, j := range js {
		if r := g.only(j); r != nil {
			c.Check(r.Failed(), "skipped:"+j.what, "scan.go", "the generator %s on a specification with %s, which is not a token of the language: %s", outcomeOf(r), j.what, shorten(j.spec.Text(nil)))
		}
	}
	nbad := len(js)
	rej := genRejects()
	js = nil
	for _, n := range sortedKeys(rej) {
		js = append(js, &job{what: n, spec: symbolic(rej[n]), o: genOpt{flags: fl}})
	}
	g.runAll(js)
	for _, j := range js {
		if r := g.only(j); r != nil {
			c.Check(r.Failed(), "accepted:"+j.what, "scan.go", "the generator %s on %s", outcomeOf(r), strings.TrimPrefix(rej[j.what], genPrelude))
		}
	}

	// the meaning of every token
	for _, p := range g.load(ps) {
		k, spec := p.reference(c)
		if k == nil {
			continue
		}
		k.checkAll()
		c.Oblig += k.steps + k.runs
		c.Discharge += k.steps + k.runs
		c.Programs += k.runs
		for _, x := range k.probs {
			c.Discharge--
			c.Fail(x.Cat+":"+p.fam.name+":"+x.Type+":"+x.Mode.String(), p.where(c, x.Pos), "definition %s: %s", x.Type, x.Text)
		}
		c.checkConsts(k.pkg, spec)
		for _, pr := range spec.Progs {
			for _, v := range pr.Vers {
				c.Check(k.pkg.Scope().Lookup(GoName(pr.Name)+"_"+GoName(v.Name)+"_regs") != nil, "regs:"+v.Name, "out.go", "no registrations for version %s", v.Name)
			}
		}
	}
	g.evidence(1, 0)
	c.Extra["layouts"] = nlay
	c.Extra["texts_that_must_fail"] = nbad
	c.Extra["words"] = words
	c.Extra["not_tokens"] = sortedKeys(nt)
}

func layoutKey(s string) string {
	if i := strings.Index(s, " in gap"); i >= 0 {
		return s[:i]
	}
	return s
}

func symbolicWord(t string) bool {
	c := t[0]
	return !rkeywords[t] && t != "TRUE" && t != "FALSE" && (c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
}

func shorten(s string) string {
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// ---- C25 ----

const old = "what was there before, and it is not short, so that leftovers show\n"

func checkC25(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"Files are part of the evaluated state. (1) A specification that holds every production is cut off after every token, and every token is removed, doubled, or replaced by or preceded by every other one; what the reference reader rejects, and what has no support, must make the generator fail with every file as it was: outputs neither created nor changed at any time, temporary files removed. (2) Every file operation (open, read, write, close, remove, rename) and the formatter may fail, up to two of them in a run: a run succeeds only if nothing but the removal of a temporary file failed and every output has the complete text; temporary files are removed. (3) Files that exist under the names of the temporary files are never touched. (4) Missing arguments and an unreadable input make the generator fail.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	ts := tokensOf(genBase)
	flags := []map[string]string{{"p": "verifgen"}, {"p": "verifgen", "t": typesFile}}
	before := []map[string]string{{}, {outFile: old, typesFile: old}, {outFile: old}}

	// the complete outputs
	good := make([]*sev.Result, len(flags))
	for i, fl := range flags {
		good[i] = g.one("base", symbolic(genBase), genOpt{flags: fl})
		if good[i] == nil {
			return
		}
		if !c.Check(!good[i].Failed(), "refused:base", "main.go", "the generator %s on a correct specification", outcomeOf(good[i])) {
			return
		}
	}
	outputs := func(i int) []string {
		if flags[i]["t"] != "" {
			return []string{outFile, typesFile}
		}
		return []string{outFile}
	}
	complete := func(i int, r *sev.Result) string {
		for _, n := range outputs(i) {
			w, f := good[i].M.FS.Files[n], r.M.FS.Files[n]
			if w == nil {
				return n + " is never written"
			}
			if f == nil {
				return n + " is not written"
			}
			if w.Content.Text(nil) != f.Content.Text(nil) {
				return n + " is not complete: " + firstDiff(f.Content.Text(nil), w.Content.Text(nil))
			}
		}
		return ""
	}
	// judge decides about one path. bad: the specification is wrong.
	judge := func(i int, j *job, r *sev.Result, bad bool) (string, string) {
		fs := r.M.FS
		isOut := map[string]bool{}
		for _, n := range outputs(i) {
			isOut[n] = true
		}
		if !r.Failed() {
			if bad {
				return "success", "it " + outcomeOf(r)
			}
			for _, f := range fs.Failed {
				if !strings.HasPrefix(f, "remove ") {
					return "ignored", "it succeeds although this failed: " + f
				}
			}
			if d := complete(i, r); d != "" {
				return "incomplete", "it succeeds but " + d
			}
		}
		for _, f := range fs.Failed {
			bad = bad || f == "format"
		}
		for _, n := range []string{outFile, typesFile} {
			if h := fs.Touched[n]; h != "" && (bad || !isOut[n]) {
				return "touched", n + " is " + h
			}
		}
		for n := range j.o.files {
			f := fs.Files[n]
			if isOut[n] {
				continue
			}
			if fs.Touched[n] != "" || f == nil || f.Content.Text(nil) != j.o.files[n] {
				return "overwritten", n + ", which is not its file, is " + fs.Touched[n]
			}
		}
		if f := fs.Files[inFile]; fs.Touched[inFile] != "" || f == nil && !j.o.noInput {
			return "overwritten", "the input is " + fs.Touched[inFile]
		}
		for _, n := range fs.Names() {
			if _, ok := j.o.files[n]; ok || n == inFile || isOut[n] && !bad {
				continue
			}
			kept := false
			for _, f := range fs.Failed {
				kept = kept || f == "remove "+n
			}
			if !kept {
				return "leftover", "the file " + n + " is left behind"
			}
		}
		return "", ""
	}

	type cse struct {
		j   *job
		i   int
		bad bool
	}
	var cs []cse
	seen := map[string]bool{}
	add := func(rule, text string, bad bool, fail int, i, b int, extra map[string]string) {
		k := fmt.Sprint(text, fail, i, b, extra)
		if seen[k] {
			return
		}
		seen[k] = true
		fm := map[string]string{}
		for n, t := range before[b] {
			fm[n] = t
		}
		for n, t := range extra {
			fm[n] = t
		}
		cs = append(cs, cse{&job{what: rule, spec: symbolic(text), o: genOpt{flags: flags[i], files: fm, fail: fail, max: 20000}}, i, bad})
	}

	// wrong specifications
	n := 0
	wrong := func(rule string, ts []string) {
		if valid(strings.Join(ts, " ")) {
			return
		}
		n++
		add(rule, joinWith(ts, " "), true, 0, n%2, 1, nil)
		add(rule, joinWith(ts, "\n"), true, 0, (n+1)%2, n/2%2, nil)
	}
	for i, t := range ts {
		wrong("cut off", ts[:i])
		wrong("token missing: "+t, edit(ts, i, 1))
		wrong("token doubled: "+t, edit(ts, i, 0, t))
		for _, w := range genWords() {
			wrong("token "+w+" for "+t, edit(ts, i, 1, w))
			wrong("additional token "+w, edit(ts, i, 0, w))
		}
	}
	for _, w := range genWords() {
		wrong("additional token "+w, edit(ts, len(ts), 0, w))
	}
	syntax := len(cs)
	rej := genRejects()
	for k, name := range sortedKeys(rej) {
		add("unsupported "+strings.Split(name, "-")[0], rej[name], true, 0, k%2, 1+k%2, nil)
	}
	for k, s := range []string{"/* abc", "\"abc", "089", "$", "\x00", "0x", "'"} {
		for i := 0; i <= len(ts); i += 1 + k%2 {
			add("scanner error", joinWith(ts[:i], " ")+s+" "+joinWith(ts[i:], " "), true, 0, i%2, 1, nil)
		}
	}
	// failures of file operations
	made := map[string]bool{}
	for i := range flags {
		for b := range before {
			add("operations fail", genBase, false, 2, i, b, nil)
			add("operations fail and the specification is wrong", joinWith(ts[:len(ts)-3], " "), true, 2, i, b, nil)
		}
		for m := range good[i].M.FS.Made {
			if m != outFile && m != typesFile {
				made[m] = true
			}
		}
	}
	for _, m := range sortedKeys(made) {
		for i := range flags {
			add("a file exists", genBase, false, 1, i, 1, map[string]string{m: old})
			add("a file exists and the specification is wrong", joinWith(ts[:len(ts)-3], " "), true, 1, i, 1, map[string]string{m: old})
		}
	}
	// missing arguments
	for n, fl := range map[string]map[string]string{"no input file is named": {"i": "none"}, "no output file is named": {"o": "none"}, "the input file is named by an empty string": {"i": ""}, "the output file is named by an empty string": {"o": ""}} {
		cs = append(cs, cse{&job{what: n, spec: symbolic(genBase), o: genOpt{flags: fl, files: map[string]string{outFile: old, typesFile: old}}}, 0, true})
	}
	cs = append(cs, cse{&job{what: "the input file does not exist", o: genOpt{flags: flags[1], noInput: true, files: map[string]string{outFile: old, typesFile: old}}}, 1, true})
	cs = append(cs, cse{&job{what: "the package name is no name", spec: symbolic(genBase), o: genOpt{flags: map[string]string{"p": "1x", "t": typesFile}, files: map[string]string{outFile: old, typesFile: old}}}, 1, true})

	var js []*job
	for _, x := range cs {
		js = append(js, x.j)
	}
	g.runAll(js)
	ops := map[string]bool{}
	paths := 0
	for _, x := range cs {
		if !c.Check(x.j.all, "undecided:paths", "main.go", "too many paths for: %s", x.j.what) {
			continue
		}
		for _, r := range x.j.res {
			paths++
			if r.Undecided != "" {
				c.Fail("undecided:generator:"+x.j.what, "main.go", "the generator cannot be evaluated (%s): %s", x.j.what, r.Undecided)
				continue
			}
			for _, f := range r.M.FS.Failed {
				ops[f] = true
			}
			k, d := judge(x.i, x.j, r, x.bad)
			what := x.j.what
			if len(r.M.FS.Failed) > 0 {
				what += "; failing: " + strings.Join(r.M.FS.Failed, ", ")
			}
			c.Check(d == "", k+":"+x.j.what, panicPos(c, r), "a run of the generator (%s) breaks the promise: %s; specification %s", what, d, shorten(tailOf(x.j.spec.Text(nil))))
		}
	}
	g.evidence(0, len(rej))
	c.Extra["wrong_specifications"] = syntax
	c.Extra["failing_operations"] = sortedKeys(ops)
	c.Extra["temporary_files"] = sortedKeys(made)
	c.Extra["runs_judged"] = paths
}

func tailOf(s string) string {
	if len(s) > 200 {
		return s[len(s)-200:]
	}
	return s
}

func panicPos(c *Ctx, r *sev.Result) string {
	if r.Panic != nil {
		return g0Pos(c, r.Panic.Pos)
	}
	return "main.go"
}

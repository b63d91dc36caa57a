package rules

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"

	"verif/checker/sev"
)

// C33: what is supported is accepted and translated in full.

func init() { Checks["C33"] = checkC33 }

const acceptRule = "(1) Definitions are derived from the grammar of the supported language: every declarator over every type specifier in every place that holds a declaration, every list (items, members, arms, case labels, versions, procedures, definitions) with none, one, two, and many elements (up to 300, more than any stack or table of the parser starts with), nesting up to 24 deep, numbers in every spelling, long names, lines and files, every layout (tokens on their own lines, comments between them), alone, all together, forwards and backwards (uses before definitions), under every combination of options. The generator must succeed on each. (2) The declarations of the emitted files, read from their syntax trees, must be those of the specification: every constant, enum item, type, codec, handler interface and registration function exactly once."

// acceptSpecs are specifications of the supported language by name.
func acceptSpecs(thorough bool) map[string]string {
	r := map[string]string{}
	b := &genBuf{}
	counts := []int{0, 1, 2, 3, 17, 70}
	if thorough {
		counts = append(counts, 4, 5, 8, 16, 33, 64, 65, 128, 129, 256, 257)
	}
	list := func(n int, sep string, f func(i int) string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, sep)
	}
	var defs []string // one of each kind, for the orders
	def := func(name, s string) {
		r[name] = s
		defs = append(defs, s)
	}
	specs := append([]string{"struct { int m; }", "struct { }", "struct { void; hyper m; }", "union switch (int d) { case 1: int m; }", "union switch (color d) { default: void; }"}, genPrim...)
	specs = append(specs, genNamed...)
	// every declarator over every specifier, in every place
	places := map[string]string{
		"typedef": "typedef D;\n", "member": "struct N { int first; D; bool last; };\n", "only member": "struct N { D; };\n",
		"arm": "union N switch (int d) { case 1: D; case 2: void; };\n", "only arm": "union N switch (unsigned int d) { case 1: case 2: D; };\n", "default": "union N switch (bool d) { case TRUE: int one; default: D; };\n",
		"inner member": "struct N { struct { D; } in; };\n", "inner arm": "typedef union switch (int e) { case 2: D; } N;\n",
	}
	for _, pl := range sortedKeys(places) {
		var all strings.Builder
		var forms []string
		for _, d := range genDecl {
			for _, t := range specs {
				forms = append(forms, declOf(d, t, "\x00"))
			}
		}
		for _, d := range genBytes {
			forms = append(forms, declOf(d, "", "\x00"))
		}
		if pl != "typedef" {
			forms = append(forms, "void")
		}
		for _, f := range forms {
			d := strings.Replace(f, "\x00", b.name("n"), 1)
			all.WriteString(strings.Replace(strings.Replace(places[pl], "D", d, 1), "N", b.name("Y"), 1))
		}
		def("declarations: "+pl, all.String())
	}
	for _, n := range counts {
		dec := func(i int) string { return fmt.Sprintf("int %s;", b.name("f")) }
		if n > 0 {
			def(fmt.Sprintf("%d enum items", n), fmt.Sprintf("enum %s { %s };\n", b.name("e"), list(n, ", ", func(i int) string { return fmt.Sprintf("%s = %d", b.name("k"), i) })))
			def(fmt.Sprintf("%d case labels", n), fmt.Sprintf("union %s switch (int d) { %s int a; default: void; };\n", b.name("u"), list(n, " ", func(i int) string { return fmt.Sprintf("case %d:", i) })))
			def(fmt.Sprintf("%d constants", n), list(n, "", func(i int) string { return fmt.Sprintf("const %s = %d;\n", b.name("c"), i) }))
			def(fmt.Sprintf("%d typedefs", n), list(n, "", func(i int) string { return fmt.Sprintf("typedef hyper %s;\n", b.name("t")) }))
			def(fmt.Sprintf("%d programs", n), list(n, "", func(i int) string {
				return fmt.Sprintf("program %s { version %s { void %s(void) = 0; } = 1; } = %d;\n", b.name("P"), b.name("V"), b.name("q"), i)
			}))
		}
		def(fmt.Sprintf("%d members", n), fmt.Sprintf("struct %s { %s };\n", b.name("s"), list(n, " ", dec)))
		def(fmt.Sprintf("%d void members", n), fmt.Sprintf("struct %s { %s };\n", b.name("s"), list(n, " ", func(int) string { return "void;" })))
		def(fmt.Sprintf("%d arms", n), fmt.Sprintf("union %s switch (int d) { %s };\n", b.name("u"), list(n, " ", func(i int) string { return fmt.Sprintf("case %d: %s", i, dec(i)) })))
		def(fmt.Sprintf("%d arms and default", n), fmt.Sprintf("union %s switch (unsigned int d) { %s default: bool last; };\n", b.name("u"), list(n, " ", func(i int) string { return fmt.Sprintf("case %d: %s", i, dec(i)) })))
		def(fmt.Sprintf("%d versions", n), fmt.Sprintf("program %s { %s } = 7;\n", b.name("P"), list(n, " ", func(i int) string {
			return fmt.Sprintf("version %s { void %s(pt) = 1; } = %d;", b.name("V"), b.name("q"), i)
		})))
		def(fmt.Sprintf("%d procedures", n), fmt.Sprintf("program %s { version %s { %s } = 1; } = 0x20000000;\n", b.name("P"), b.name("V"), list(n, " ", func(i int) string {
			return fmt.Sprintf("%s %s(%s) = %d;", []string{"void", "pt", "res"}[i%3], b.name("q"), []string{"void", "name"}[i/3%2], i)
		})))
	}
	for _, n := range []int{1, 2, 3, 12, 24} {
		for k, kind := range []string{"structs", "unions", "arrays", "all"} {
			deep := "int m"
			for i := 0; i < n; i++ {
				x := k
				if k == 3 {
					x = i % 3
				}
				switch x {
				case 0:
					deep = fmt.Sprintf("struct { %s; } %s", deep, b.name("g"))
				case 1:
					deep = fmt.Sprintf("union switch (int d) { case 1: %s; } %s", deep, b.name("g"))
				default:
					deep = fmt.Sprintf("struct { bool b; %s; } %s%s", deep, b.name("g"), []string{"<4>", "<>", "[2]"}[i%3])
				}
			}
			def(fmt.Sprintf("%s nested %d deep", kind, n), fmt.Sprintf("struct %s { %s; };\n", b.name("s"), deep))
		}
	}
	for _, v := range []string{"0", "1", "00", "017", "0x1f", "0X1F", "4294967295", "0xffffffff", "2147483648"} {
		def("number "+v, fmt.Sprintf("const %s = %s;\nenum %s { %s = 1, %s = MAX };\nprogram %s { version %s { void %s(void) = %s; } = %s; } = %s;\n", b.name("c"), v, b.name("e"), b.name("k"), b.name("k"), b.name("P"), b.name("V"), b.name("q"), v, v, v))
	}
	def("the same values and members", "enum same_e { se1 = 1, se2 = 1, se3 = 0x1, se4 = MAX, se5 = MAX };\nconst sc1 = 1;\nconst sc2 = 1;\nprogram sp1 { version sv1 { void sq1(void) = 1; void sq2(void) = 2; } = 1; version sv2 { pt sq3(void) = 1; void sq2(void) = 2; } = 2; } = 1;\nprogram sp2 { version sv3 { void sq4(void) = 1; } = 1; } = 2;\nstruct ss1 { int m; };\nstruct ss2 { int m; };\nunion su1 switch (int m) { case 1: int n; };\nunion su2 switch (int m) { case 1: int n; };\ntypedef ss1 st1;\ntypedef ss1 st2;\n")
	long := strings.Repeat("long_name_", 60)
	def("names of 600 characters", fmt.Sprintf("const %sc = 1;\nstruct %ss { int %sm; };\nprogram %sp { version %sv { void %sq(%ss) = 1; } = 1; } = 1;\n", long, long, long, long, long, long, long))
	r["nothing"] = ""
	r["only blanks"] = " \n\t\r\n"
	r["only comments"] = "// one\n/* two\n */"
	r["no newline at the end"] = strings.TrimRight(genBase, "\n")
	r["a comment of 200000 characters"] = "/*" + strings.Repeat(" and so on,", 200000/11) + " */\n" + genBase
	r["100000 blank lines"] = strings.Repeat("\n", 100000) + genBase
	r["a line of 200000 characters"] = strings.Repeat(" ", 200000) + strings.ReplaceAll(genBase, "\n", " ")
	toks, err := rlex(genBase)
	if err == nil {
		for n, sep := range map[string]string{"one token per line": "\n", "one token per line, CR LF": "\r\n", "everything on one line": " ", "a comment after every token": " /* ; } */ ", "a line comment after every token": " // ; {\n", "a comment of several lines after every token": "/*\n;\n*/"} {
			var l []string
			for _, t := range toks {
				l = append(l, t.s)
			}
			r[n] = strings.Join(l, sep)
		}
	}
	r["300 definitions"] = list(300, "", func(i int) string {
		return []string{fmt.Sprintf("const %s = %d;\n", b.name("c"), i), fmt.Sprintf("struct %s { int a; };\n", b.name("s")), fmt.Sprintf("typedef opaque %s<>;\n", b.name("t"))}[i%3]
	})
	fwd := append([]string{genPrelude}, defs...)
	r["everything"] = strings.Join(fwd, "")
	for i, j := 0, len(fwd)-1; i < j; i, j = i+1, j-1 {
		fwd[i], fwd[j] = fwd[j], fwd[i]
	}
	r["everything backwards"] = strings.Join(fwd, "")
	for _, n := range sortedKeys(r) {
		if !strings.Contains(r[n], "const MAX") && n != "nothing" && !strings.HasPrefix(n, "only ") {
			// what is used may be defined later
			if len(n)%2 == 0 {
				r[n] += genPrelude
			} else {
				r[n] = genPrelude + r[n]
			}
		}
	}
	return r
}

// declared lists the declarations of a file.
func declared(text string, into map[string]int) error {
	f, err := parser.ParseFile(token.NewFileSet(), "", text, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			n := d.Name.Name
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					n = id.Name + "." + n
				}
			}
			into["func "+n]++
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					into["type "+s.Name.Name]++
				case *ast.ValueSpec:
					for _, n := range s.Names {
						into["const "+n.Name]++
					}
				}
			}
		}
	}
	return nil
}

// wanted lists the declarations a specification must be translated into.
func wanted(s *RSpec) []string {
	set := map[string]bool{}
	up := func(n string) string { return strings.ToUpper(n[:1]) + n[1:] }
	for _, n := range s.COrder {
		set["const "+up(n)] = true
	}
	for n := range s.Enum {
		set["const "+up(n)] = true
	}
	for _, n := range s.Order {
		set["type "+up(n)] = true
		set["func "+up(n)+".Xdr"] = true
	}
	for _, p := range s.Progs {
		set["const "+up(p.Name)] = true
		for _, v := range p.Vers {
			set["const "+up(v.Name)] = true
			set["type "+up(p.Name)+"_"+up(v.Name)+"_handler"] = true
			set["func "+up(p.Name)+"_"+up(v.Name)+"_regs"] = true
			for _, q := range v.Procs {
				set["const "+up(q.Name)] = true
			}
		}
	}
	var r []string
	for n := range set {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

func checkC33(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+acceptRule)
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	specs := acceptSpecs(c.Tier == "thorough")
	plain := map[string]string{"p": "verifgen"}
	var opts []map[string]string
	for i := 0; i < 16; i++ {
		o := map[string]string{"p": "verifgen"}
		if i&1 != 0 {
			o["t"] = typesFile
		}
		if i&2 != 0 {
			o["unsigned-enum"] = "true"
		}
		if i&4 != 0 {
			o["const-type"] = "uint32"
		}
		if i&8 != 0 {
			o["d"] = "true"
		}
		opts = append(opts, o)
	}
	type cse struct {
		j    *job
		name string
		o    map[string]string
	}
	var cs []cse
	add := func(name string, o map[string]string) {
		cs = append(cs, cse{&job{what: name, spec: sev.Lit(specs[name]), o: genOpt{flags: o}}, name, o})
	}
	names := sortedKeys(specs)
	for k, n := range names {
		add(n, plain)
		if !strings.HasPrefix(n, "everything") && !strings.HasPrefix(n, "declarations") {
			add(n, opts[1+k%7])
		}
	}
	for _, o := range opts {
		specs["options"] = genPrelude + genBase
		add("options", o)
	}
	var js []*job
	for _, x := range cs {
		js = append(js, x.j)
	}
	g.runAll(js)
	decls := 0
	for _, x := range cs {
		r := g.only(x.j)
		if r == nil {
			continue
		}
		var os []string
		for _, n := range sortedKeys(x.o) {
			os = append(os, "-"+n)
		}
		what := fmt.Sprintf("%s (%s)", x.name, strings.Join(os, " "))
		if !c.Check(!r.Failed(), "refused:"+x.name, "main.go", "the generator %s on a specification with %s: %s", outcomeOf(r), what, clip(specs[x.name])) {
			continue
		}
		ref, err := ParseXDR(specs[x.name])
		if err != nil {
			c.Fail("undecided:reference:"+x.name, "main.go", "the reference reader rejects %s: %v", what, err)
			continue
		}
		have := map[string]int{}
		bad := ""
		for _, n := range []string{outFile, typesFile} {
			if n == typesFile && x.o["t"] == "" {
				continue
			}
			f := r.M.FS.Files[n]
			if f == nil {
				bad = "writes no " + filepath.Base(n)
				break
			}
			if err := declared(f.Content.Text(nil), have); err != nil {
				bad = "writes a " + filepath.Base(n) + " that is not Go: " + err.Error()
				break
			}
		}
		if !c.Check(bad == "", "unreadable:"+x.name, "main.go", "the generator %s for %s", bad, what) {
			continue
		}
		for _, w := range wanted(ref) {
			decls++
			c.Check(have[w] == 1, "dropped:"+x.name, "out.go", "for %s the generator declares %s %d times instead of once", what, w, have[w])
		}
	}
	g.evidence(len(names), 0)
	c.Extra["specifications"] = len(cs)
	c.Extra["declarations_required"] = decls
}

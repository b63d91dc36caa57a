package rules

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"verif/checker/sev"
)

// The generator is analysed by evaluating its source abstractly: see package
// sev. Its parser is the one goyacc makes from xdr.y.

// goyacc makes the parser from the grammar.
func (c *Ctx) goyacc() ([]byte, error) {
	tool := ""
	if e, err := os.Executable(); err == nil {
		tool = filepath.Join(filepath.Dir(e), "goyacc")
	}
	if _, err := os.Stat(tool); err != nil {
		tool = "/opt/vp/gobin/goyacc"
	}
	d, err := os.MkdirTemp("", "verif-goyacc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	// as the go:generate line of the repository does
	args := []string{"-o", "xdr.go", "-p", "xdr", "xdr.y"}
	cmd := exec.Command(tool, args...)
	b, err := os.ReadFile(filepath.Join(c.Repo, "xdr.y"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(d, "xdr.y"), b, 0666); err != nil {
		return nil, err
	}
	cmd.Dir = d
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("goyacc: %v: %s", err, out)
	}
	return os.ReadFile(filepath.Join(d, "xdr.go"))
}

// gen is the generator under analysis.
type gen struct {
	c      *Ctx
	main   *ssa.Package
	fn     *ssa.Function
	global *sev.Machine
	steps  int
	runs   int
}

func (c *Ctx) generator() *gen {
	src, err := c.goyacc()
	if err != nil {
		c.Fail("grammar", "xdr.y", "the grammar cannot be turned into a parser: %v", err)
		return nil
	}
	if c.Overlay == nil {
		c.Overlay = map[string][]byte{}
	}
	c.Overlay[filepath.Join(c.Repo, "xdr.go")] = src
	if !c.Load(".", "./xdr") {
		return nil
	}
	p := c.Pkgs[c.Module]
	if p == nil || p.Func("main") == nil {
		c.Fail("anchor:main", c.Repo, "the generator's main function was not found")
		return nil
	}
	c.Funcs = map[*ssa.Function]bool{}
	return &gen{c: c, main: p, fn: p.Func("main")}
}

// symbolic turns the text of a specification into a template in which
// identifiers and numbers are atoms.
func symbolic(src string) sev.Str {
	var r []sev.Str
	flush := func(s string) { r = append(r, sev.Lit(s)) }
	for i := 0; i < len(src); {
		c := src[i]
		isID := func(c byte) bool {
			return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		}
		switch {
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i:], "*/")
			if j < 0 {
				j = len(src) - i - 2
			}
			flush(src[i : i+j+2])
			i += j + 2
		case isID(c):
			j := i
			for j < len(src) && isID(src[j]) {
				j++
			}
			w := src[i:j]
			i = j
			switch {
			case c >= '0' && c <= '9':
				r = append(r, sev.AtomStr(sev.Base("num", w, w)))
			case rkeywords[w] || w == "TRUE" || w == "FALSE" || token.IsKeyword(w):
				flush(w)
			default:
				r = append(r, sev.AtomStr(sev.Base("ident", w, w)))
			}
		default:
			flush(src[i : i+1])
			i++
		}
	}
	return sev.Cat(r...)
}

// genOpt are the circumstances of a run.
type genOpt struct {
	flags   map[string]string // flag values; "true" for booleans
	assign  map[string]string
	files   map[string]string // files that exist before
	fail    int               // file operations that may fail
	max     int
	noInput bool // there is no input file
	env     int  // circumstances of the process
}

const (
	inFile    = "/w/spec.x"
	outFile   = "/w/out.go"
	typesFile = "/w/types.go"
)

// job is an evaluation of main.
type job struct {
	what string
	spec sev.Str
	o    genOpt
	res  []*sev.Result // one per path
	all  bool          // these are all paths
	fns  map[*ssa.Function]bool
}

// run evaluates main on every path.
func (g *gen) run(j *job) {
	max := j.o.max
	if max == 0 {
		max = 4000
	}
	j.fns = map[*ssa.Function]bool{}
	mk := func() *sev.Machine {
		m := sev.New(g.c.Prog, g.c.InRepo, 60000000)
		m.Funcs = j.fns
		files := map[string]sev.Str{}
		if !j.o.noInput {
			files[inFile] = j.spec
		}
		for n, t := range j.o.files {
			files[n] = sev.Lit(t)
		}
		m.FS = sev.NewFS(files)
		m.FS.MaxFail = j.o.fail
		m.Assign = j.o.assign
		m.Env = j.o.env
		m.Flags["i"] = sev.Lit(inFile)
		m.Flags["o"] = sev.Lit(outFile)
		for k, v := range j.o.flags {
			switch v {
			case "true":
				m.Flags[k] = true
			case "none":
				delete(m.Flags, k)
			default:
				m.Flags[k] = sev.Lit(v)
			}
		}
		return m
	}
	j.all = sev.Paths(mk, func(m *sev.Machine) sev.Val {
		m.Init(g.main)
		return m.Call(g.fn, nil, nil, token.NoPos)
	}, max, func(r *sev.Result) {
		r.M.Forget()
		j.res = append(j.res, r)
	})
}

// runAll evaluates main in all the given circumstances.
func (g *gen) runAll(js []*job) {
	ch := make(chan *job)
	var wg sync.WaitGroup
	for i := 0; i < runtime.GOMAXPROCS(0); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				g.run(j)
			}
		}()
	}
	for _, j := range js {
		ch <- j
	}
	close(ch)
	wg.Wait()
	for _, j := range js {
		g.runs++
		for f := range j.fns {
			g.c.Funcs[f] = true
		}
		for _, r := range j.res {
			g.c.Paths++
			g.steps += r.M.Steps
		}
	}
}

// only is the result of the only path; nil if there is none.
func (g *gen) only(j *job) *sev.Result {
	for _, r := range j.res {
		if r.Undecided != "" {
			g.c.Fail("undecided:generator:"+j.what, "main.go", "the generator cannot be evaluated on %s: %s", j.what, r.Undecided)
			return nil
		}
	}
	if len(j.res) != 1 {
		g.c.Fail("undecided:generator:"+j.what, "main.go", "the generator behaves in %d ways on %s", len(j.res), j.what)
		return nil
	}
	return j.res[0]
}

// one evaluates main on its only path; nil if that cannot be done.
func (g *gen) one(what string, spec sev.Str, o genOpt) *sev.Result {
	j := &job{what: what, spec: spec, o: o}
	g.runAll([]*job{j})
	return g.only(j)
}

func outcomeOf(r *sev.Result) string {
	switch {
	case r.Panic != nil:
		return "panics (" + r.Panic.Text + ")"
	case r.Exit != nil:
		return fmt.Sprintf("exits with status %d", r.Exit.Code)
	}
	return "succeeds"
}

// genPkg is a generated package.
type genPkg struct {
	fam    genFam
	dir    string
	out    map[string]string // file name: text
	emits  []sev.Emit
	assign map[string]string
	bad    []string // type errors
}

// produce evaluates the generator on families; those it fails on are left out.
func (g *gen) produce(fs ...genFam) []*genPkg {
	var js []*job
	for _, f := range fs {
		fl := map[string]string{"p": "verifgen"}
		for k, v := range f.flags {
			fl[k] = v
		}
		js = append(js, &job{what: f.name, spec: symbolic(f.spec), o: genOpt{flags: fl}})
	}
	g.runAll(js)
	var ps []*genPkg
	for i, f := range fs {
		r := g.only(js[i])
		if r == nil {
			continue
		}
		if !g.c.Check(!r.Failed(), "refused:"+f.name, "main.go", "the generator %s on the definitions of %s", outcomeOf(r), f.name) {
			continue
		}
		p := &genPkg{fam: f, dir: "verifgen_" + strings.ReplaceAll(f.name, "-", "_"), out: map[string]string{}, emits: r.M.Emits}
		for _, n := range []string{outFile, typesFile} {
			if x := r.M.FS.Files[n]; x != nil {
				p.out[filepath.Base(n)] = x.Content.Text(nil)
			}
		}
		ps = append(ps, p)
	}
	return ps
}

// load type-checks the generated packages together with the runtime.
func (g *gen) load(ps []*genPkg, extra ...string) []*genPkg {
	c := g.c
	c.Overlay = map[string][]byte{}
	pats := append([]string{"./xdr"}, extra...)
	by := map[string]*genPkg{}
	for _, p := range ps {
		for n, t := range p.out {
			c.Overlay[filepath.Join(c.Repo, p.dir, n)] = []byte(t)
		}
		pats = append(pats, "./"+p.dir)
		by[c.Module+"/"+p.dir] = p
	}
	ok := c.load(func(lp *packages.Package) bool {
		p := by[lp.PkgPath]
		if p == nil {
			return false
		}
		for _, e := range lp.Errors {
			p.bad = append(p.bad, e.Error())
			c.Fail("compile:"+p.fam.name+":"+p.what(e.Pos), p.where(c, e.Pos), "the code generated for %s does not compile: %s: %s", p.fam.name, e.Msg, p.line(e.Pos))
		}
		return true
	}, pats...)
	if !ok {
		return nil
	}
	var r []*genPkg
	for _, p := range ps {
		if p.bad == nil {
			r = append(r, p)
			c.Oblig++
			c.Discharge++
		}
	}
	return r
}

// line is the generated line at a position file:line:col.
func (p *genPkg) line(pos string) string {
	f := strings.Split(pos, ":")
	if len(f) < 2 {
		return ""
	}
	ls := strings.Split(p.out[filepath.Base(f[0])], "\n")
	n, _ := strconv.Atoi(f[1])
	if n < 1 || n > len(ls) {
		return ""
	}
	return strings.TrimSpace(ls[n-1])
}

// what names the definition a generated line belongs to.
func (p *genPkg) what(pos string) string {
	f := strings.Split(pos, ":")
	if len(f) < 2 {
		return "package"
	}
	n, _ := strconv.Atoi(f[1])
	fset := token.NewFileSet()
	file, _ := parser.ParseFile(fset, "", p.out[filepath.Base(f[0])], parser.SkipObjectResolution)
	if file == nil {
		return "package"
	}
	in := func(x ast.Node) bool { return fset.Position(x.Pos()).Line <= n && n <= fset.Position(x.End()).Line }
	for _, d := range file.Decls {
		if !in(d) {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil && len(d.Recv.List) == 1 {
				t := d.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					return id.Name
				}
			}
			return d.Name.Name
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if !in(s) {
					continue
				}
				switch s := s.(type) {
				case *ast.ValueSpec:
					return s.Names[0].Name
				case *ast.TypeSpec:
					return s.Name.Name
				}
			}
		}
	}
	return "package"
}

// where is the place of the generator that wrote a generated line.
func (p *genPkg) where(c *Ctx, pos string) string {
	l := p.line(pos)
	if l != "" {
		for _, e := range p.emits {
			if strings.Contains(e.Text.Text(nil), l) {
				return g0Pos(c, e.Pos)
			}
		}
	}
	return "out.go"
}

var g0Fset *token.FileSet

// g0Pos renders positions of the generator, whose program may be gone.
func g0Pos(c *Ctx, p token.Pos) string {
	if g0Fset == nil || !p.IsValid() {
		return "out.go"
	}
	q := g0Fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

// families is what the generator is evaluated on.
func (c *Ctx) families() []genFam {
	r := []genFam{genDecls(), genNest(), genDeep(3), genUnions(), genShapes(), genNames(), genMany(40)}
	if c.Tier == "thorough" {
		r = append(r, genDeep(4), genMany(130))
	}
	opt := func(f genFam, n string, fl map[string]string) genFam {
		f.name += "-" + n
		f.flags = fl
		return f
	}
	r = append(r,
		opt(genNames(), "unsigned-enum", map[string]string{"unsigned-enum": "true"}),
		opt(genNames(), "types", map[string]string{"t": typesFile}),
		opt(genShapes(), "types", map[string]string{"t": typesFile, "unsigned-enum": "true"}))
	return r
}

func init() {
	Checks["C21"] = checkC21
	Checks["C22"] = checkC22
	Checks["C23"] = checkC23
}

// reference reads the definitions of a family with the independent reader.
func (p *genPkg) reference(c *Ctx) (*codecPkg, *RSpec) {
	spec, err := ParseXDR(p.fam.spec)
	if err != nil {
		c.Fail("undecided:reference:"+p.fam.name, p.fam.name, "the reference reader rejects the definitions: %v", err)
		return nil, nil
	}
	return c.newCodecPkg(c.Module+"/"+p.dir, spec), spec
}

func (g *gen) evidence(fams, rejected int) {
	c := g.c
	if c.Extra == nil {
		c.Extra = map[string]any{}
	}
	c.Extra["generator_runs"] = g.runs
	c.Extra["generator_steps"] = g.steps
	c.Extra["families"] = fams
	if rejected > 0 {
		c.Extra["unsupported_constructs_tried"] = rejected
	}
	c.Assume = append(c.Assume,
		"goyacc (vendored) and go/scanner, go/format, fmt, bufio, os behave as documented",
		"names are ASCII identifiers")
}

const genRule = "The source of the generator (main, the lexer, the parser goyacc makes from xdr.y, every emitter) is evaluated abstractly: texts of identifiers and numbers stay symbolic, so the emitted files are templates over the names of the specification. "

func checkC21(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"This is done for families that hold every declarator of every type specifier in every context of the language, inline structs and unions nested to depth three (thorough: four), unions over every kind of discriminant, recursion, and the generator's options. Each emitted package is type-checked against the real runtime, and every path of every emitted codec, in both directions, is matched with the definition read by an independent reader (kind, order, bound, arm per discriminant, element loops by an index invariant). The templates hold for all names and numbers: one that has every kind of definition is renamed, with every text the generator compares names or numbers with, and must give the renamed output. Constructs without support, in every context, must make the generator fail.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	fams := c.families()
	ps := g.produce(fams...)
	rej := genRejects()
	var js []*job
	for _, n := range sortedKeys(rej) {
		js = append(js, &job{what: n, spec: symbolic(rej[n]), o: genOpt{flags: map[string]string{"p": "verifgen"}}})
	}
	g.runAll(js)
	g.rename(genRenameTypes)
	for _, j := range js {
		if r := g.only(j); r != nil {
			c.Check(r.Failed(), "accepted:"+j.what, "out.go", "the generator %s on a construct it does not support: %s", outcomeOf(r), strings.TrimPrefix(rej[j.what], genPrelude))
		}
	}
	for _, p := range g.load(ps) {
		k, _ := p.reference(c)
		if k == nil {
			continue
		}
		k.checkAll()
		c.Oblig += k.steps + k.runs
		c.Discharge += k.steps + k.runs
		c.Programs += k.runs
		for _, x := range k.probs {
			c.Discharge--
			c.Fail(x.Cat+":"+p.fam.name+":"+x.Type+":"+x.Mode.String(), p.where(c, x.Pos), "definition %s of %s: %s", x.Type, p.fam.name, x.Text)
		}
	}
	g.evidence(len(fams), len(rej))
}

func checkC22(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"Every constant of the emitted packages (constants, enum items, programs, versions, procedures) is compared with the value its definition gives, under its Go name, and with the type the options ask for; enum types and their codecs must have the signedness of the option; every name must be defined where it is referenced; with -t every constant and type of the specification must be declared in that file. The templates are renamed and the generator evaluated again on the renamed specification: the results must agree, in particular for every text the generator compares names or numbers with.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	var fams []genFam
	names := genNames()
	for _, fl := range []map[string]string{{}, {"unsigned-enum": "true"}, {"t": typesFile}, {"t": typesFile, "unsigned-enum": "true"}} {
		f := names
		f.flags = fl
		f.name = "names"
		for _, k := range sortedKeys(fl) {
			f.name += "-" + k
		}
		fams = append(fams, f)
	}
	for _, ct := range []string{"uint32", "int64", "int"} {
		for _, t := range []string{"", typesFile} {
			f := genFam{name: "consttype-" + ct, spec: genConstType, flags: map[string]string{"const-type": ct}}
			if t != "" {
				f.name += "-types"
				f.flags["t"] = t
			}
			fams = append(fams, f)
		}
	}
	fams = append(fams, genOdd()...)
	ps := g.produce(fams...)
	g.rename(genRenameTypes + genRenameProgs)
	for _, p := range g.load(ps) {
		k, spec := p.reference(c)
		if k == nil {
			continue
		}
		c.Programs++
		c.checkConsts(k.pkg, spec)
		ct := p.fam.flags["const-type"]
		// -t separates the definitions of the specification from the code
		place := func(o types.Object, n string) {
			if p.fam.flags["t"] == "" || o == nil {
				return
			}
			at := c.Prog.Fset.Position(o.Pos())
			c.Check(filepath.Base(at.Filename) == filepath.Base(typesFile), "place:"+p.fam.name+":"+n, p.where(c, c.abs(o.Pos())), "with -t the definition of %s is written to %s", n, filepath.Base(at.Filename))
		}
		for it := range spec.Enum {
			place(k.pkg.Scope().Lookup(GoName(it)), it)
		}
		for _, pr := range spec.Progs {
			place(k.pkg.Scope().Lookup(GoName(pr.Name)), pr.Name)
			for _, v := range pr.Vers {
				place(k.pkg.Scope().Lookup(GoName(v.Name)), v.Name)
				for _, q := range v.Procs {
					place(k.pkg.Scope().Lookup(GoName(q.Name)), q.Name)
				}
			}
		}
		for _, n := range spec.COrder {
			o, _, _ := goConst(k.pkg, GoName(n))
			if o == nil {
				continue
			}
			place(o, n)
			want := "untyped int"
			if ct != "" {
				want = ct
			}
			c.Check(o.Type().String() == want, "consttype:"+p.fam.name+":"+n, p.where(c, c.abs(o.Pos())), "constant %s has type %v instead of %s", n, o.Type(), want)
		}
		for _, n := range spec.Order {
			d := spec.Defs[n]
			o := k.pkg.Scope().Lookup(GoName(n))
			if !c.Check(o != nil, "type:"+p.fam.name+":"+n, "out.go", "there is no type %s for %s", GoName(n), n) {
				continue
			}
			pos := p.where(c, c.abs(o.Pos()))
			place(o, n)
			switch d.T.Kind {
			case "enum":
				want := "int32"
				if p.fam.flags["unsigned-enum"] != "" {
					want = "uint32"
				}
				c.Check(o.Type().Underlying().String() == want, "enumtype:"+p.fam.name+":"+n, pos, "enum %s has type %v instead of %s", n, o.Type().Underlying(), want)
			case "struct", "union":
				st, ok := o.Type().Underlying().(*types.Struct)
				var want []string
				fs := append([]*RDecl{}, d.T.Fields...)
				if d.T.Disc != nil {
					fs = append(fs, d.T.Disc)
					for _, a := range d.T.Arms {
						fs = append(fs, a.D)
					}
					if d.T.Def != nil {
						fs = append(fs, d.T.Def)
					}
				}
				for _, f := range fs {
					if f.T.Kind != "void" {
						want = append(want, GoName(f.Name))
					}
				}
				var got []string
				for i := 0; ok && i < st.NumFields(); i++ {
					got = append(got, st.Field(i).Name())
				}
				c.Check(ok && strings.Join(got, " ") == strings.Join(want, " "), "fields:"+p.fam.name+":"+n, pos, "%s has fields %v instead of %v", n, got, want)
			}
		}
		k.checkAll()
		c.Oblig += k.steps + k.runs
		c.Discharge += k.steps + k.runs
		for _, x := range k.probs {
			c.Discharge--
			c.Fail(x.Cat+":"+p.fam.name+":"+x.Type+":"+x.Mode.String(), p.where(c, x.Pos), "definition %s of %s: %s", x.Type, p.fam.name, x.Text)
		}
	}
	g.evidence(len(fams), 0)
}

// abs is a position as file:line:col.
func (c *Ctx) abs(p token.Pos) string { return c.Prog.Fset.Position(p).String() }

// rename: the output follows the names of the specification.
func (g *gen) rename(text string) {
	c := g.c
	spec := symbolic(text)
	base := map[string]*sev.Result{}
	special := map[string]bool{}
	pairs := map[[2]*sev.Atom]bool{}
	looked := 0
	opts := map[string]map[string]string{"": {}, "-t": {"t": typesFile}}
	for o, fl := range opts {
		r := g.one("rename"+o, spec, genOpt{flags: fl})
		if r == nil || !c.Check(!r.Failed(), "refused:rename", "main.go", "the generator %s", outcomeOf(r)) {
			return
		}
		base[o] = r
		for s := range r.M.Special {
			if !rkeywords[s] && s != "TRUE" && s != "FALSE" && s != "" {
				special[s] = true
			}
		}
		looked += r.M.Looked
		for p := range r.M.Pairs {
			if p[0].Kind == "num" && p[1].Kind == "num" {
				pairs[p] = true
			}
		}
	}
	var maps []map[string]string
	as := spec.Atoms()
	all := func(kind string, f func(i int, s string) string) {
		m := map[string]string{}
		for i, a := range as {
			if a.Kind == kind {
				m[a.Name] = f(i, a.Rep)
			}
		}
		maps = append(maps, m)
	}
	all("ident", func(i int, s string) string { return "n" + strconv.Itoa(i) })
	all("ident", func(i int, s string) string { return "Q_" + strings.ToUpper(s) + "_long_name_0123456789" })
	all("ident", func(i int, s string) string { return string(rune('a'+i%26)) + strings.Repeat("z", i/26) })
	all("num", func(i int, s string) string { return strconv.Itoa(1000 + i) })
	all("num", func(i int, s string) string { return "0x" + strconv.FormatInt(int64(i+16), 16) })
	all("num", func(i int, s string) string { return "0" + strconv.FormatInt(int64(i+8), 8) })
	all("num", func(i int, s string) string { return "7" })
	all("num", func(i int, s string) string { return strconv.Itoa(i) })
	all("num", func(i int, s string) string { return strconv.Itoa(100 - i) })
	all("num", func(i int, s string) string { return strconv.FormatUint(1<<63+uint64(i), 10) })
	for p := range pairs {
		maps = append(maps, map[string]string{p[0].Name: "7", p[1].Name: "7"})
	}
	words := append([]string{"i", "xs", "v", "opted", "h", "w", "in", "out", "args", "err", "res", "nil", "len", "make", "byte", "uint32", "p", "x", "TRUE1", "true", "X", "Xdr"}, sortedKeys(special)...)
	for _, s := range words {
		digit := s[0] >= '0' && s[0] <= '9'
		for _, a := range as {
			if (a.Kind == "num") == digit {
				maps = append(maps, map[string]string{a.Name: s})
			}
		}
	}
	g.renamed(spec, "rename", opts, maps, func(n int, m map[string]string, o string) bool {
		return len(m) > 1 || o == "" || n%5 == 0
	})
	if c.Extra == nil {
		c.Extra = map[string]any{}
	}
	c.Extra["renamings"] = len(maps)
	c.Extra["texts_compared_with_names"] = sortedKeys(special)
	c.Extra["texts_inspected"] = looked
	c.Extra["numbers_compared_with_each_other"] = len(pairs)
}

// renamed checks that the output for a renamed specification is the renamed
// output.
func (g *gen) renamed(spec sev.Str, rule string, opts map[string]map[string]string, maps []map[string]string, do func(n int, m map[string]string, o string) bool) {
	// Texts that occur nowhere else mark where the names and numbers go,
	// however the generator handles them.
	mark := markers(spec)
	var js []*job
	marked := map[string]*sev.Result{}
	for _, o := range sortedKeys(opts) {
		js = append(js, &job{what: rule + " marked" + o, spec: spec, o: genOpt{flags: opts[o], assign: mark}})
	}
	g.runAll(js)
	for i, o := range sortedKeys(opts) {
		r := g.only(js[i])
		if r == nil || !g.c.Check(!r.Failed(), "refused:"+rule, "main.go", "the generator %s", outcomeOf(r)) {
			return
		}
		marked[o] = r
	}
	js = nil
	var of []string
	for n, m := range maps {
		for _, o := range sortedKeys(opts) {
			if do(n, m, o) {
				js = append(js, &job{what: rule + o, spec: spec, o: genOpt{flags: opts[o], assign: m}})
				of = append(of, o)
			}
		}
	}
	g.runAll(js)
	for i, j := range js {
		r := g.only(j)
		if r == nil {
			return
		}
		m := j.o.assign
		diff := ""
		if r.Failed() {
			diff = "the generator " + outcomeOf(r)
		} else {
			diff = sameOutputs(marked[of[i]], r, mark, m)
		}
		what := ""
		for _, k := range sortedKeys(m) {
			if len(what) < 40 {
				what += " " + k + "->" + m[k]
			}
		}
		key := "several"
		if len(m) == 1 {
			key = what
		}
		g.c.Check(diff == "", rule+":"+strings.TrimSpace(key), "out.go", "renaming%s in a specification changes more than the name: %s", what, diff)
	}
}

// markers gives every name and number a text of its own.
func markers(spec sev.Str) map[string]string {
	m := map[string]string{}
	for i, a := range spec.Atoms() {
		if a.Kind == "num" {
			m[a.Name] = strconv.Itoa(7654000 + i)
		} else {
			m[a.Name] = "qk" + string(rune('a'+i/26%26)) + string(rune('a'+i%26)) + "kq"
		}
	}
	return m
}

// sameOutputs compares the outputs of two runs; the texts in the first, which
// was given the texts of mark, are replaced by those of m.
func sameOutputs(want, got *sev.Result, mark, m map[string]string) string {
	var rs []string
	for n, t := range mark {
		to, ok := m[n]
		if !ok {
			to = n
		}
		rs = append(rs, t, to)
		if g := GoName(t); g != t {
			rs = append(rs, g, GoName(to))
		}
	}
	repl := strings.NewReplacer(rs...)
	for _, f := range []string{outFile, typesFile} {
		x, y := want.M.FS.Files[f], got.M.FS.Files[f]
		if x == nil || y == nil {
			if x != y {
				return "other files are written"
			}
			continue
		}
		if a, b := repl.Replace(x.Content.Text(mark)), y.Content.Text(m); a != b && !sameDecls(a, b) {
			return firstDiff(b, a)
		}
	}
	return ""
}

// sameDecls: two files differ at most in the order of their declarations.
func sameDecls(a, b string) bool {
	x, y := topDecls(a), topDecls(b)
	return x != nil && strings.Join(x, "\x00") == strings.Join(y, "\x00")
}

func topDecls(src string) []string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", src, 0)
	if err != nil {
		return nil
	}
	r := []string{}
	for _, d := range f.Decls {
		var b strings.Builder
		printer.Fprint(&b, fset, d)
		r = append(r, b.String())
	}
	sort.Strings(r)
	return r
}

func firstDiff(got, want string) string {
	a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			w := ""
			if i < len(b) {
				w = b[i]
			}
			return fmt.Sprintf("%q instead of %q", a[i], w)
		}
	}
	return "output is missing"
}

func checkC23(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"This is done for program definitions of every shape (no to three versions and procedures, void and named types in every position, procedures shared by versions, several programs). The emitted packages must compile; the registration functions, evaluated on a symbolic service, must list every procedure of the version exactly once under its numbers; each registered handler, run on a symbolic coding state that is good or has failed, must decode its own argument type, invoke exactly its own method once and only if decoding succeeded, and return that method's result. Procedure types that are not names must be refused or handled as well. Programs whose names and numbers are replaced, in particular by every text the generator compares them with, must give the renamed output.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	var fams []genFam
	for _, f := range genProgs() {
		t := f
		t.name += "-types"
		t.flags = map[string]string{"t": typesFile}
		fams = append(fams, f, t)
	}
	ps := g.produce(fams...)
	g.rename(genRenameProgPrelude + genRenameProgs)
	opt := genProcTypes()
	refused := 0
	for _, n := range sortedKeys(opt) {
		f := genFam{name: n, spec: opt[n], flags: map[string]string{"p": "verifgen"}}
		r := g.one(n, symbolic(f.spec), genOpt{flags: f.flags})
		if r == nil {
			continue
		}
		if r.Failed() {
			refused++
			c.Check(true, "", "", "")
			continue
		}
		ps = append(ps, g.produce(f)...)
	}
	good := g.load(ps, "./rfc1057")
	if good == nil {
		return
	}
	w := c.loadedWorld()
	if w == nil {
		return
	}
	procs := 0
	for _, p := range good {
		_, spec := p.reference(c)
		if spec == nil {
			continue
		}
		c.Programs++
		c.genPkgs = []string{p.dir}
		c.genSpec = map[string]*RSpec{p.dir: spec}
		procs += w.checkServices()
		w.checkWrapped()
		for _, pr := range spec.Progs {
			for _, v := range pr.Vers {
				n := GoName(pr.Name) + "_" + GoName(v.Name) + "_handler"
				t := c.Type(p.dir, n)
				if !c.Check(t != nil && types.IsInterface(t), "interface:"+p.fam.name+":"+n, "out.go", "there is no handler interface %s", n) {
					continue
				}
				it := t.Underlying().(*types.Interface)
				want := map[string]bool{}
				for _, q := range v.Procs {
					want[GoName(q.Name)] = true
				}
				ok := it.NumMethods() == len(want)
				for i := 0; i < it.NumMethods(); i++ {
					ok = ok && want[it.Method(i).Name()]
				}
				c.Check(ok, "methods:"+p.fam.name+":"+n, "out.go", "the interface %s does not have exactly the methods %v", n, sortedKeys(want))
			}
		}
		c.genPkgs, c.genSpec = nil, nil
	}
	g.evidence(len(fams), len(opt))
	c.Extra["procedures"] = procs
	c.Extra["refused"] = refused
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

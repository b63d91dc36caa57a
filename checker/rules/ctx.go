// Package rules holds the property checks.
package rules

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/eng"
)

// Finding is one violation of a property.
type Finding struct {
	Key  string // rule and construct; stable across edits elsewhere
	Pos  string
	Text string
}

// Ctx is the context of one check run.
type Ctx struct {
	afterStore            func(*caseT) func(*eng.State, *eng.Term, *ssa.Store)
	ID, Repo, Verif, Tier string
	Seed                  int
	Start                 time.Time

	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path
	Loaded  []*packages.Package
	Module  string
	Overlay map[string][]byte

	Findings  []Finding
	Oblig     int // obligations examined
	Discharge int
	Paths     int
	Funcs     map[*ssa.Function]bool
	Samples   []string
	Rule      []string
	Extra     map[string]any
	Assume    []string
	Level     string
	Programs  int

	globInit  map[*ssa.Global]*eng.Term
	globMem   map[*eng.Term]*eng.Term
	globConst map[*ssa.Global]bool
	failEff   map[string]string
	genPkgs   []string          // generated packages under analysis
	genSpec   map[string]*RSpec // their specifications
	pkgs      []*codecPkg       // analysed in the place of the shipped packages
	posOf     func(token.Position) string
}

// Fail records a violation.
func (c *Ctx) Fail(key, pos, f string, a ...any) {
	for _, x := range c.Findings {
		if x.Key == key {
			return
		}
	}
	t := fmt.Sprintf(f, a...)
	if len(t) > 900 {
		t = t[:900] + "..."
	}
	c.Findings = append(c.Findings, Finding{key, pos, t})
}

// Ok counts a discharged obligation; when cond is false it records a violation.
func (c *Ctx) Check(cond bool, key, pos, f string, a ...any) bool {
	c.Oblig++
	if cond {
		c.Discharge++
		return true
	}
	c.Fail(key, pos, f, a...)
	return false
}

// Sample keeps a few written-out cases for the evidence.
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, fmt.Sprintf(f, a...))
	}
}

// Load type-checks and builds SSA for packages of the repository.
func (c *Ctx) Load(patterns ...string) bool {
	return c.load(nil, patterns...)
}

// load is Load; errors of packages that illTyped takes are left to it.
func (c *Ctx) load(illTyped func(p *packages.Package) bool, patterns ...string) bool {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     c.Repo,
		Overlay: c.Overlay,
		Env:     append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		c.Fail("load", c.Repo, "cannot load %v: %v", patterns, err)
		return false
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		if len(p.Errors) > 0 && illTyped != nil && illTyped(p) {
			return
		}
		for _, e := range p.Errors {
			c.Fail("typecheck:"+p.PkgPath, e.Pos, "%v", e)
			bad = true
		}
	})
	if len(ps) == 0 {
		c.Fail("load", c.Repo, "no packages match %v", patterns)
		return false
	}
	if bad {
		return false
	}
	c.Loaded = ps
	c.Prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	c.Prog.Build()
	c.failEff = nil
	c.Pkgs = map[string]*ssa.Package{}
	for _, p := range c.Prog.AllPackages() {
		c.Pkgs[p.Pkg.Path()] = p
	}
	for _, p := range ps {
		if p.Module != nil {
			c.Module = p.Module.Path
		}
	}
	c.initGlobals()
	return true
}

// InRepo reports whether fn belongs to the repository.
func (c *Ctx) InRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil && o.Pkg != nil {
			p = o.Pkg
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			return c.repoPath(fn.Object().Pkg().Path())
		} else {
			return false
		}
	}
	return c.repoPath(p.Pkg.Path())
}

func (c *Ctx) repoPath(p string) bool {
	return p == c.Module || strings.HasPrefix(p, c.Module+"/")
}

func (c *Ctx) inline(fn *ssa.Function) bool {
	if c.InRepo(fn) {
		return true
	}
	n := eng.FuncName(fn)
	switch n {
	case "encoding/binary.Read", "encoding/binary.Write", "encoding/binary.intDataSize", "encoding/binary.decodeFast", "encoding/binary.encodeFast":
		return true
	}
	return strings.HasPrefix(n, "(encoding/binary.bigEndian)") || strings.HasPrefix(n, "(encoding/binary.littleEndian)")
}

// Interp returns a fresh interpreter.
func (c *Ctx) Interp() *eng.Interp {
	if c.Funcs == nil {
		c.Funcs = map[*ssa.Function]bool{}
	}
	return &eng.Interp{
		Prog: c.Prog, Inline: c.inline, MaxSteps: 3000000, MaxPaths: 20000, MaxDepth: 60,
		GlobInit: c.globInit, GlobMem: c.globMem, Constant: c.globConst, Funcs: c.Funcs,
	}
}

// Func looks up a package-level function.
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	p := c.Pkgs[c.pkgPath(pkg)]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (c *Ctx) pkgPath(pkg string) string {
	if pkg == "" {
		return c.Module
	}
	return c.Module + "/" + pkg
}

// Method looks up a method of *T.
func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	p := c.Pkgs[c.pkgPath(pkg)]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	return c.methodOf(types.NewPointer(o.Type()), name)
}

func (c *Ctx) methodOf(t types.Type, name string) *ssa.Function {
	ms := c.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// Type looks up a named type.
func (c *Ctx) Type(pkg, name string) types.Type {
	p := c.Pkgs[c.pkgPath(pkg)]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Pos renders a position relative to the repository.
func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() || c.Prog == nil {
		return "-"
	}
	q := c.Prog.Fset.Position(p)
	if c.posOf != nil {
		if s := c.posOf(q); s != "" {
			return s
		}
	}
	f := q.Filename
	if r, err := filepath.Rel(c.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (c *Ctx) FnPos(fn *ssa.Function) string {
	if fn == nil {
		return "-"
	}
	return c.Pos(fn.Pos())
}

// Problems turns what the analysis could not decide into violations.
func (c *Ctx) Problems(it *eng.Interp, key string) bool {
	for _, p := range it.Problems {
		c.Fail("undecided:"+key, key, "analysis of %s could not be completed: %s", key, p)
	}
	return len(it.Problems) == 0
}

// Run runs fn and counts paths.
func (c *Ctx) Run(it *eng.Interp, st *eng.State, fn *ssa.Function, args []*eng.Term) []*eng.State {
	outs := it.Run(st, fn, args)
	c.Paths += len(outs)
	if len(c.globConst)+len(c.globMem) > 0 {
		// what was taken to be constant must not change
		for _, o := range outs {
			for _, w := range o.Writes() {
				if r := eng.Root(w); r.Op == "global" && r.K == 1 {
					c.Fail("changed:"+r.N, c.FnPos(fn), "%s writes to the package-level variable %s, which nothing else changes %s", shortFn(fn), r.N, describe(o))
				}
			}
		}
	}
	return outs
}

// initGlobals finds package-level variables that keep the contents their
// initialiser gives them: nothing but package initialisation assigns them or
// parts of them. References to them that escape are watched by Run.
func (c *Ctx) initGlobals() {
	c.globInit = map[*ssa.Global]*eng.Term{}
	c.globConst = map[*ssa.Global]bool{}
	c.globMem = map[*eng.Term]*eng.Term{}
	type initT struct {
		whole []ssa.Value // assigned
		parts []*ssa.Store
		bad   bool
	}
	inits := map[*ssa.Global]*initT{}
	get := func(g *ssa.Global) *initT {
		x := inits[g]
		if x == nil {
			x = &initT{}
			inits[g] = x
		}
		return x
	}
	// root of an address made of constant steps
	var base func(v ssa.Value) (*ssa.Global, bool)
	base = func(v ssa.Value) (*ssa.Global, bool) {
		switch v := v.(type) {
		case *ssa.Global:
			return v, true
		case *ssa.FieldAddr:
			return base(v.X)
		case *ssa.IndexAddr:
			g, ok := base(v.X)
			_, k := v.Index.(*ssa.Const)
			return g, ok && k
		}
		return nil, false
	}
	for fn := range ssautil.AllFunctions(c.Prog) {
		if fn.Pkg == nil || !c.repoPath(fn.Pkg.Pkg.Path()) {
			continue
		}
		isInit := fn.Name() == "init" && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						get(g)
					}
				}
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, exact := base(st.Addr)
				if g == nil {
					continue
				}
				x := get(g)
				switch {
				case !isInit || !exact:
					x.bad = true
				case st.Addr == ssa.Value(g):
					x.whole = append(x.whole, st.Val)
				default:
					x.parts = append(x.parts, st)
				}
			}
		}
	}
	for g, x := range inits {
		if x.bad || len(x.whole) > 1 || len(x.whole) > 0 && len(x.parts) > 0 || len(x.parts) > 64 {
			continue
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		if len(x.whole) == 1 {
			if v := c.initValue(g, x.whole[0]); v != nil {
				c.globInit[g] = v
			}
			continue
		}
		switch t.Underlying().(type) {
		case *types.Array, *types.Struct:
		default:
			continue
		}
		if strings.HasPrefix(types.TypeString(t, nil), "sync") {
			continue
		}
		ok := true
		root := eng.GlobalTerm(g, true)
		mem := map[*eng.Term]*eng.Term{}
		for _, st := range x.parts {
			k, isC := st.Val.(*ssa.Const)
			if !isC || k.Value == nil {
				ok = false
				break
			}
			mem[constAddr(root, g, st.Addr)] = eng.Const(k.Value)
		}
		if !ok {
			continue
		}
		c.globConst[g] = true
		for a, v := range mem {
			c.globMem[a] = v
		}
	}
}

func constAddr(root *eng.Term, g *ssa.Global, a ssa.Value) *eng.Term {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		f := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field)
		return eng.Field(constAddr(root, g, a.X), a.Field, f.Name(), f.Type())
	case *ssa.IndexAddr:
		n, _ := constant.Int64Val(a.Index.(*ssa.Const).Value)
		return eng.Index(constAddr(root, g, a.X), eng.Int(n))
	}
	return root
}

// initValue is the value of an initialiser; nil if unknown.
func (c *Ctx) initValue(g *ssa.Global, v ssa.Value) *eng.Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil {
			return eng.Const(v.Value)
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch eng.FuncName(f) {
			case "errors.New", "fmt.Errorf":
				return eng.NonNil(g.Name(), g.Type())
			}
		}
	case *ssa.MakeMap:
		return eng.NonNil(g.Name(), v.Type())
	case *ssa.MakeInterface:
		return eng.NonNil(g.Name(), g.Type())
	case *ssa.Function:
		return eng.FuncTerm(v)
	case *ssa.Slice:
		// a slice literal of constants
		al, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil || v.Max != nil {
			return nil
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 64 {
			return nil
		}
		root := eng.BackingTerm(g, at.Len())
		mem := map[*eng.Term]*eng.Term{}
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Slice:
				if r != v {
					return nil
				}
			case *ssa.IndexAddr:
				k, ok := r.Index.(*ssa.Const)
				if !ok || len(*r.Referrers()) != 1 {
					return nil
				}
				st, ok := (*r.Referrers())[0].(*ssa.Store)
				if !ok || st.Addr != ssa.Value(r) {
					return nil
				}
				e, ok := st.Val.(*ssa.Const)
				if !ok || e.Value == nil {
					return nil
				}
				n, _ := constant.Int64Val(k.Value)
				mem[eng.Index(root, eng.Int(n))] = eng.Const(e.Value)
			default:
				return nil
			}
		}
		for a, v := range mem {
			c.globMem[a] = v
		}
		n := eng.Int(at.Len())
		return eng.MkSlice(root, eng.Int(0), n, n)
	}
	return nil
}

// ---- known findings ----

type known struct{ prop, key, text string }

func (c *Ctx) known() []known {
	b, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> key=<key> <text>
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 2 {
			continue
		}
		k := known{prop: strings.TrimPrefix(f[0], "property="), key: strings.TrimPrefix(f[1], "key=")}
		if len(f) == 3 {
			k.text = f[2]
		}
		r = append(r, k)
	}
	return r
}

// Finish writes evidence and prints the verdict; it returns the exit code.
func (c *Ctx) Finish() int {
	sort.Slice(c.Findings, func(i, j int) bool { return c.Findings[i].Key < c.Findings[j].Key })
	var viol []Finding
	ks := c.known()
	for _, f := range c.Findings {
		isKnown := false
		for _, k := range ks {
			if k.prop == c.ID && k.key == f.Key {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, f.Key, k.text)
				isKnown = true
			}
		}
		if !isKnown {
			viol = append(viol, f)
		}
	}
	var fns []string
	for f := range c.Funcs {
		if c.InRepo(f) {
			fns = append(fns, strings.ReplaceAll(f.String(), c.Module, "."))
		}
	}
	sort.Strings(fns)
	fnSample := fns
	if len(fnSample) > 60 {
		fnSample = fnSample[:60]
	}
	cov := map[string]any{
		"explanation":        strings.Join(c.Rule, " "),
		"rule":               strings.Join(c.Rule, " "),
		"obligations":        c.Oblig,
		"discharged":         c.Discharge,
		"abstract_paths":     c.Paths,
		"functions_analysed": len(fns),
		"functions":          fnSample,
		"samples":            c.Samples,
	}
	if c.Level == "translation_validation" {
		cov["programs"] = c.Programs
		cov["disagreements_checked"] = c.Oblig
		delete(cov, "obligations")
		delete(cov, "discharged")
	}
	for k, v := range c.Extra {
		cov[k] = v
	}
	var fl []string
	for _, f := range c.Findings {
		fl = append(fl, f.Key+" at "+f.Pos+": "+f.Text)
	}
	if len(fl) > 0 {
		cov["findings"] = fl
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": c.Assume,
		"wall_s":      time.Since(c.Start).Seconds(),
		"violations":  len(viol),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0777)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0666)

	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d paths=%d functions=%d\n", c.ID, c.Oblig, c.Paths, len(fns))
		return 0
	}
	var rep strings.Builder
	fmt.Fprintf(&rep, "property %s: %d violation(s)\n\n", c.ID, len(viol))
	for _, f := range viol {
		fmt.Fprintf(&rep, "%s\n  at %s\n  %s\n\n", f.Key, f.Pos, strings.ReplaceAll(f.Text, "\n", "\n  "))
		fmt.Printf("%s: %s: %s\n", f.Pos, f.Key, f.Text)
	}
	fmt.Fprintf(&rep, "replay: cd %s && ./check.sh %s\n", c.Verif, c.ID)
	path := filepath.Join(dir, c.ID+".violation.txt")
	os.WriteFile(path, []byte(rep.String()), 0666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	return 1
}

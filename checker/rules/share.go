package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	Checks["C31"] = checkC31
}

// C31: package-level state. The analysis tracks, for every value, the
// package-level variables whose memory it may refer to (field-based,
// flow-insensitive over calls and the heap), and judges every instruction
// that may change such memory.

type globals map[*ssa.Global]bool

type share struct {
	c       *Ctx
	fns     []*ssa.Function // functions of the analysed packages
	live    map[*ssa.Function]bool
	from    map[any]globals
	content map[*ssa.Global]bool // holds references
	changed bool
	byName  map[string][]*ssa.Function // methods
	bySig   map[string][]*ssa.Function // functions used as values
	held    map[*ssa.Function]map[ssa.Instruction]locks
	entry   map[*ssa.Function]locks
	writes  map[*ssa.Global]locks // variables written under locks
	clear   map[*ssa.Global]bool  // written on no path
}

type locks map[*ssa.Global]bool

func checkC31(c *Ctx) {
	c.Level = "other"
	c.Rule = append(c.Rule, "Effect analysis over the SSA form of every function of the runtime, the shipped packages and the packages generated for the families of C21 and C23: for each value the package-level variables it may refer to are computed (through fields, elements, calls, results, closures and interfaces; field-based). No instruction that can run after package initialisation may write memory of a package-level variable (assignment, map update, copy, append in place, a read into it, a mutating method of the standard library), unless the variable synchronises itself (sync, sync/atomic, loggers, files) or a package-level lock is held there and at every read of the variable; and no decoder may hand out a reference to such memory.")
	c.Rule = append(c.Rule, "On every path of Client.Call, from a client in any state, the reply that results are decoded from is read into memory allocated by that call, and not given away: results are views of it.")
	c.ownReply()
	libFns, libWrites := c.libGlobals()
	c.Overlay = nil
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	fams := append(c.families(), genProgs()...)
	ps := g.produce(fams...)
	ps = g.load(ps, "./rfc1057", "./rfc1813")
	if ps == nil {
		return
	}
	dirs := map[string]bool{}
	for _, p := range ps {
		dirs[c.Module+"/"+p.dir] = true
	}
	for _, n := range []string{"xdr", "rfc1057", "rfc1813"} {
		dirs[c.Module+"/"+n] = true
	}
	c.sharing(func(pkg string) bool { return dirs[pkg] }, libFns, libWrites)
	g.evidence(len(fams), 0)
}

// ownReply: no later call changes what the results of a call refer to.
func (c *Ctx) ownReply() {
	w := c.rpcWorld()
	if w == nil {
		return
	}
	base := w.clientBase()
	if base == nil {
		return
	}
	b := *base
	b.st = base.st.Clone()
	for _, x := range w.calls(base, "new") {
		for _, a := range x.st.Writes() {
			if eng.Covers(x.cl, a) && a != x.cl {
				b.st.Havoc(a)
			}
		}
	}
	n := 0
	for _, x := range w.calls(&b, "any") {
		decoded := false
		for _, e := range x.rpc("decode") {
			if e.Type != "Rpc_msg" && !e.Failed {
				decoded = true
			}
		}
		if !decoded {
			continue
		}
		n++
		st := x.st
		regs := map[*eng.Term]bool{}
		for _, e := range x.rpc("decode") {
			reg, _, ln, _ := eng.SliceParts(e.In)
			if reg.IsNil() || is(st, eng.Eq(ln, eng.Int(0))) {
				continue
			}
			regs[reg] = true
		}
		for reg := range regs {
			org := eng.Root(reg)
			own := org.Op == "alloc" && org.K > x.start
			put := false
			for _, e := range x.evs {
				if e.Kind != "call" {
					continue
				}
				switch e.Name {
				case "(*sync.Pool).Get":
					if e.Res != nil && org.Op == "rgn" && (e.Res.Contains(org.Args[0]) || org.Args[0].Contains(e.Res) || e.Res.Op == "iface" && org.Args[0].Contains(e.Res.Args[0])) {
						own = true
					}
				case "(*sync.Pool).Put":
					if w.regionsOf(st, e.Args[1])[reg] {
						put = true
					}
				}
			}
			c.Check(own, "reply-shared", x.pos(), "Call decodes results from %v, memory that other calls use too: a later call changes the results of an earlier one %s", reg, describe(st))
			c.Check(!put, "reply-released", x.pos(), "Call decodes results from %v and gives that memory away: a later call changes the results of an earlier one %s", reg, describe(st))
		}
	}
	c.Check(n > 0, "nocalls", "rfc1057", "Call never decodes a result")
}

// libGlobals runs the primitives on every path: the functions it covers, and
// the package-level variables whose memory they write.
func (c *Ctx) libGlobals() (fns, written map[string]bool) {
	fns, written = map[string]bool{}, map[string]bool{}
	if c.Prog == nil {
		return
	}
	old := c.Funcs
	c.Funcs = map[*ssa.Function]bool{}
	n := len(c.Findings)
	c.libRun(false, func(k *caseT, st *eng.State, _ *eng.Term) {
		for _, w := range st.Writes() {
			globalsIn(w, written)
		}
		for _, e := range st.Events {
			switch e.Kind {
			case "append", "copy", "store", "mapupdate", "mapdelete":
				if len(e.Args) > 0 {
					globalsIn(e.Args[0], written)
				}
				if e.Recv != nil {
					globalsIn(e.Recv, written)
				}
			}
		}
	})
	if len(c.Findings) > n { // not understood: no help from here
		c.Findings = c.Findings[:n]
		c.Funcs = old
		return map[string]bool{}, written
	}
	for f := range c.Funcs {
		fns[f.String()] = true
		old[f] = true
	}
	c.Funcs = old
	return
}

func globalsIn(t *eng.Term, r map[string]bool) {
	if t.Op == "global" {
		r[t.N] = true
	}
	for _, a := range t.Args {
		globalsIn(a, r)
	}
}

// sharing runs the analysis on packages.
func (c *Ctx) sharing(in func(pkg string) bool, libFns, libWrites map[string]bool) {
	s := &share{c: c, live: map[*ssa.Function]bool{}, from: map[any]globals{}, content: map[*ssa.Global]bool{},
		byName: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}, held: map[*ssa.Function]map[ssa.Instruction]locks{}, entry: map[*ssa.Function]locks{}, writes: map[*ssa.Global]locks{}}
	s.collect(in)
	for _, f := range s.fns {
		c.Funcs[f] = true
	}
	for {
		s.changed = false
		for _, f := range s.fns {
			s.flow(f)
		}
		if !s.changed {
			break
		}
	}
	s.lockFlow()
	// variables that only the primitives mention: every path of theirs has been
	// looked at
	s.clear = map[*ssa.Global]bool{}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					if _, seen := s.clear[g]; !seen {
						s.clear[g] = !libWrites[g.String()]
					}
					if !libFns[f.String()] && f.Name() != "init" {
						s.clear[g] = false
					}
				}
			}
		}
	}
	// writes first: they say which locks guard a variable
	for _, f := range s.fns {
		if s.live[f] {
			s.judge(f)
		}
	}
	for _, f := range s.fns {
		if s.live[f] {
			s.reads(f)
		}
	}
}

func funcPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// collect finds the functions, and which of them can run after initialisation.
func (s *share) collect(in func(pkg string) bool) {
	all := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || all[f] || f.Blocks == nil || !in(funcPkg(f)) {
			return
		}
		all[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						add(g)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var roots []*ssa.Function
	root := func(f *ssa.Function) {
		if f != nil {
			add(f)
			roots = append(roots, f)
		}
	}
	var inits []*ssa.Function
	for _, p := range s.c.Prog.AllPackages() {
		if !in(p.Pkg.Path()) {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if n == "init" || strings.HasPrefix(n, "init#") {
					add(m)
					inits = append(inits, m)
				} else if m.Object() != nil && m.Object().Exported() {
					root(m)
				} else {
					add(m)
				}
			case *ssa.Type:
				if nt, ok := m.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 && !types.IsInterface(nt) {
					for _, t := range []types.Type{nt, types.NewPointer(nt)} {
						ms := s.c.Prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							root(s.c.Prog.MethodValue(ms.At(i)))
						}
					}
				}
			}
		}
	}
	var mark func(f *ssa.Function)
	once := func(i ssa.Instruction) bool {
		k, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := k.Common().StaticCallee()
		if g == nil {
			return false
		}
		n := g.String()
		if o := g.Origin(); o != nil {
			n = o.String()
		}
		return n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.Once")
	}
	refs := func(f *ssa.Function, do func(g *ssa.Function, called bool)) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if once(i) {
					continue
				}
				var callee ssa.Value
				if k, ok := i.(ssa.CallInstruction); ok {
					callee = k.Common().Value
				}
				mc, isClosure := i.(*ssa.MakeClosure)
				if isClosure {
					// is it used by once only?
					only := len(*mc.Referrers()) > 0
					for _, r := range *mc.Referrers() {
						if !once(r) {
							only = false
						}
					}
					if only {
						continue
					}
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						do(g, *o == callee)
					}
				}
			}
		}
	}
	mark = func(f *ssa.Function) {
		if s.live[f] || !all[f] {
			return
		}
		s.live[f] = true
		refs(f, func(g *ssa.Function, _ bool) { mark(g) })
	}
	for _, r := range roots {
		mark(r)
	}
	seen := map[*ssa.Function]bool{}
	var initial func(f *ssa.Function)
	initial = func(f *ssa.Function) {
		if seen[f] || !all[f] {
			return
		}
		seen[f] = true
		refs(f, func(g *ssa.Function, called bool) {
			if called {
				initial(g)
			} else {
				mark(g)
			}
		})
	}
	for _, f := range inits {
		initial(f)
	}
	for f := range all {
		s.fns = append(s.fns, f)
		if r := f.Signature.Recv(); r != nil {
			s.byName[f.Name()] = append(s.byName[f.Name()], f)
		}
		k := sigKey(f.Signature)
		s.bySig[k] = append(s.bySig[k], f)
	}
	sort.Slice(s.fns, func(i, j int) bool { return s.fns[i].String() < s.fns[j].String() })
}

func sigKey(g *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, g.Params(), g.Results(), g.Variadic()), nil)
}

// safeType: values of the type synchronise themselves or cannot be changed.
func safeType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if _, named := t.(*types.Named); !named {
			t = p.Elem()
		}
	}
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "log", "log/slog", "regexp", "text/template", "html/template", "reflect", "context", "expvar", "internal/sync":
		return true
	case "os":
		return n.Obj().Name() == "File"
	case "strings":
		return n.Obj().Name() == "Replacer"
	case "time":
		return n.Obj().Name() == "Location" || n.Obj().Name() == "Time"
	case "encoding/binary":
		return true
	}
	return false
}

// refs reports whether a value of the type may refer to memory that can change.
func refsIn(t types.Type) bool { return refsIn1(t, map[types.Type]bool{}) }

func refsIn1(t types.Type, seen map[types.Type]bool) bool {
	if safeType(t) || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if x, ok := u.Elem().Underlying().(*types.Struct); ok && x.NumFields() == 0 {
			return false
		}
		return true
	case *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refsIn1(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return u.Len() > 0 && refsIn1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refsIn1(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// nothing: a value that refers to no changeable memory, whatever its type.
func nothing(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice:
		k, ok := v.Cap.(*ssa.Const)
		return ok && k.Value != nil && constant.Sign(k.Value) == 0
	case *ssa.Slice:
		if p, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return true
			}
		}
		if k, ok := v.Max.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
			return true
		}
	case *ssa.MakeInterface:
		return nothing(v.X) || !refsIn(v.X.Type())
	case *ssa.ChangeType:
		return nothing(v.X)
	}
	return false
}

type fieldOf struct {
	t string
	i int
}
type cellOf struct{ t string }
type resultOf struct {
	f *ssa.Function
	i int
}

func (s *share) add(k any, gs globals) {
	if len(gs) == 0 {
		return
	}
	m := s.from[k]
	if m == nil {
		m = globals{}
		s.from[k] = m
	}
	for g := range gs {
		if !m[g] {
			m[g] = true
			s.changed = true
		}
	}
}

func (s *share) val(v ssa.Value) globals {
	if g, ok := v.(*ssa.Global); ok {
		if !s.c.repoPath(g.Pkg.Pkg.Path()) {
			return nil
		}
		if safeType(g.Type().(*types.Pointer).Elem()) {
			return nil
		}
		return globals{g: true}
	}
	return s.from[v]
}

// set gives a value the origins, if its type can refer to memory.
func (s *share) set(v ssa.Value, gs globals) {
	if refsIn(v.Type()) {
		s.add(v, gs)
	}
}

func fieldKey(a ssa.Value) any {
	switch a := a.(type) {
	case *ssa.FieldAddr:
		return fieldOf{types.TypeString(a.X.Type().Underlying().(*types.Pointer).Elem(), nil), a.Field}
	case *ssa.Alloc:
		return a
	}
	return nil
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return types.Typ[types.Invalid]
}

func cell(t types.Type) any { return cellOf{types.TypeString(t, nil)} }

// stored: the value v is stored at address a (or, a nil, in a cell of type t).
func (s *share) stored(a ssa.Value, t types.Type, v ssa.Value) {
	if !refsIn(v.Type()) || nothing(v) {
		return
	}
	if a != nil {
		for g := range s.val(a) {
			if !s.content[g] {
				s.content[g] = true
				s.changed = true
			}
		}
	}
	gs := s.val(v)
	if len(gs) == 0 {
		return
	}
	if a != nil {
		if k := fieldKey(a); k != nil {
			s.add(k, gs)
			return
		}
		t = elemOf(a.Type())
	}
	s.add(cell(t), gs)
}

// loaded are the origins of what is read at address a.
func (s *share) loaded(a ssa.Value) globals {
	r := globals{}
	for g := range s.val(a) {
		if s.content[g] {
			r[g] = true
		}
	}
	if k := fieldKey(a); k != nil {
		for g := range s.from[k] {
			r[g] = true
		}
	}
	t := elemOf(a.Type())
	for g := range s.from[cell(t)] {
		r[g] = true
	}
	// a whole struct: what its fields hold
	s.inside(t, r, 0)
	return r
}

func (s *share) inside(t types.Type, r globals, depth int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return
	}
	n := types.TypeString(t, nil)
	for i := 0; i < st.NumFields(); i++ {
		for g := range s.from[fieldOf{n, i}] {
			r[g] = true
		}
		s.inside(st.Field(i).Type(), r, depth+1)
	}
}

func (s *share) contentOf(gs globals) globals {
	r := globals{}
	for g := range gs {
		if s.content[g] {
			r[g] = true
		}
	}
	return r
}

// callees are the analysed functions a call may run.
func (s *share) callees(k *ssa.CallCommon) []*ssa.Function {
	if f := k.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if k.IsInvoke() {
		var r []*ssa.Function
		for _, f := range s.byName[k.Method.Name()] {
			rt := f.Signature.Recv().Type()
			if it, ok := k.Value.Type().Underlying().(*types.Interface); ok && types.Implements(rt, it) {
				r = append(r, f)
			}
		}
		return r
	}
	if g, ok := k.Value.Type().Underlying().(*types.Signature); ok {
		return s.bySig[sigKey(g)]
	}
	return nil
}

func (s *share) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.FieldAddr:
				s.set(i, s.val(i.X))
			case *ssa.IndexAddr:
				s.set(i, s.val(i.X))
			case *ssa.Field:
				s.set(i, s.val(i.X))
			case *ssa.Index:
				s.set(i, s.val(i.X))
			case *ssa.Slice:
				if !nothing(i) {
					s.set(i, s.val(i.X))
				}
			case *ssa.ChangeType:
				s.set(i, s.val(i.X))
			case *ssa.ChangeInterface:
				s.set(i, s.val(i.X))
			case *ssa.MakeInterface:
				s.set(i, s.val(i.X))
			case *ssa.TypeAssert:
				s.set(i, s.val(i.X))
			case *ssa.SliceToArrayPointer:
				s.set(i, s.val(i.X))
			case *ssa.Convert:
				if _, str := i.X.Type().Underlying().(*types.Basic); !str {
					if _, str := i.Type().Underlying().(*types.Basic); !str {
						s.set(i, s.val(i.X))
					}
				}
			case *ssa.Phi:
				for _, e := range i.Edges {
					s.set(i, s.val(e))
				}
			case *ssa.Extract:
				switch t := i.Tuple.(type) {
				case *ssa.Call:
					for _, g := range s.callees(t.Common()) {
						s.set(i, s.from[resultOf{g, i.Index}])
					}
				case *ssa.Next:
					if r, ok := t.Iter.(*ssa.Range); ok && i.Index > 0 {
						s.set(i, s.contentOf(s.val(r.X)))
						s.set(i, s.from[cell(i.Type())])
					}
				default:
					s.set(i, s.val(i.Tuple))
				}
			case *ssa.UnOp:
				switch i.Op {
				case token.MUL:
					s.set(i, s.loaded(i.X))
				case token.ARROW:
					s.set(i, s.from[cell(elemOf(i.X.Type()))])
				}
			case *ssa.Lookup:
				gs := s.contentOf(s.val(i.X))
				if m, ok := i.X.Type().Underlying().(*types.Map); ok {
					for g := range s.from[cell(m.Elem())] {
						gs[g] = true
					}
				}
				if i.CommaOk || refsIn(i.Type()) {
					s.add(ssa.Value(i), gs)
				}
			case *ssa.Store:
				s.stored(i.Addr, nil, i.Val)
			case *ssa.MapUpdate:
				if refsIn(i.Value.Type()) && !nothing(i.Value) {
					for g := range s.val(i.Map) {
						if !s.content[g] {
							s.content[g], s.changed = true, true
						}
					}
				}
				s.stored(nil, i.Value.Type(), i.Value)
			case *ssa.Send:
				s.stored(nil, i.X.Type(), i.X)
			case *ssa.MakeClosure:
				g := i.Fn.(*ssa.Function)
				for n, x := range i.Bindings {
					s.set(g.FreeVars[n], s.val(x))
				}
			case *ssa.Return:
				for n, x := range i.Results {
					if refsIn(x.Type()) && !nothing(x) {
						s.add(resultOf{f, n}, s.val(x))
					}
				}
			}
			if k, ok := i.(ssa.CallInstruction); ok {
				s.flowCall(k)
			}
		}
	}
}

func (s *share) flowCall(i ssa.CallInstruction) {
	k := i.Common()
	v := i.Value()
	if b, ok := k.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if v != nil {
				if !full(k.Args[0]) {
					s.set(v, s.val(k.Args[0]))
				}
				if len(k.Args) > 1 && refsIn(elemOf(k.Args[0].Type())) {
					s.set(v, s.contentOf(s.val(k.Args[1])))
				}
			}
		}
		return
	}
	args := k.Args
	if k.IsInvoke() {
		args = append([]ssa.Value{k.Value}, args...)
	}
	for _, g := range s.callees(k) {
		for n, a := range args {
			if n < len(g.Params) && !nothing(a) {
				s.set(g.Params[n], s.val(a))
			}
		}
		if v != nil && g.Signature.Results().Len() == 1 {
			s.set(v, s.from[resultOf{g, 0}])
		}
	}
	// results of the standard library that refer to an argument
	if g := k.StaticCallee(); g != nil && v != nil && !s.c.InRepo(g) && passes(g) {
		for _, a := range args {
			s.set(v, s.val(a))
		}
	}
}

// passes: the results refer to memory of the arguments.
func passes(g *ssa.Function) bool {
	p := ""
	if g.Pkg != nil {
		p = g.Pkg.Pkg.Path()
	} else if o := g.Origin(); o != nil && o.Pkg != nil {
		p = o.Pkg.Pkg.Path()
	}
	switch p {
	case "bytes":
		return g.Name() != "Clone" && g.Name() != "Join" && g.Name() != "Repeat"
	case "slices":
		return g.Name() != "Clone" && g.Name() != "Concat" && g.Name() != "Repeat"
	case "encoding/binary":
		return strings.HasPrefix(g.Name(), "Append")
	case "strconv":
		return strings.HasPrefix(g.Name(), "Append")
	case "bufio":
		return strings.HasPrefix(g.Name(), "New")
	}
	return false
}

// full: a slice that append cannot extend in place.
func full(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		return v.Max != nil && v.Max == v.High
	case *ssa.ChangeType:
		return full(v.X)
	case *ssa.Call:
		if g := v.Common().StaticCallee(); g != nil {
			if o := g.Origin(); o != nil && o.String() == "slices.Clip" {
				return true
			}
		}
	}
	return nothing(v)
}

// effect is what an instruction does with memory of package-level variables.
type effect struct {
	write, read []ssa.Value // references through which it may write, read
	how         string
}

func (s *share) effects(i ssa.Instruction) (e effect) {
	switch i := i.(type) {
	case *ssa.Store:
		e.write, e.how = []ssa.Value{i.Addr}, "assigns"
		return
	case *ssa.MapUpdate:
		e.write, e.how = []ssa.Value{i.Map}, "updates"
		return
	case *ssa.UnOp:
		if i.Op == token.MUL {
			e.read = []ssa.Value{i.X}
		}
		return
	case *ssa.Lookup:
		e.read = []ssa.Value{i.X}
		return
	case *ssa.Range:
		e.read = []ssa.Value{i.X}
		return
	}
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return
	}
	k := ci.Common()
	if b, ok := k.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if !full(k.Args[0]) {
				e.write, e.how = k.Args[:1], "appends in place to"
			}
			if len(k.Args) > 1 {
				e.read = k.Args[1:]
			}
		case "copy":
			e.write, e.read, e.how = k.Args[:1], k.Args[1:], "copies into"
		case "delete", "clear":
			e.write, e.how = k.Args[:1], "removes from"
		case "len", "cap":
			if _, ok := k.Args[0].Type().Underlying().(*types.Map); ok {
				e.read = k.Args[:1]
			}
		}
		return
	}
	if k.IsInvoke() {
		switch k.Method.Name() {
		case "Read", "ReadAt", "ReadByte":
			e.write, e.how = append([]ssa.Value{}, k.Args...), "reads into"
			if k.Method.Name() == "Read" && len(k.Args) > 0 {
				e.write = k.Args[:1]
			}
		}
		if len(s.callees(k)) == 0 && !pure(k.Method.Name()) {
			if !safeType(k.Value.Type()) {
				e.write = append(e.write, k.Value)
				e.how = "calls " + k.Method.Name() + " on"
			}
		}
		return
	}
	g := k.StaticCallee()
	if g == nil || s.c.InRepo(g) {
		return
	}
	n := g.String()
	if o := g.Origin(); o != nil {
		n = o.String()
	}
	if r := g.Signature.Recv(); r != nil {
		if _, ptr := r.Type().Underlying().(*types.Pointer); ptr && !safeType(r.Type()) && !pure(g.Name()) {
			e.write, e.how = k.Args[:1], "calls "+g.Name()+" on"
		}
		if strings.Contains(n, "binary.bigEndian).Put") || strings.Contains(n, "binary.littleEndian).Put") || strings.Contains(n, "binary.nativeEndian).Put") || strings.Contains(n, "Endian).Append") {
			e.write, e.how = k.Args[1:2], "writes to"
		}
		switch g.Name() {
		case "Read", "ReadAt", "ReadFull":
			e.write, e.how = append(e.write, k.Args[1]), "reads into"
		}
		return
	}
	w := -1
	switch n {
	case "io.ReadFull", "io.ReadAtLeast", "encoding/binary.Decode":
		w = 1
		if n == "encoding/binary.Decode" {
			w = 2
		}
	case "encoding/binary.Read":
		w = 2
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint", "encoding/binary.Encode", "encoding/hex.Encode", "encoding/hex.Decode":
		w = 0
	case "math/rand.Read", "crypto/rand.Read":
		w = 0
	case "io.CopyBuffer":
		w = 2
	}
	switch {
	case strings.HasPrefix(n, "sort."):
		w = 0
	case strings.HasPrefix(n, "slices.Sort"), n == "slices.Reverse", n == "slices.Delete", n == "slices.Insert", n == "slices.Replace", strings.HasPrefix(n, "slices.Compact"), n == "slices.DeleteFunc":
		w = 0
	case strings.HasPrefix(n, "maps.Copy"), strings.HasPrefix(n, "maps.DeleteFunc"), strings.HasPrefix(n, "maps.Insert"):
		w = 0
	case strings.HasPrefix(n, "encoding/binary.Append"), strings.HasPrefix(n, "strconv.Append"), strings.HasPrefix(n, "fmt.Append"):
		w = 0
		if len(k.Args) > 0 && full(k.Args[0]) {
			w = -1
		}
	}
	for j, a := range k.Args {
		if j == w {
			e.write = append(e.write, a)
			e.how = "passes to " + g.Name()
		} else {
			e.read = append(e.read, a)
		}
	}
	return
}

// pure: methods that only read their receiver.
func pure(n string) bool {
	switch n {
	case "Error", "String", "GoString", "Len", "Cap", "Bytes", "Cmp", "Unwrap", "Is", "As", "Size", "Name", "Equal", "Uint64", "Int64", "Sign", "BitLen", "Format", "Available", "Addr", "LocalAddr", "RemoteAddr", "Xdr":
		return true
	}
	return false
}

// lockOf is the package-level lock a call acquires or releases.
func lockOf(i ssa.Instruction) (g *ssa.Global, acquire bool) {
	k, ok := i.(*ssa.Call)
	if !ok {
		return nil, false
	}
	f := k.Common().StaticCallee()
	if f == nil {
		return nil, false
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		acquire = true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
	default:
		return nil, false
	}
	v := k.Common().Args[0]
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if y, ok := x.X.(*ssa.Global); ok {
					return y, acquire
				}
			}
			return nil, false
		case *ssa.Global:
			return x, acquire
		}
		return nil, false
	}
}

func meet(a, b locks) locks {
	r := locks{}
	for g := range a {
		if b[g] {
			r[g] = true
		}
	}
	return r
}

// lockFlow computes the package-level locks surely held at each instruction.
func (s *share) lockFlow() {
	// functions whose callers are all known
	known := map[*ssa.Function]bool{}
	for _, f := range s.fns {
		if f.Object() != nil && !f.Object().Exported() && f.Parent() == nil {
			known[f] = true
		}
	}
	for _, f := range s.fns {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				callee := ssa.Value(nil)
				if k, ok := i.(*ssa.Call); ok {
					callee = k.Common().Value
				}
				n := 0
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok {
						if *o != callee || n > 0 {
							known[g] = false
						}
						n++
					}
				}
			}
		}
	}
	top := map[*ssa.Function]bool{} // entry not computed yet
	for f := range known {
		if known[f] {
			top[f] = true
		}
	}
	for round := 0; round < 50; round++ {
		again := false
		next := map[*ssa.Function]locks{}
		for _, f := range s.fns {
			if top[f] {
				continue
			}
			h := s.locksIn(f, s.entry[f])
			s.held[f] = h
			if !s.live[f] {
				continue
			}
			for i, l := range h {
				k, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				if g := k.Common().StaticCallee(); g != nil && known[g] {
					if old, ok := next[g]; ok {
						next[g] = meet(old, l)
					} else {
						next[g] = l
					}
				}
			}
		}
		for g, l := range next {
			if top[g] || len(meet(s.entry[g], l)) != len(l) || len(l) != len(s.entry[g]) {
				again = again || top[g] || len(l) != len(s.entry[g])
				delete(top, g)
				s.entry[g] = l
			}
		}
		if !again {
			break
		}
	}
	for _, f := range s.fns {
		if s.held[f] == nil {
			s.held[f] = s.locksIn(f, nil)
		}
	}
}

func (s *share) locksIn(f *ssa.Function, entry locks) map[ssa.Instruction]locks {
	in := map[*ssa.BasicBlock]locks{}
	r := map[ssa.Instruction]locks{}
	if entry == nil {
		entry = locks{}
	}
	in[f.Blocks[0]] = entry
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := meet(in[b], in[b])
		for _, i := range b.Instrs {
			r[i] = meet(cur, cur)
			if g, acq := lockOf(i); g != nil {
				if acq {
					cur[g] = true
				} else {
					delete(cur, g)
				}
			}
		}
		for _, n := range b.Succs {
			old, ok := in[n]
			l := cur
			if ok {
				l = meet(old, cur)
				if len(l) == len(old) {
					continue
				}
			}
			in[n] = meet(l, l)
			work = append(work, n)
		}
	}
	return r
}

func names(gs globals) string {
	var r []string
	for g := range gs {
		r = append(r, g.Name())
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

func (s *share) judge(f *ssa.Function) {
	c := s.c
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			e := s.effects(i)
			for _, w := range e.write {
				if nothing(w) {
					continue
				}
				c.Oblig++
				gs := globals{}
				for g := range s.val(w) {
					if !s.clear[g] {
						gs[g] = true
					}
				}
				if len(gs) == 0 {
					c.Discharge++
					continue
				}
				l := s.held[f][i]
				if len(l) > 0 {
					for g := range gs {
						if old, ok := s.writes[g]; ok {
							s.writes[g] = meet(old, l)
						} else {
							s.writes[g] = l
						}
					}
					c.Discharge++
					continue
				}
				c.Fail(fmt.Sprintf("shared-write:%s:%s", shortFn(f), names(gs)), c.Pos(i.Pos()), "%s %s memory of the package-level variable %s: operations on unrelated states, clients and servers share it without synchronisation", shortFn(f), e.how, names(gs))
			}
			if st, ok := i.(*ssa.Store); ok {
				s.expose(f, st)
			}
		}
	}
}

func shortFn(f *ssa.Function) string {
	n := f.RelString(nil)
	if k := strings.LastIndex(n, "/"); k >= 0 {
		pre := ""
		if strings.HasPrefix(n, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(n, "(") {
			pre = "("
		}
		n = pre + n[k+1:]
	}
	return n
}

// expose: a decoder stores a reference to package-level memory in its destination.
func (s *share) expose(f *ssa.Function, st *ssa.Store) {
	gs := s.val(st.Val)
	if len(gs) == 0 || nothing(st.Val) {
		return
	}
	coder := false
	for _, p := range f.Params {
		if isState(p.Type()) {
			coder = true
		}
	}
	if !coder {
		return
	}
	v := st.Addr
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
			continue
		case *ssa.IndexAddr:
			v = x.X
			continue
		case *ssa.UnOp:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Slice:
			v = x.X
			continue
		}
		break
	}
	p, ok := v.(*ssa.Parameter)
	if !ok || isState(p.Type()) {
		return
	}
	s.c.Check(false, fmt.Sprintf("shared-value:%s:%s", shortFn(f), names(gs)), s.c.Pos(st.Pos()), "%s makes a value of its caller refer to memory of the package-level variable %s: values that ought to be independent share it", shortFn(f), names(gs))
}

func isState(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "XdrState"
}

// reads: variables written under a lock are read under it, too.
func (s *share) reads(f *ssa.Function) {
	if len(s.writes) == 0 {
		return
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			e := s.effects(i)
			for _, r := range append(e.read, e.write...) {
				for g := range s.val(r) {
					need, ok := s.writes[g]
					if !ok {
						continue
					}
					s.c.Check(len(meet(need, s.held[f][i])) > 0, fmt.Sprintf("unlocked:%s:%s", shortFn(f), g.Name()), s.c.Pos(i.Pos()), "%s uses the package-level variable %s without the lock under which it is written", shortFn(f), g.Name())
				}
			}
		}
	}
}

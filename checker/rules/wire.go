package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// Every path of a codec is matched, event by event and value by value,
// against the reference type: the analysis computes which primitive codings
// happen in which order on which values, the reference says which must.

// wireEv is one coding step on a path.
type wireEv struct {
	Kind string // bool s32 u32 s64 u64 array var string named
	Name string // Go type name for named
	Val  *eng.Term
	T    types.Type
	Max  *eng.Term
	N    *eng.Term   // array length
	Buf  []*eng.Term // array content
	Rest *eng.Term   // remaining input length after the step
	Pos  string
}

var primKinds = map[string]string{
	"XdrBool": "bool", "XdrS32": "s32", "XdrU32": "u32", "XdrS64": "s64", "XdrU64": "u64",
	"XdrVarArray": "var", "XdrArray": "array", "XdrString": "string",
}

func primType(k string) types.Type {
	switch k {
	case "bool":
		return types.Typ[types.Bool]
	case "s32":
		return types.Typ[types.Int32]
	case "u32":
		return types.Typ[types.Uint32]
	case "s64":
		return types.Typ[types.Int64]
	case "u64":
		return types.Typ[types.Uint64]
	case "var":
		return bytesT
	case "string":
		return strTy
	}
	return nil
}

// wireProblem is a mismatch between code and reference.
type wireProblem struct {
	Cat  string // shape, value, dest, bound, refused, cover, undecided
	Type string
	Mode mode
	Pos  string
	Text string
}

// codecPkg is a package of codecs with its reference.
type codecPkg struct {
	c     *Ctx
	pkg   *types.Package
	path  string
	spec  *RSpec
	goRef map[string]string // Go type name -> reference name
	probs []wireProblem
	seen  map[string]bool
	steps int
	runs  int
}

func (c *Ctx) newCodecPkg(path string, spec *RSpec) *codecPkg {
	p := c.Pkgs[path]
	if p == nil {
		c.Fail("anchor:package", path, "package %s was not found", path)
		return nil
	}
	k := &codecPkg{c: c, pkg: p.Pkg, path: path, spec: spec, goRef: map[string]string{}, seen: map[string]bool{}}
	for _, n := range spec.Order {
		k.goRef[GoName(n)] = n
	}
	return k
}

func (k *codecPkg) add(p wireProblem) {
	key := p.Cat + "|" + p.Type + "|" + p.Text
	if k.seen[key] {
		return
	}
	k.seen[key] = true
	k.probs = append(k.probs, p)
}

// namedOf returns the reference type coded by a call of (*T).Xdr.
func (k *codecPkg) namedOf(call *eng.Call) (string, types.Type) {
	if call.Fn == nil || call.Fn.Name() != "Xdr" || len(call.Args) != 2 {
		return "", nil
	}
	rv := call.Fn.Signature.Recv()
	if rv == nil {
		return "", nil
	}
	pt, ok := rv.Type().(*types.Pointer)
	if !ok {
		return "", nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() != k.pkg {
		return "", nil
	}
	if _, ok := k.goRef[n.Obj().Name()]; !ok {
		return "", nil
	}
	return n.Obj().Name(), n
}

// advance models the coding state after a successful step.
func (k *codecPkg) advance(st *eng.State, xs *eng.Term, m mode, min int64) *eng.Term {
	t := k.c.Type("xdr", "XdrState")
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var rest *eng.Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type().Underlying(), bytesT) {
			a := eng.Field(xs, i, f.Name(), f.Type())
			old := st.Load(a, f.Type())
			n := eng.Sym("rest", f.Type())
			st.Store(a, n, f.Type())
			if m == decode {
				st.AddGE(eng.Sub(eng.Len(old), eng.Int(min)), eng.Len(n))
				rest = eng.Len(n)
			} else {
				st.AddGE(eng.Len(n), eng.Len(old))
			}
		}
	}
	return rest
}

func (k *codecPkg) isFailed(st *eng.State, xs *eng.Term) (bool, bool) {
	e := k.c.errorOf(st, xs)
	v, known := st.Decide(eng.Eq(e, eng.Nil))
	return !v, known
}

// step performs one successful coding step and returns what it did.
func (k *codecPkg) step(st *eng.State, call *eng.Call, m mode, kind, named string, nt types.Type, xs *eng.Term) *wireEv {
	ev := &wireEv{Kind: kind, Name: named, T: primType(kind), Pos: k.c.Pos(call.Pos)}
	min := int64(4)
	switch kind {
	case "named":
		ev.T = nt
		loc := call.Args[0]
		if m == encode {
			ev.Val = st.Load(loc, nt)
		} else {
			ev.Val = eng.SymOf("dec."+named, nt)
			st.Store(loc, ev.Val, nt)
			st.Assume(eng.Eq(loc, eng.Nil), false)
		}
		min = k.spec.MinWire(&RType{Kind: "name", Name: k.goRef[named]})
	case "array":
		sl := call.Args[1]
		r, o, n, _ := eng.SliceParts(sl)
		ev.N = n
		if m == decode && !r.IsNil() {
			if c, ok := n.Int64(); ok && c <= 64 {
				for i := int64(0); i < c; i++ {
					st.Store(eng.Index(r, st.Norm(eng.Add(o, eng.Int(i)))), eng.Sym("byte", byteTy), byteTy)
				}
			} else {
				src := eng.Region(eng.Sym("bytes", bytesT))
				ps, _ := st.Content(src, eng.Int(0), n)
				st.WritePieces(r, o, ps)
			}
		}
		ev.Buf, _ = st.SliceContent(sl)
		min = 0
	default:
		loc := call.Args[len(call.Args)-1]
		if kind == "var" || kind == "string" {
			ev.Max = call.Args[1]
		}
		if m == encode {
			ev.Val = st.Load(loc, ev.T)
		} else {
			ev.Val = eng.Sym("dec."+kind, ev.T)
			st.Store(loc, ev.Val, ev.T)
		}
		if kind == "s64" || kind == "u64" {
			min = 8
		}
	}
	ev.Rest = k.advance(st, xs, m, min)
	return ev
}

// hook makes primitives and nested codecs coding steps. In wire mode only
// successful steps are explored and a reported error ends the path.
func (k *codecPkg) hook(m mode, root *ssa.Function) eng.Hook {
	xdrPath := k.c.pkgPath("xdr") + "."
	setErr := "(*" + k.c.pkgPath("xdr") + ".XdrState).SetError"
	return func(st *eng.State, call *eng.Call) ([]eng.Outcome, bool) {
		if call.Name == setErr {
			return []eng.Outcome{func(st *eng.State) (*eng.Term, bool) {
				st.Exit = "failed"
				return nil, true
			}}, true
		}
		kind, named := "", ""
		var nt types.Type
		if strings.HasPrefix(call.Name, xdrPath) {
			kind = primKinds[strings.TrimPrefix(call.Name, xdrPath)]
		}
		if kind == "" {
			if named, nt = k.namedOf(call); named != "" {
				kind = "named"
			}
		}
		if kind == "" {
			return nil, false
		}
		return []eng.Outcome{func(st *eng.State) (*eng.Term, bool) {
			xs := call.Args[0]
			if kind == "named" {
				xs = call.Args[1]
			}
			if want, _ := st.Tag["xs"].(*eng.Term); want != xs {
				st.Tag["otherxs"] = true
			}
			ev := k.step(st, call, m, kind, named, nt, xs)
			st.Emit(eng.Event{Kind: "code", Name: kind, Pos: call.Pos, In: call.In, Data: ev})
			return nil, true
		}}, true
	}
}

// run analyses (*T).Xdr in one direction.
func (k *codecPkg) run(goName string, m mode) (init *eng.State, outs []*eng.State, xs, v *eng.Term, t types.Type, fn *ssa.Function) {
	c := k.c
	o := k.pkg.Scope().Lookup(goName)
	if o == nil {
		return
	}
	t = o.Type()
	fn = c.methodOf(types.NewPointer(t), "Xdr")
	if fn == nil {
		return
	}
	st := eng.NewState()
	v = eng.NamedSym("v", types.NewPointer(t))
	st.Assume(eng.Eq(v, eng.Nil), false)
	st, xs = c.makeState(st, m, eng.NamedSym("buf", bytesT), false)
	if st == nil {
		fn = nil
		return
	}
	st.Tag["xs"] = xs
	init = st.Clone()
	it := c.Interp()
	it.Whole = true
	it.Hook = k.hook(m, fn)
	outs = c.Run(it, st, fn, []*eng.Term{v, xs})
	for _, p := range it.Problems {
		k.add(wireProblem{Cat: "undecided", Type: goName, Mode: m, Pos: c.FnPos(fn), Text: "the analysis could not be completed: " + p})
	}
	return
}

// matcher matches the paths of one codec.
type matcher struct {
	k     *codecPkg
	name  string
	m     mode
	init  *eng.State
	path  *eng.State
	evs   []any // *wireEv, loopMark
	rel   map[int]loopRel
	need  map[string]string
	cover map[string]bool
}

type loopMark struct {
	kind string // head back exit
	id   int
	info eng.LoopInfo
	pos  string
	brk  bool // left from the middle
}

type loopRel struct {
	phi *ssa.Phi
	c0  int64
}

type mfail struct {
	cat, pos, text string
	depth          int
}

type cont func(st *eng.State, i int) *mfail

func (k *codecPkg) pathEvents(st *eng.State) []any {
	var r []any
	for _, e := range st.Events {
		switch e.Kind {
		case "code":
			r = append(r, e.Data)
		case "loophead":
			li := e.Data.(eng.LoopInfo)
			r = append(r, loopMark{"head", li.ID, li, k.c.Pos(e.Pos), false})
		case "loopback":
			li := e.Data.(eng.LoopInfo)
			r = append(r, loopMark{"back", li.ID, li, k.c.Pos(e.Pos), false})
		case "loopexit":
			r = append(r, loopMark{kind: "exit", id: e.Data.(int), brk: e.Name == "break"})
		}
	}
	// a failure reported by statements that return belongs to the loops it
	// is written in
	for st.Exit == "failed" && len(r) > 0 {
		if l, ok := r[len(r)-1].(loopMark); !ok || l.kind != "exit" || !l.brk {
			break
		}
		r = r[:len(r)-1]
	}
	return r
}

// checkType matches both directions of one definition.
func (k *codecPkg) checkType(ref string) {
	goName := GoName(ref)
	for _, m := range []mode{encode, decode} {
		init, outs, _, v, t, fn := k.run(goName, m)
		if fn == nil {
			k.add(wireProblem{Cat: "shape", Type: goName, Mode: m, Pos: k.path, Text: fmt.Sprintf("there is no codec (*%s).Xdr for %s", goName, ref)})
			continue
		}
		k.runs++
		mt := &matcher{k: k, name: goName, m: m, init: init, rel: map[int]loopRel{}, need: map[string]string{}, cover: map[string]bool{}}
		pos := k.c.FnPos(fn)
		// loop bodies first: they establish the element index
		sort.SliceStable(outs, func(i, j int) bool {
			return outs[i].Exit == "loopback" && outs[j].Exit != "loopback"
		})
		okPaths := 0
		for _, st := range outs {
			mt.path = st
			mt.evs = k.pathEvents(st)
			switch st.Exit {
			case "return", "loopback", "failed":
			case "mustpanic":
				continue
			default:
				k.add(wireProblem{"shape", goName, m, pos, fmt.Sprintf("the codec of %s ends in %s %s", ref, st.Exit, describe(st))})
				continue
			}
			if st.Tag["otherxs"] != nil {
				k.add(wireProblem{"shape", goName, m, pos, "codes on a different coding state"})
			}
			k.steps += len(mt.evs)
			f := mt.match(&RType{Kind: "name", Name: ref}, v, t, st.Clone(), 0, goName, true, func(s *eng.State, i int) *mfail {
				return mt.end(i)
			})
			if f != nil {
				p := f.pos
				if p == "" {
					p = pos
				}
				k.add(wireProblem{f.cat, goName, m, p, fmt.Sprintf("%v: %s [%s]", m, f.text, describe(st))})
			} else {
				okPaths++
			}
		}
		for key, what := range mt.need {
			if !mt.cover[key] {
				k.add(wireProblem{"cover", goName, m, pos, fmt.Sprintf("%v: no path of the codec of %s handles %s", m, ref, what)})
			}
		}
		if okPaths == 0 {
			k.add(wireProblem{"shape", goName, m, pos, fmt.Sprintf("%v: no path of the codec of %s succeeds", m, ref)})
		}
		k.c.Sample("%s %v: %d paths match %s", goName, m, okPaths, ref)
	}
}

func (mt *matcher) fail(cat string, i int, f string, a ...any) *mfail {
	pos := ""
	if i < len(mt.evs) {
		switch e := mt.evs[i].(type) {
		case *wireEv:
			pos = e.Pos
		case loopMark:
			pos = e.pos
		}
	}
	return &mfail{cat, pos, fmt.Sprintf(f, a...), i}
}

func (mt *matcher) end(i int) *mfail {
	if i < len(mt.evs) {
		switch e := mt.evs[i].(type) {
		case *wireEv:
			return mt.fail("shape", i, "codes %s beyond the end of the type", e)
		case loopMark:
			return mt.fail("shape", i, "loops beyond the end of the type")
		}
	}
	switch mt.path.Exit {
	case "failed":
		return mt.fail("refused", i, "fails although every part is valid")
	case "loopback":
		return mt.fail("shape", i, "stays in a loop beyond the end of the type")
	}
	return nil
}

func (e *wireEv) String() string {
	if e.Kind == "named" {
		return e.Name
	}
	return e.Kind
}

// next returns the coding step at i.
func (mt *matcher) next(i int) *wireEv {
	if i < len(mt.evs) {
		if e, ok := mt.evs[i].(*wireEv); ok {
			return e
		}
	}
	return nil
}

func (mt *matcher) expected(i int, what, where string) *mfail {
	if i >= len(mt.evs) {
		if mt.path.Exit == "failed" {
			return mt.fail("refused", i, "fails before %s (%s) although everything before it is valid", where, what)
		}
		return mt.fail("shape", i, "ends without coding %s (%s)", where, what)
	}
	if e := mt.next(i); e != nil {
		return mt.fail("shape", i, "codes %v where %s (%s) belongs", e, where, what)
	}
	return mt.fail("shape", i, "loops where %s (%s) belongs", where, what)
}

// at is the value that is coded: the initial value at loc when encoding, the
// final one when decoding.
func (mt *matcher) at(st *eng.State, loc *eng.Term, t types.Type) *eng.Term {
	if mt.m == encode {
		return mt.init.Load(loc, t)
	}
	return st.Load(loc, t)
}

// etaArray reports whether a lists exactly the elements of the array b.
func etaArray(a, b *eng.Term) bool {
	if a.Op != "array" || b.Op == "array" || b.T == nil {
		return false
	}
	t, ok := b.T.Underlying().(*types.Array)
	if !ok || t.Len() != int64(len(a.Args)) {
		return false
	}
	for i, e := range a.Args {
		if e.Op != "elem" || e.Args[0] != b || e.Args[1] != eng.Int(int64(i)) {
			return false
		}
	}
	return true
}

func (mt *matcher) same(st *eng.State, a, b *eng.Term) bool { return sameValue(st, a, b) }

// sameValue compares two values part by part.
func sameValue(st *eng.State, a, b *eng.Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) || a.Op == "array" && b.Op == "array" && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if !sameValue(st, a.Args[i], b.Args[i]) {
				return false
			}
		}
		return true
	}
	if etaArray(a, b) || etaArray(b, a) {
		return true
	}
	if st.Norm(a) == st.Norm(b) || st.EqTo(a) == st.EqTo(b) {
		return true
	}
	va, ka := st.Decide(a)
	vb, kb := st.Decide(b)
	if ka && kb {
		return va == vb
	}
	if _, isB := a.BoolVal(); isB {
		return false
	}
	return st.ProvesEq(a, b)
}

func (mt *matcher) value(st *eng.State, ev *wireEv, loc *eng.Term, t types.Type, i int, where string) *mfail {
	want := mt.at(st, loc, t)
	if mt.same(st, want, ev.Val) {
		return nil
	}
	if mt.m == encode {
		return mt.fail("value", i, "encodes %v as %s instead of %v", ev.Val, where, want)
	}
	return mt.fail("dest", i, "%s holds %v instead of the decoded value %v", where, want, ev.Val)
}

var scalarEv = map[string][]string{
	"bool": {"bool"}, "int": {"s32"}, "uint": {"u32"}, "hyper": {"s64"}, "uhyper": {"u64"}, "enum": {"u32", "s32"},
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// wireEq reports whether two reference types have the same wire form and
// Go representation.
func (k *codecPkg) wireEq(a, b *RType, seen map[string]bool) bool {
	if a.Kind == "name" && b.Kind == "name" {
		if a.Name == b.Name || seen[a.Name+"="+b.Name] {
			return true
		}
		seen[a.Name+"="+b.Name] = true
	}
	for a.Kind == "name" && k.spec.Defs[a.Name] != nil {
		a = k.spec.Defs[a.Name].T
	}
	for b.Kind == "name" && k.spec.Defs[b.Name] != nil {
		b = k.spec.Defs[b.Name].T
	}
	if a.Kind != b.Kind {
		return false
	}
	n1, _ := k.spec.Val(a.Size)
	n2, _ := k.spec.Val(b.Size)
	if n1 != n2 || (a.Size == "") != (b.Size == "") || len(a.Fields) != len(b.Fields) || len(a.Arms) != len(b.Arms) {
		return false
	}
	if a.Elem != nil && !k.wireEq(a.Elem, b.Elem, seen) {
		return false
	}
	for i := range a.Fields {
		if !k.wireEq(a.Fields[i].T, b.Fields[i].T, seen) {
			return false
		}
	}
	if a.Kind == "union" {
		return k.spec.Canon(a) == k.spec.Canon(b)
	}
	return true
}

func fieldLoc(loc *eng.Term, t types.Type, name string) (*eng.Term, types.Type) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return eng.Field(loc, i, name, s.Field(i).Type()), s.Field(i).Type()
		}
	}
	return nil, nil
}

func (mt *matcher) match(r *RType, loc *eng.Term, t types.Type, st *eng.State, i int, where string, root bool, k cont) *mfail {
	c := mt.k
	switch r.Kind {
	case "void":
		return k(st, i)
	case "name":
		def := c.spec.Defs[r.Name]
		if def == nil {
			return mt.fail("undecided", i, "%s has the unknown type %s", where, r.Name)
		}
		if e := mt.next(i); !root && e != nil && e.Kind == "named" {
			if c.wireEq(&RType{Kind: "name", Name: c.goRef[e.Name]}, r, map[string]bool{}) {
				if f := mt.value(st, e, loc, t, i, where); f != nil {
					return f
				}
				return k(st, i+1)
			}
		}
		if !root && where != "" && strings.Count(where, "") > 400 {
			return mt.fail("undecided", i, "%s nests too deeply", where)
		}
		return mt.match(def.T, loc, t, st, i, where, false, k)
	case "bool", "int", "uint", "hyper", "uhyper", "enum":
		e := mt.next(i)
		if e == nil {
			return mt.expected(i, r.Kind, where)
		}
		if e.Kind == "named" {
			if !c.wireEq(&RType{Kind: "name", Name: c.goRef[e.Name]}, r, map[string]bool{}) {
				return mt.expected(i, r.Kind, where)
			}
		} else if !has(scalarEv[r.Kind], e.Kind) {
			return mt.expected(i, r.Kind, where)
		}
		if f := mt.value(st, e, loc, t, i, where); f != nil {
			return f
		}
		return k(st, i+1)
	case "opaque":
		n, ok := c.spec.Val(r.Size)
		e := mt.next(i)
		if e == nil && n == 0 && mt.path.Exit != "failed" {
			return k(st, i)
		}
		if e == nil || e.Kind != "array" {
			if n == 0 {
				return k(st, i)
			}
			return mt.expected(i, "opaque["+r.Size+"]", where)
		}
		if !ok || !st.ProvesEq(e.N, eng.Int(n)) {
			return mt.fail("bound", i, "%s has %v bytes instead of %d", where, e.N, n)
		}
		src := st
		if mt.m == encode {
			src = mt.init
		}
		a, ok := t.Underlying().(*types.Array)
		if !ok || a.Len() != n {
			return mt.fail("bound", i, "%s has Go type %v", where, t)
		}
		want, ok1 := src.Content(loc, eng.Int(0), eng.Int(n))
		if !ok1 || !samePieces(st, want, e.Buf) {
			cat := "value"
			if mt.m == decode {
				cat = "dest"
			}
			return mt.fail(cat, i, "%s holds %v, coded %v", where, want, e.Buf)
		}
		return k(st, i+1)
	case "varopaque", "string":
		kind := "var"
		if r.Kind == "string" {
			kind = "string"
		}
		e := mt.next(i)
		if e == nil || e.Kind != kind {
			return mt.expected(i, r.Kind, where)
		}
		mx, isC := e.Max.Int64()
		if r.Size == "" {
			if !isC || mx >= 0 && mx < 1<<32-1 {
				return mt.fail("bound", i, "%s has maximum %v although none is declared", where, e.Max)
			}
		} else {
			n, ok := c.spec.Val(r.Size)
			if !ok || !isC || mx != n {
				return mt.fail("bound", i, "%s has maximum %v instead of %s", where, e.Max, r.Size)
			}
		}
		if f := mt.value(st, e, loc, t, i, where); f != nil {
			return f
		}
		return k(st, i+1)
	case "struct":
		var rec func(j int) cont
		rec = func(j int) cont {
			return func(st *eng.State, i int) *mfail {
				for j < len(r.Fields) && r.Fields[j].T.Kind == "void" {
					j++
				}
				if j == len(r.Fields) {
					return k(st, i)
				}
				f := r.Fields[j]
				fl, ft := fieldLoc(loc, t, GoName(f.Name))
				if fl == nil {
					return mt.fail("shape", i, "%s has no field %s", where, GoName(f.Name))
				}
				return mt.match(f.T, fl, ft, st, i, where+"."+f.Name, false, rec(j+1))
			}
		}
		return rec(0)(st, i)
	case "union":
		return mt.union(r, loc, t, st, i, where, k)
	case "optional":
		return mt.optional(r, loc, t, st, i, where, k)
	case "array":
		n, ok := c.spec.Val(r.Size)
		a, isArr := t.Underlying().(*types.Array)
		if !ok || !isArr || a.Len() != n {
			return mt.fail("bound", i, "%s has Go type %v instead of an array of %s", where, t, r.Size)
		}
		return mt.elements(r.Elem, loc, eng.Int(0), eng.Int(n), a.Elem(), st, i, where, k)
	case "vararray":
		return mt.vararray(r, loc, t, st, i, where, k)
	}
	return mt.fail("undecided", i, "%s has unsupported type %s", where, r.Kind)
}

func (mt *matcher) union(r *RType, loc *eng.Term, t types.Type, st *eng.State, i int, where string, k cont) *mfail {
	dl, dt := fieldLoc(loc, t, GoName(r.Disc.Name))
	if dl == nil {
		return mt.fail("shape", i, "%s has no discriminant %s", where, GoName(r.Disc.Name))
	}
	for n, a := range r.Arms {
		mt.need[fmt.Sprintf("%s#%d", where, n)] = fmt.Sprintf("case %s of %s", strings.Join(a.Vals, ", "), where)
	}
	if r.Def != nil && !(isBoolT(dt) && mt.boolCovered(r)) {
		mt.need[where+"#default"] = "the default case of " + where
	}
	return mt.match(r.Disc.T, dl, dt, st, i, where+"."+r.Disc.Name, false, func(st *eng.State, i int) *mfail {
		d := mt.at(st, dl, dt)
		test := func(v int64) *eng.Term {
			if b, ok := dt.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				if v == 1 {
					return d
				}
				return eng.Not(d)
			}
			return eng.Eq(d, eng.Int(v))
		}
		arm := func(s *eng.State, dcl *RDecl, key string) *mfail {
			done := func(s *eng.State, i int) *mfail {
				f := k(s, i)
				if f == nil {
					mt.cover[key] = true
				}
				return f
			}
			if dcl.T.Kind == "void" {
				return done(s, i)
			}
			fl, ft := fieldLoc(loc, t, GoName(dcl.Name))
			if fl == nil {
				return mt.fail("shape", i, "%s has no field %s", where, GoName(dcl.Name))
			}
			return mt.match(dcl.T, fl, ft, s, i, where+"."+dcl.Name, false, done)
		}
		other := st.Clone()
		live := true
		for n, a := range r.Arms {
			for _, vs := range a.Vals {
				v, ok := mt.k.spec.Val(vs)
				if !ok {
					return mt.fail("undecided", i, "%s: the value of %s is not known", where, vs)
				}
				e := test(v)
				s := st.Clone()
				if s.Assume(e, true) && s.Feasible() {
					if f := arm(s, a.D, fmt.Sprintf("%s#%d", where, n)); f != nil {
						f.text = fmt.Sprintf("for %s = %s: %s", where+"."+r.Disc.Name, vs, f.text)
						return f
					}
				}
				if live {
					live = other.Assume(e, false) && other.Feasible()
				}
			}
		}
		if !live {
			return nil
		}
		if isBoolT(dt) && mt.boolCovered(r) {
			return nil
		}
		if r.Def != nil {
			if f := arm(other, r.Def, where+"#default"); f != nil {
				f.text = fmt.Sprintf("for other values of %s: %s", where+"."+r.Disc.Name, f.text)
				return f
			}
			return nil
		}
		// no arm: an error, or nothing more of the union
		if mt.path.Exit == "failed" && i == len(mt.evs) {
			return nil
		}
		if f := k(other, i); f != nil {
			f.text = fmt.Sprintf("for values of %s that select no arm: %s", where+"."+r.Disc.Name, f.text)
			return f
		}
		return nil
	})
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// boolCovered: the arms name both booleans.
func (mt *matcher) boolCovered(r *RType) bool {
	all := map[int64]bool{}
	for _, a := range r.Arms {
		for _, vs := range a.Vals {
			v, _ := mt.k.spec.Val(vs)
			all[v] = true
		}
	}
	return all[0] && all[1]
}

func (mt *matcher) optional(r *RType, loc *eng.Term, t types.Type, st *eng.State, i int, where string, k cont) *mfail {
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() == 1 {
		loc, t = eng.Field(loc, 0, s.Field(0).Name(), s.Field(0).Type()), s.Field(0).Type()
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return mt.fail("shape", i, "%s has Go type %v instead of a pointer", where, t)
	}
	e := mt.next(i)
	if e == nil || e.Kind != "bool" {
		return mt.expected(i, "presence flag", where)
	}
	p := mt.at(st, loc, t)
	mt.need[where+"#absent"] = where + " being absent"
	mt.need[where+"#present"] = where + " being present"
	for _, present := range []bool{false, true} {
		s := st.Clone()
		key := where + "#absent"
		if present {
			key = where + "#present"
		}
		done := func(s *eng.State, i int) *mfail {
			f := k(s, i)
			if f == nil {
				mt.cover[key] = true
			}
			return f
		}
		if mt.m == encode {
			if !s.Assume(eng.Eq(p, eng.Nil), !present) || !s.Feasible() {
				continue
			}
			if v, known := s.Decide(e.Val); !known || v != present {
				return mt.fail("value", i, "the presence flag of %s is %v when present is %v", where, e.Val, present)
			}
		} else {
			if !s.Assume(e.Val, present) || !s.Feasible() {
				continue
			}
			if isNil, known := s.Decide(eng.Eq(p, eng.Nil)); !known || isNil == present {
				return mt.fail("dest", i, "after decoding, %s is %v when present is %v", where, p, present)
			}
		}
		var f *mfail
		if present {
			f = mt.match(r.Elem, p, pt.Elem(), s, i+1, where+".*", false, done)
		} else {
			f = done(s, i+1)
		}
		if f != nil {
			if present {
				f.text = fmt.Sprintf("with %s present: %s", where, f.text)
			} else {
				f.text = fmt.Sprintf("with %s absent: %s", where, f.text)
			}
			return f
		}
	}
	return nil
}

func (mt *matcher) vararray(r *RType, loc *eng.Term, t types.Type, st *eng.State, i int, where string, k cont) *mfail {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return mt.fail("shape", i, "%s has Go type %v instead of a slice", where, t)
	}
	var bound int64 = 1<<32 - 1
	if r.Size != "" {
		b, ok := mt.k.spec.Val(r.Size)
		if !ok {
			return mt.fail("undecided", i, "bound %s of %s is not known", r.Size, where)
		}
		bound = b
	}
	over := func(n *eng.Term) bool { return st.ProvesGE(n, eng.Int(bound+1)) }
	e := mt.next(i)
	if e == nil || e.Kind != "u32" {
		if i >= len(mt.evs) && mt.path.Exit == "failed" && mt.m == encode {
			n := eng.Len(mt.init.Load(loc, t))
			if over(n) {
				return nil
			}
			return mt.fail("refused-bound", i, "refuses %s although its length may be at most %d", where, bound)
		}
		return mt.expected(i, "element count", where)
	}
	n := e.Val
	s := mt.at(st, loc, t)
	if mt.path.Exit == "failed" && i+1 == len(mt.evs) && !st.ProvesEq(n, eng.Int(0)) {
		// the length is refused
		if over(n) {
			return nil
		}
		if mt.m == decode {
			w := mt.k.spec.MinWire(r.Elem)
			if w > 0 && e.Rest != nil && st.ProvesGE(eng.MulC(n, w), eng.Add(e.Rest, eng.Int(1))) {
				return nil
			}
		}
		return mt.fail("refused-bound", i, "refuses %s although its length may be at most %d", where, bound)
	}
	if mt.m == encode {
		if !st.ProvesEq(n, eng.Len(s)) {
			return mt.fail("value", i, "writes %v as the element count of %s instead of %v", n, where, eng.Len(s))
		}
	}
	if r.Size != "" {
		x := st.Clone()
		if x.AddGE(n, eng.Int(bound+1)) && x.Feasible() {
			return mt.fail("bound", i, "accepts %s with more than %d elements", where, bound)
		}
		x = st.Clone()
		mt.need[where+"#max"] = fmt.Sprintf("%s with %d elements", where, bound)
		if x.AddGE(n, eng.Int(bound)) && x.Feasible() {
			mt.cover[where+"#max"] = true
		}
	}
	if mt.m == decode {
		if !st.ProvesEq(n, eng.Len(s)) {
			return mt.fail("dest", i, "after decoding, %s has %v elements instead of %v", where, eng.Len(s), n)
		}
	}
	reg, off, _, _ := eng.SliceParts(s)
	return mt.elements(r.Elem, reg, off, n, sl.Elem(), st, i+1, where, k)
}

// elements matches n elements starting at off in reg.
func (mt *matcher) elements(r *RType, reg, off, n *eng.Term, t types.Type, st *eng.State, i int, where string, k cont) *mfail {
	lm, isLoop := loopMark{}, false
	if i < len(mt.evs) {
		lm, isLoop = mt.evs[i].(loopMark)
	}
	at := func(e *eng.Term) *eng.Term { return eng.Index(reg, st.Norm(eng.Add(off, e))) }
	if !isLoop || lm.kind != "head" {
		c, ok := st.Norm(n).Int64()
		if !ok && st.ProvesEq(n, eng.Int(0)) {
			c, ok = 0, true
		}
		if !ok {
			return mt.expected(i, "loop over the elements", where)
		}
		var rec func(j int64) cont
		rec = func(j int64) cont {
			return func(st *eng.State, i int) *mfail {
				if j == c {
					return k(st, i)
				}
				return mt.match(r, at(eng.Int(j)), t, st, i, fmt.Sprintf("%s[%d]", where, j), false, rec(j+1))
			}
		}
		return rec(0)(st, i)
	}
	// does this path leave the loop?
	exitAt := -1
	for j := i + 1; j < len(mt.evs); j++ {
		if x, ok := mt.evs[j].(loopMark); ok && x.kind == "exit" && x.id == lm.id {
			exitAt = j
			break
		}
	}
	if exitAt < 0 || exitAt > i+1 {
		// one arbitrary iteration
		last := mt.fail("shape", i, "no loop variable enumerates the elements of %s from 0", where)
		var phis []*ssa.Phi
		for p := range lm.info.Phis {
			phis = append(phis, p)
		}
		sort.Slice(phis, func(a, b int) bool { return phis[a].Name() < phis[b].Name() })
		for _, p := range phis {
			if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			init, ok := lm.info.Init[p]
			if !ok {
				continue
			}
			c0, ok := init.Int64()
			if !ok {
				continue
			}
			e := eng.Sub(lm.info.Phis[p], eng.Int(c0))
			if !st.ProvesGE(eng.Sub(n, eng.Int(1)), e) {
				if last.depth <= i {
					last = mt.fail("shape", i, "the loop over %s may run beyond its %v elements", where, n)
				}
				continue
			}
			f := mt.match(r, at(e), t, st, i+1, where+"[i]", false, func(st *eng.State, j int) *mfail {
				if j < len(mt.evs) {
					b, ok := mt.evs[j].(loopMark)
					if ok && b.kind == "back" && b.id == lm.id {
						nx := b.info.Phis[p]
						if nx == nil || !st.ProvesEq(nx, eng.Add(lm.info.Phis[p], eng.Int(1))) {
							return mt.fail("shape", j, "the loop over %s does not advance by one element", where)
						}
						return nil
					}
				}
				return mt.expected(j, "next element", where)
			})
			if f == nil {
				if old, ok := mt.rel[lm.id]; ok && old.phi != p {
					// both enumerate; keep the first
				} else {
					mt.rel[lm.id] = loopRel{p, c0}
				}
				return nil
			}
			if f.depth >= last.depth {
				last = f
			}
		}
		return last
	}
	rel, ok := mt.rel[lm.id]
	if !ok {
		if st.ProvesGE(eng.Int(0), n) {
			return k(st, exitAt+1)
		}
		return mt.fail("shape", i, "the loop over the elements of %s codes none of them", where)
	}
	e := eng.Sub(lm.info.Phis[rel.phi], eng.Int(rel.c0))
	if !st.ProvesGE(e, n) {
		return mt.fail("shape", i, "the loop over %s may end before all %v elements are coded", where, n)
	}
	return k(st, exitAt+1)
}

// checkAll matches every definition of the reference.
func (k *codecPkg) checkAll() {
	for _, n := range k.spec.Order {
		if len(k.probs)+len(k.c.Findings) < enough {
			k.checkType(n)
		}
	}
}

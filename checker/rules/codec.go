package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// Codecs are analysed one at a time: calls of runtime primitives and of other
// codecs are replaced by their contract, which those functions are themselves
// checked against. The contract of coding a value on a good state: either the
// value is coded and the state stays good, or the state fails and the
// destination holds anything. On a failed state: no effect at all.

// contractEv records a contract step.
type contractEv struct {
	What   string // primitive or type
	Failed bool   // state had failed before
	Fails  bool   // this step fails
	XS     *eng.Term
	Loc    *eng.Term
	OKLoc  bool // destination known to be non-nil
	OKXS   bool
	Min    int64     // bytes a successful step takes at least
	Rest   *eng.Term // input or output after the step
}

// codecCall recognises the coding of a value.
func (k *codecPkg) codecCall(call *eng.Call) (what, kind, named string, nt types.Type, loc, xs *eng.Term) {
	pre := k.c.pkgPath("xdr") + "."
	if strings.HasPrefix(call.Name, pre) {
		kind = primKinds[strings.TrimPrefix(call.Name, pre)]
		if kind != "" {
			return strings.TrimPrefix(call.Name, pre), kind, "", nil, call.Args[len(call.Args)-1], call.Args[0]
		}
	}
	if n, t := k.codecType(call); n != "" {
		return "(*" + n + ").Xdr", "named", n, t, call.Args[0], call.Args[1]
	}
	return
}

// codecType: any (*T).Xdr(*XdrState) of the package.
func (k *codecPkg) codecType(call *eng.Call) (string, types.Type) {
	if call.Fn == nil || call.Fn.Name() != "Xdr" || len(call.Args) != 2 || call.Fn.Signature.Recv() == nil {
		return "", nil
	}
	pt, ok := call.Fn.Signature.Recv().Type().(*types.Pointer)
	if !ok {
		return "", nil
	}
	n, ok := types.Unalias(pt.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() != k.pkg {
		return "", nil
	}
	if q, ok := call.Fn.Signature.Params().At(0).Type().(*types.Pointer); !ok || !types.Identical(q.Elem(), k.c.Type("xdr", "XdrState")) {
		return "", nil
	}
	return n.Obj().Name(), n
}

// codecs lists the functions that code a type of the package.
func (k *codecPkg) codecs() []*ssa.Function {
	var r []*ssa.Function
	for _, n := range k.pkg.Scope().Names() {
		tn, ok := k.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		fn := k.c.methodOf(types.NewPointer(tn.Type()), "Xdr")
		if fn == nil || fn.Signature.Params().Len() != 1 || fn.Blocks == nil {
			continue
		}
		if q, ok := fn.Signature.Params().At(0).Type().(*types.Pointer); !ok || !types.Identical(q.Elem(), k.c.Type("xdr", "XdrState")) {
			continue
		}
		r = append(r, fn)
	}
	return r
}

func (k *codecPkg) xsFields(f func(i int, v *types.Var)) {
	s, ok := k.c.Type("xdr", "XdrState").Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f(i, s.Field(i))
	}
}

// failState models a step that fails: some error is set, the remaining input
// or output is anything consistent.
func (k *codecPkg) failState(st *eng.State, xs *eng.Term, m mode) {
	k.xsFields(func(i int, f *types.Var) {
		a := eng.Field(xs, i, f.Name(), f.Type())
		switch {
		case types.Identical(f.Type().Underlying(), bytesT):
			old := st.Load(a, f.Type())
			n := eng.Sym("rest", f.Type())
			st.Store(a, n, f.Type())
			if m == decode {
				st.AddGE(eng.Len(old), eng.Len(n))
			} else {
				st.AddGE(eng.Len(n), eng.Len(old))
			}
		case types.IsInterface(f.Type()):
			e := eng.NonNil("stepError", f.Type())
			st.Store(a, e, f.Type())
		}
	})
}

// bufOf is the input or output of a coding state.
func (k *codecPkg) bufOf(st *eng.State, xs *eng.Term) (r *eng.Term) {
	k.xsFields(func(i int, f *types.Var) {
		if types.Identical(f.Type().Underlying(), bytesT) {
			r = st.Load(eng.Field(xs, i, f.Name(), f.Type()), f.Type())
		}
	})
	return
}

// nonNil reports whether the path excludes that loc is nil.
func nonNil(st *eng.State, loc *eng.Term) bool {
	v, known := st.Decide(eng.Eq(loc, eng.Nil))
	return known && !v
}

// contract is the modular hook.
func (k *codecPkg) contract(m mode, self *ssa.Function) eng.Hook {
	return func(st *eng.State, call *eng.Call) ([]eng.Outcome, bool) {
		what, kind, named, nt, loc, xs := k.codecCall(call)
		if kind == "" {
			return nil, false
		}
		emit := func(st *eng.State, failed, fails bool) *contractEv {
			ok := nonNil(st, loc)
			if kind == "array" {
				ok = true
			}
			e := &contractEv{
				What: what, Failed: failed, Fails: fails, XS: xs, Loc: loc, OKLoc: ok, OKXS: nonNil(st, xs), Min: k.minOf(kind, named)}
			st.Emit(eng.Event{Kind: "step", Name: what, Pos: call.Pos, In: call.In, Data: e})
			return e
		}
		onFailed := func(st *eng.State) (*eng.Term, bool) {
			if !st.Assume(eng.Eq(k.c.errorOf(st, xs), eng.Nil), false) || !st.Feasible() {
				return nil, false
			}
			emit(st, true, false)
			return nil, true
		}
		good := func(st *eng.State) bool {
			return st.Assume(eng.Eq(k.c.errorOf(st, xs), eng.Nil), true) && st.Feasible()
		}
		onOK := func(st *eng.State) (*eng.Term, bool) {
			if !good(st) {
				return nil, false
			}
			e := emit(st, false, false)
			k.step(st, call, m, kind, named, nt, xs)
			e.Rest = k.bufOf(st, xs)
			return nil, true
		}
		onFail := func(st *eng.State) (*eng.Term, bool) {
			if !good(st) {
				return nil, false
			}
			e := emit(st, false, true)
			if m == decode {
				switch kind {
				case "array":
					r, _, _, _ := eng.SliceParts(loc)
					st.Havoc(r)
				case "named", "var", "string":
					st.Havoc(loc)
				default:
					switch k.c.failEffect(kind) {
					case "unchanged":
					case "zero":
						st.Store(loc, eng.Zero(primType(kind)), primType(kind))
					default:
						st.Havoc(loc)
					}
				}
			}
			k.failState(st, xs, m)
			e.Rest = k.bufOf(st, xs)
			st.Tag["failed"] = k.c.errorOf(st, xs)
			return nil, true
		}
		return []eng.Outcome{onFailed, onOK, onFail}, true
	}
}

// failEffect summarises what a scalar primitive leaves in its destination
// when decoding fails: unchanged, zero or unknown.
func (c *Ctx) failEffect(kind string) string {
	if c.failEff == nil {
		c.failEff = map[string]string{}
	}
	if e, ok := c.failEff[kind]; ok {
		return e
	}
	e := ""
	for _, op := range c.libOps() {
		if op.meth || op.kind != kind {
			continue
		}
		k := c.opCase(op, decode, 0, false)
		if k == nil {
			return "unknown"
		}
		it := c.Interp()
		for _, st := range it.Run(k.st, op.fn, k.args) {
			if st.Exit != "return" {
				e = "unknown"
				continue
			}
			if outcome(st, c.errorOf(st, k.xs)) == "ok" {
				continue
			}
			x := "unknown"
			switch st.Load(k.v, op.elem) {
			case k.init.Load(k.v, op.elem):
				x = "unchanged"
			case eng.Zero(op.elem):
				x = "zero"
			}
			if e == "" {
				e = x
			} else if e != x {
				e = "unknown"
			}
		}
		if len(it.Problems) > 0 {
			e = "unknown"
		}
	}
	if e == "" {
		e = "unknown"
	}
	c.failEff[kind] = e
	return e
}

func (k *codecPkg) minOf(kind, named string) int64 {
	switch kind {
	case "named":
		return k.spec.MinWire(&RType{Kind: "name", Name: k.goRef[named]})
	case "array":
		return 0
	}
	return 4
}

// codecRun analyses one codec under contracts.
type codecRunT struct {
	k      *codecPkg
	fn     *ssa.Function
	name   string
	m      mode
	failed bool
	v, xs  *eng.Term
	t      types.Type
	init   *eng.State
	outs   []*eng.State
}

func (k *codecPkg) codecRun(fn *ssa.Function, m mode, failed bool) *codecRunT {
	c := k.c
	r := &codecRunT{k: k, fn: fn, m: m, failed: failed}
	r.t = fn.Signature.Recv().Type().(*types.Pointer).Elem()
	r.name = types.Unalias(r.t).(*types.Named).Obj().Name()
	st := eng.NewState()
	r.v = eng.NamedSym("v", types.NewPointer(r.t))
	st.Assume(eng.Eq(r.v, eng.Nil), false)
	st, xs := c.makeState(st, m, eng.NamedSym("buf", bytesT), failed)
	if st == nil {
		return nil
	}
	r.xs = xs
	r.init = st.Clone()
	it := c.Interp()
	it.Hook = k.contract(m, fn)
	r.outs = c.Run(it, st, fn, []*eng.Term{r.v, xs})
	c.Problems(it, "(*"+r.name+").Xdr")
	return r
}

func (r *codecRunT) String() string {
	s := fmt.Sprintf("(*%s).Xdr %v", r.name, r.m)
	if r.failed {
		s += " (already failed)"
	}
	return s
}

func (r *codecRunT) key() string { return r.name + ":" + r.m.String() }

// enough findings decide a check; more would only take time.
const enough = 40

// eachCodec runs every codec of the shipped packages.
func (c *Ctx) eachCodec(modes []mode, failed bool, f func(r *codecRunT)) {
	c.shipped(func(k *codecPkg) {
		n := 0
		for _, fn := range k.codecs() {
			n++
			if len(c.Findings) >= enough {
				continue
			}
			for _, m := range modes {
				if r := k.codecRun(fn, m, failed); r != nil {
					f(r)
				}
			}
		}
		c.Check(n >= len(k.spec.Order), "codecs:"+k.path, k.path, "only %d codecs found in %s for %d definitions", n, k.path, len(k.spec.Order))
	})
}

// codecC03: no codec panics while decoding.
func (c *Ctx) codecC03() {
	c.eachCodec([]mode{decode}, false, func(r *codecRunT) {
		for _, st := range r.outs {
			c.obligations(st, r.name)
			switch st.Exit {
			case "return", "loopback":
			default:
				c.Check(false, "exit:"+r.key(), c.FnPos(r.fn), "%v ends in %s %s", r, st.Exit, describe(st))
			}
			for _, e := range st.Events {
				if e.Kind != "step" {
					continue
				}
				s := e.Data.(*contractEv)
				if !s.Failed {
					c.Check(s.OKLoc, "nil:"+r.name+":"+s.What, c.Pos(e.Pos), "%v calls %s with a destination that may be nil (%v) %s", r, s.What, s.Loc, describe(st))
				}
				c.Check(s.OKXS, "nilstate:"+r.name+":"+s.What, c.Pos(e.Pos), "%v calls %s with a coding state that may be nil", r, s.What)
			}
			c.foreignCalls(r, st, "call:")
		}
	})
}

// foreignCalls reports calls a codec has no business making.
func (c *Ctx) foreignCalls(r *codecRunT, st *eng.State, key string) {
	for _, e := range st.Events {
		switch e.Kind {
		case "call", "invoke", "dyncall", "go", "send", "recv":
			switch e.Name {
			case "errors.New", "fmt.Errorf", "fmt.Sprintf", "builtin print", "builtin println", "strconv.Itoa":
				continue
			}
			if e.Kind == "call" && strings.HasPrefix(e.Name, "builtin ") {
				continue
			}
			c.Check(false, key+r.name+":"+e.Name, c.Pos(e.Pos), "%v makes a %s %s whose effect is not known", r, e.Kind, e.Name)
		}
	}
}

// codecC04: failed states have no effect, failures stick.
func (c *Ctx) codecC04() {
	t := c.Type("xdr", "XdrState")
	c.eachCodec([]mode{encode, decode}, true, func(r *codecRunT) {
		for _, st := range r.outs {
			if st.Exit == "loopback" {
				// a loop over the elements of the value; its steps have no effect
			} else if !c.Check(st.Exit == "return", "exit:"+r.key(), c.FnPos(r.fn), "%v ends in %s", r, st.Exit) {
				continue
			}
			c.Check(st.Load(r.xs, t) == r.init.Load(r.xs, t), "state:"+r.key(), c.FnPos(r.fn), "%v changes the coding state to %v %s", r, st.Load(r.xs, t), describe(st))
			for _, w := range st.Changes() {
				if r.isFresh(w) {
					continue
				}
				c.Check(false, "value:"+r.key(), c.FnPos(r.fn), "%v writes %v although coding has already failed %s", r, w, describe(st))
			}
			c.Oblig++
			c.Discharge++
		}
	})
	c.eachCodec([]mode{encode, decode}, false, func(r *codecRunT) {
		for _, st := range r.outs {
			if st.Exit != "return" && st.Exit != "loopback" {
				continue
			}
			if e, ok := st.Tag["failed"].(*eng.Term); ok {
				now := c.errorOf(st, r.xs)
				// another error may replace it, but there must be one
				c.Check(outcome(st, now) == "failed", "lost:"+r.key(), c.FnPos(r.fn), "%v: after a step failed with %v the state holds %v %s", r, e, now, describe(st))
			}
			for _, e := range st.Events {
				if e.Kind == "step" {
					s := e.Data.(*contractEv)
					c.Check(s.XS == r.xs, "otherstate:"+r.key(), c.Pos(e.Pos), "%v: %s codes on another coding state", r, s.What)
				}
			}
		}
	})
}

// isFresh: memory the codec allocated itself.
func (r *codecRunT) isFresh(w *eng.Term) bool {
	root := eng.Root(w)
	return root.Op == "alloc" && root != eng.Root(r.xs)
}

// codecC05: encoding writes nothing but fresh memory and the coding state.
func (c *Ctx) codecC05() {
	c.eachCodec([]mode{encode, decode}, false, func(r *codecRunT) {
		for _, st := range r.outs {
			for _, e := range st.Events {
				if e.Kind == "unsafe" {
					c.Check(false, "unsafe:"+r.key(), c.Pos(e.Pos), "%v uses an unsafe conversion", r)
				}
			}
			for _, w := range st.Changes() {
				if r.isFresh(w) || eng.Covers(r.xs, w) {
					continue
				}
				if r.m == encode {
					c.Check(false, "write:"+r.key(), c.FnPos(r.fn), "%v writes to %v, part of the value being encoded %s", r, w, describe(st))
				} else if !eng.Derives(w, r.v) {
					c.Check(false, "write:"+r.key(), c.FnPos(r.fn), "%v writes to %v, which is not part of the destination %s", r, w, describe(st))
				}
			}
			c.Oblig++
			c.Discharge++
		}
	})
}

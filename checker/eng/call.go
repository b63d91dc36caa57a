package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// resolve determines the callee of a call.
func (it *Interp) resolve(st *State, cc *ssa.CallCommon) (fn *ssa.Function, bind []*Term, c *Call) {
	c = &Call{it: it, In: st.top().fn, Pos: cc.Pos()}
	for _, a := range cc.Args {
		c.Args = append(c.Args, it.val(st, a))
		c.ATypes = append(c.ATypes, a.Type())
	}
	sig := cc.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.RType = sig.Results().At(0).Type()
	default:
		c.RType = sig.Results()
	}
	if cc.IsInvoke() {
		recv := it.val(st, cc.Value)
		if v, ok := st.eqmap[recv]; ok && v.IsNil() {
			recv = Nil
		}
		c.Invoke = true
		c.Obj = cc.Method
		c.Recv = recv
		c.Name = cc.Method.FullName()
		if recv.Op == "iface" {
			dt := recv.Obj.(types.Type)
			m := it.Prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name())
			if m != nil {
				c.Invoke = false
				c.Fn = m
				c.Name = FuncName(m)
				c.Args = append([]*Term{recv.Args[0]}, c.Args...)
				c.ATypes = append([]types.Type{dt}, c.ATypes...)
				return m, nil, c
			}
		}
		return nil, nil, c
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		c.Name = v.Name()
		return nil, nil, c
	case *ssa.Function:
		c.Fn = v
		c.Name = FuncName(v)
		return v, nil, c
	}
	fv := it.val(st, cc.Value)
	if g, b := funcOf(fv); g != nil {
		c.Fn = g
		c.Name = FuncName(g)
		return g, b, c
	}
	c.Recv = fv
	return nil, nil, c
}

// FuncName is the full name of a function, with wrappers resolved.
func FuncName(fn *ssa.Function) string {
	if fn.Object() != nil {
		if o, ok := fn.Object().(*types.Func); ok && fn.Synthetic == "" {
			return o.FullName()
		}
	}
	if o := fn.Origin(); o != nil && o != fn && o.Object() != nil {
		return o.Object().(*types.Func).FullName()
	}
	return fn.String()
}

func (it *Interp) mkDeferred(st *State, cc *ssa.CallCommon, pos token.Pos) deferred {
	d := deferred{call: cc, in: st.top().fn, pos: pos}
	if cc.IsInvoke() {
		d.fn = it.val(st, cc.Value)
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		d.fn = it.val(st, cc.Value)
	}
	for _, a := range cc.Args {
		d.args = append(d.args, it.val(st, a))
	}
	return d
}

func (it *Interp) runDeferred(st *State, d deferred) ([]*State, bool) {
	c := &Call{it: it, In: d.in, Pos: d.pos, Args: d.args, Kind: "defer"}
	for _, a := range d.call.Args {
		c.ATypes = append(c.ATypes, a.Type())
	}
	sig := d.call.Signature()
	switch sig.Results().Len() {
	case 0:
	case 1:
		c.RType = sig.Results().At(0).Type()
	default:
		c.RType = sig.Results()
	}
	var fn *ssa.Function
	var bind []*Term
	if d.call.IsInvoke() {
		c.Invoke = true
		c.Obj = d.call.Method
		c.Recv = d.fn
		c.Name = c.Obj.FullName()
		if d.fn.Op == "iface" {
			dt := d.fn.Obj.(types.Type)
			if m := it.Prog.LookupMethod(dt, c.Obj.Pkg(), c.Obj.Name()); m != nil {
				fn = m
				c.Invoke = false
				c.Fn, c.Name = m, FuncName(m)
				c.Args = append([]*Term{d.fn.Args[0]}, c.Args...)
				c.ATypes = append([]types.Type{dt}, c.ATypes...)
			}
		}
	} else if b, ok := d.call.Value.(*ssa.Builtin); ok {
		c.Name = b.Name()
		st.event(Event{Kind: "call", Name: "builtin " + b.Name(), Args: d.args, Pos: d.pos, In: d.in})
		if b.Name() == "recover" {
			if st.top().panicking {
				st.top().recovered = true
			}
		}
		if st.top().panicking {
			return it.unwind(st)
		}
		return nil, false
	} else if g, b := funcOf(d.fn); g != nil {
		fn, bind = g, b
		c.Fn, c.Name = g, FuncName(g)
	} else {
		c.Recv = d.fn
	}
	return it.dispatch(st, c, fn, bind, nil, true)
}

func (it *Interp) call(st *State, in *ssa.Call) ([]*State, bool) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return it.builtin(st, in, b.Name())
	}
	fn, bind, c := it.resolve(st, cc)
	c.Kind = "call"
	c.Pos = in.Pos()
	return it.dispatch(st, c, fn, bind, in, false)
}

// dispatch performs a resolved call. site is nil for deferred calls.
func (it *Interp) dispatch(st *State, c *Call, fn *ssa.Function, bind []*Term, site ssa.Instruction, isDef bool) ([]*State, bool) {
	depth := len(st.frames)
	finish := func(s *State, res *Term) {
		if s.Exit != "" || len(s.frames) < depth {
			return
		}
		if isDef {
			return
		}
		if v, ok := site.(ssa.Value); ok && v != nil {
			if res == nil && c.RType != nil {
				res = it.freshResult(s, c)
			}
			s.top().env[v] = res
		}
		s.top().idx++
	}
	apply := func(outs []Outcome) ([]*State, bool) {
		var ns []*State
		for i, o := range outs {
			n := st
			if i < len(outs)-1 {
				n = st.clone()
			}
			res, ok := o(n)
			if !ok {
				continue
			}
			pan := n.Exit != "" || len(n.frames) < depth || (len(n.frames) >= depth && n.frames[depth-1].panicking && !isDef)
			if !pan {
				finish(n, res)
			}
			if isDef && n.Exit == "" && len(n.frames) == depth && n.top().panicking {
				xs, forked := it.unwind(n)
				if forked {
					ns = append(ns, xs...)
					continue
				}
			}
			ns = append(ns, n)
		}
		return ns, true
	}
	if it.Hook != nil {
		if outs, ok := it.Hook(st, c); ok {
			return apply(outs)
		}
	}
	if c.Name == "(*sync.Once).Do" && len(c.Args) == 2 {
		if g, b := funcOf(c.Args[1]); g != nil && len(g.Blocks) > 0 && it.canInline(st, g) {
			// the call that finds it undone, and any later one
			first, once := st.clone(), c.Args[0]
			ns, _ := apply([]Outcome{func(*State) (*Term, bool) { return nil, true }})
			first.event(Event{Kind: "sync", Name: c.Name, Args: []*Term{once}, Pos: c.Pos, In: c.In})
			f := it.push(first, g, b, nil, site)
			f.isDef = isDef
			f.hook = func(st *State, _ *Term) {
				st.event(Event{Kind: "sync", Name: "(*sync.Once).done", Args: []*Term{once}, Pos: c.Pos, In: c.In})
			}
			return append(ns, first), true
		}
	}
	if c.Name != "" {
		if outs, ok := it.model(st, c); ok {
			return apply(outs)
		}
	}
	if fn != nil && len(fn.Blocks) > 0 && it.canInline(st, fn) {
		f := it.push(st, fn, bind, c.Args, site)
		f.isDef = isDef
		return nil, false
	}
	return apply([]Outcome{func(s *State) (*Term, bool) { return it.opaque(s, c), true }})
}

func (it *Interp) canInline(st *State, fn *ssa.Function) bool {
	if len(st.frames) > it.MaxDepth {
		it.problem("call depth limit at %v", fn)
		return false
	}
	rec := 0
	for _, f := range st.frames {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 0 && !it.Unroll {
		it.problem("recursive call of %v", fn)
		return false
	}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package") {
		return true
	}
	if fn.Parent() != nil {
		return true
	}
	return it.Inline == nil || it.Inline(fn)
}

// opaque is a call about which nothing is known.
func (it *Interp) opaque(st *State, c *Call) *Term {
	kind := "call"
	if c.Invoke {
		kind = "invoke"
		it.nonNil(st, c.Recv, c.Pos, "call on nil interface")
	} else if c.Name == "" {
		kind = "dyncall"
		it.nonNil(st, c.Recv, c.Pos, "call of nil function")
	}
	for _, a := range c.Args {
		st.HavocReach(a)
	}
	res := it.freshResult(st, c)
	st.event(Event{Kind: kind, Name: c.Name, Fn: c.Obj, Recv: c.Recv, Args: c.Args, Res: res, Pos: c.Pos, In: c.In})
	return res
}

// Opaque exposes opaque to hooks.
func (c *Call) Opaque(st *State) *Term { return c.it.opaque(st, c) }

// Interp returns the interpreter making the call.
func (c *Call) Interp() *Interp { return c.it }

func (it *Interp) freshResult(st *State, c *Call) *Term {
	if c.RType == nil {
		return nil
	}
	name := c.Name
	if i := strings.LastIndexAny(name, "./"); i >= 0 {
		name = name[i+1:]
	}
	if name == "" {
		name = "result"
	}
	if tt, ok := c.RType.(*types.Tuple); ok {
		var as []*Term
		for i := 0; i < tt.Len(); i++ {
			as = append(as, SymOf(fmt.Sprintf("%s.%d", name, i), tt.At(i).Type()))
		}
		return Op("tuple", as...)
	}
	return SymOf(name, c.RType)
}

// Fresh returns fresh results for a call (for hooks).
func (c *Call) Fresh(st *State) *Term { return c.it.freshResult(st, c) }

// SymOf is a fresh value of type t; structs are expanded.
func SymOf(name string, t types.Type) *Term {
	if u, ok := t.Underlying().(*types.Struct); ok {
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, SymOf(name+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return Op("struct", as...)
	}
	return Sym(name, t)
}

func (it *Interp) goStmt(st *State, in *ssa.Go) ([]*State, bool) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		it.problem("go of builtin %s", b.Name())
		st.top().idx++
		return nil, false
	}
	fn, bind, c := it.resolve(st, cc)
	c.Kind = "go"
	c.Pos = in.Pos()
	st.event(Event{Kind: "go", Name: c.Name, Args: c.Args, Pos: in.Pos(), In: c.In})
	th := st.clone()
	th.Thread = int(freshID())
	th.frames = nil
	th.Tag["go"] = len(st.Events)
	th.writes, th.havW = nil, nil
	main := st
	main.top().idx++
	if len(it.sub) > 0 {
		// only the spawning path matters for loop summaries
		return nil, false
	}
	if fn == nil || len(fn.Blocks) == 0 {
		// body unknown: a dynamic call in its own goroutine
		if it.Hook != nil {
			if outs, ok := it.Hook(th, c); ok {
				res := []*State{main}
				for _, o := range outs {
					n := th.clone()
					if _, ok := o(n); ok {
						n.Exit = "return"
						res = append(res, n)
					}
				}
				return res, true
			}
		}
		it.problem("go of unknown function in %v", c.In)
		return nil, false
	}
	if it.Hook != nil {
		if outs, ok := it.Hook(th, c); ok {
			res := []*State{main}
			for _, o := range outs {
				n := th.clone()
				if _, ok := o(n); ok {
					n.Exit = "return"
					res = append(res, n)
				}
			}
			return res, true
		}
	}
	it.push(th, fn, bind, c.Args, nil)
	return []*State{main, th}, true
}

func (it *Interp) builtin(st *State, in *ssa.Call, name string) ([]*State, bool) {
	f := st.top()
	var args []*Term
	for _, a := range in.Call.Args {
		args = append(args, it.val(st, a))
	}
	at := func(i int) types.Type { return in.Call.Args[i].Type() }
	isStr := func(i int) bool {
		b, ok := at(i).Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	done := func(t *Term) ([]*State, bool) {
		it.set(st, in, t)
		if st.Exit == "" {
			f.idx++
		}
		return nil, false
	}
	switch name {
	case "len":
		if isStr(0) {
			return done(st.Norm(StrLen(args[0])))
		}
		switch u := at(0).Underlying().(type) {
		case *types.Array:
			return done(Int(u.Len()))
		case *types.Pointer:
			return done(Int(u.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			if args[0].IsNil() {
				return done(Int(0))
			}
			return done(mk(Term{Op: "len", Args: []*Term{args[0]}, K: st.mapStamp(args[0]), T: intT}))
		case *types.Chan:
			return done(Sym("chanlen", intT))
		}
		return done(st.Norm(Len(args[0])))
	case "cap":
		switch u := at(0).Underlying().(type) {
		case *types.Array:
			return done(Int(u.Len()))
		case *types.Pointer:
			return done(Int(u.Elem().Underlying().(*types.Array).Len()))
		}
		return done(Cap(args[0]))
	case "append":
		return it.appendCall(st, in, args, isStr)
	case "copy":
		return it.copyCall(st, in, args[0], args[1], isStr(1))
	case "delete":
		st.event(Event{Kind: "mapdelete", Recv: args[0], Args: args[1:], Pos: in.Pos(), In: f.fn})
		st.MapStore(args[0], args[1], Op("mapdel"))
		f.idx++
		return nil, false
	case "clear":
		st.event(Event{Kind: "clear", Args: args, Pos: in.Pos(), In: f.fn})
		switch at(0).Underlying().(type) {
		case *types.Map:
			st.Havoc(args[0])
		default:
			r, _, _, _ := SliceParts(args[0])
			st.Havoc(r)
		}
		f.idx++
		return nil, false
	case "recover":
		// valid in a deferred function called while its caller panics
		n := len(st.frames)
		if n >= 2 && f.isDef && st.frames[n-2].panicking {
			st.frames[n-2].recovered = true
			v := st.PanicV
			if v == nil {
				v = NonNil("panicvalue", nil)
			}
			return done(v)
		}
		return done(Nil)
	case "ssa:wrapnilchk":
		it.nonNil(st, args[0], in.Pos(), "nil receiver")
		return done(args[0])
	case "print", "println", "close":
		st.event(Event{Kind: "call", Name: "builtin " + name, Args: args, Pos: in.Pos(), In: f.fn})
		f.idx++
		return nil, false
	case "min", "max":
		x := args[0]
		for i := 1; i < len(args); i++ {
			y := args[i]
			lt := Lt(y, x)
			if name == "max" {
				lt = Lt(x, y)
			}
			if v, k := st.Decide(lt); k {
				if v {
					x = y
				}
				continue
			}
			var outs []*State
			for _, b := range []bool{true, false} {
				n := st.clone()
				n.Conds = append(n.Conds, CondFact{lt, b, in.Pos()})
				if n.Assume(lt, b) {
					outs = append(outs, n)
				}
			}
			return outs, true
		}
		return done(x)
	case "panic":
		return it.panicNow(st, args[0], in.Pos())
	}
	it.problem("unsupported builtin %s in %v", name, f.fn)
	if in.Type() != nil {
		return done(Sym(name, in.Type()))
	}
	f.idx++
	return nil, false
}

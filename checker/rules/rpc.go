package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/eng"
)

// The client and the server are analysed with the codecs replaced by their
// contract (C01-C09 check the codecs themselves): coding a value either
// consumes or appends the bytes of that value, or fails.

// rpcEv is a coding step or a handler invocation.
type rpcEv struct {
	Op     string // encode, decode, handler; skip: the state had already failed
	Type   string // type coded, "" for an unknown Xdrable
	Val    *eng.Term
	XS     *eng.Term
	Failed bool        // the state had already failed
	Fails  bool        // the step fails
	In     *eng.Term   // remaining input, or output so far
	InP    []*eng.Term // its content
	Rest   []*eng.Term // content of what is left after decoding
	Enc    []*eng.Term // content appended by encoding
	EncLen *eng.Term
	ErrOK  bool      // the coding state is known to be good
	Res    *eng.Term // handler result
	HErr   *eng.Term
}

type rpcWorld struct {
	c       *Ctx
	k       *codecPkg
	handler map[*eng.Term]bool
	iface   map[*eng.Term]bool // service objects whose methods are procedures
	sticky  bool               // explore coding on already failed states
	pools   []types.Type
	poolNew bool
}

func (c *Ctx) rpcWorld() *rpcWorld {
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return nil
	}
	return c.loadedWorld()
}

// loadedWorld is rpcWorld once the packages are loaded.
func (c *Ctx) loadedWorld() *rpcWorld {
	s := c.oracle("rfc1057")
	if s == nil {
		return nil
	}
	k := c.newCodecPkg(c.Module+"/rfc1057", s)
	if k == nil {
		return nil
	}
	w := &rpcWorld{c: c, k: k, handler: map[*eng.Term]bool{}, iface: map[*eng.Term]bool{}}
	w.findPools()
	c.Assume = append(c.Assume,
		"a procedure handler returns (it neither panics nor blocks) and touches the coding state it is given only by decoding from it",
		"io.ReadFull, io.Writer, sync and encoding/binary behave as documented")
	return w
}

// findPools collects what sync.Pool objects may hold.
func (w *rpcWorld) findPools() {
	add := func(t types.Type) {
		for _, x := range w.pools {
			if types.Identical(x, t) {
				return
			}
		}
		w.pools = append(w.pools, t)
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(w.c.Prog) {
		if w.c.InRepo(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if f := in.Common().StaticCallee(); f != nil && eng.FuncName(f) == "(*sync.Pool).Put" {
						if mi, ok := in.Common().Args[1].(*ssa.MakeInterface); ok {
							add(mi.X.Type())
						} else {
							w.c.Fail("pool:"+fn.Name(), w.c.Pos(in.Pos()), "what is put into a pool is not known")
						}
					}
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
					if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" || n.Obj().Name() != "Pool" {
						continue
					}
					w.poolNew = true
					var f *ssa.Function
					switch v := in.Val.(type) {
					case *ssa.Function:
						f = v
					case *ssa.MakeClosure:
						f = v.Fn.(*ssa.Function)
					}
					if f == nil {
						continue
					}
					for _, b := range f.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
								add(mi.X.Type())
							}
						}
					}
				}
			}
		}
	}
}

// modeOf asks the coding state which way it codes.
func (w *rpcWorld) modeOf(st *eng.State, xs *eng.Term) (mode, bool) {
	fn := w.c.Method("xdr", "XdrState", "Decoding")
	if fn == nil {
		w.c.Fail("anchor:Decoding", "xdr", "Decoding was not found")
		return encode, false
	}
	outs := w.c.Interp().Run(st, fn, []*eng.Term{xs})
	if len(outs) != 1 || outs[0].Ret == nil {
		return encode, false
	}
	v, known := st.Decide(outs[0].Ret)
	if v {
		return decode, known
	}
	return encode, known
}

// bufField is the []byte field of the coding state.
func (w *rpcWorld) bufField(st *eng.State, xs *eng.Term) (a *eng.Term, t types.Type) {
	w.k.xsFields(func(i int, f *types.Var) {
		if types.Identical(f.Type().Underlying(), bytesT) && a == nil {
			a, t = eng.Field(xs, i, f.Name(), f.Type()), f.Type()
		}
	})
	return
}

// codeStep is the contract of coding one value.
func (w *rpcWorld) codeStep(call *eng.Call, typ string, nt types.Type, loc, xs *eng.Term, st0 *eng.State) []eng.Outcome {
	c := w.c
	prep := func(st *eng.State, failed bool) (*rpcEv, mode, *eng.Term, types.Type) {
		m, ok := w.modeOf(st, xs)
		if !ok && !failed {
			c.Fail("mode", c.Pos(call.Pos), "whether %s encodes or decodes is not known", typ)
		}
		a, at := w.bufField(st, xs)
		if a == nil {
			c.Fail("anchor:XdrState", "xdr", "XdrState holds no byte slice")
			return nil, m, nil, nil
		}
		ev := &rpcEv{Op: m.String(), Type: typ, XS: xs, In: st.Load(a, at)}
		ev.InP, _ = st.SliceContent(ev.In)
		if failed {
			// a failed state does not tell which way it was coding
			ev.Op = "skip"
			ev.Failed = true
			return ev, m, a, at
		}
		if m == encode {
			if nt != nil {
				ev.Val = st.Load(loc, nt)
			} else {
				ev.Val = loc
			}
		}
		return ev, m, a, at
	}
	emit := func(st *eng.State, ev *rpcEv) {
		st.Emit(eng.Event{Kind: "rpc", Name: ev.Op + " " + typ, Pos: call.Pos, In: call.In, Data: ev})
	}
	onFailed := func(st *eng.State) (*eng.Term, bool) {
		if !st.Assume(eng.Eq(c.errorOf(st, xs), eng.Nil), false) || !st.Feasible() {
			return nil, false
		}
		ev, _, a, _ := prep(st, true)
		if a == nil {
			return nil, false
		}
		emit(st, ev)
		return nil, true
	}
	good := func(st *eng.State) bool {
		return st.Assume(eng.Eq(c.errorOf(st, xs), eng.Nil), true) && st.Feasible()
	}
	onOK := func(st *eng.State) (*eng.Term, bool) {
		if !good(st) {
			return nil, false
		}
		ev, m, a, at := prep(st, false)
		if a == nil {
			return nil, false
		}
		ev.ErrOK = true
		min := int64(0)
		if nt != nil && typ != "" && w.k.goRef[typ] != "" {
			min = w.k.spec.MinWire(&RType{Kind: "name", Name: w.k.goRef[typ]})
		}
		if m == decode {
			r, o, n, cp := eng.SliceParts(ev.In)
			h := eng.Sym("coded", intTy)
			if !st.AddGE(h, eng.Int(min)) || !st.AddGE(n, h) || r.IsNil() && !st.Assume(eng.Eq(h, eng.Int(0)), true) {
				return nil, false
			}
			rest := eng.MkSlice(r, st.Norm(eng.Add(o, h)), st.Norm(eng.Sub(n, h)), st.Norm(eng.Sub(cp, h)))
			st.Store(a, rest, at)
			ev.Rest, _ = st.SliceContent(rest)
			if nt != nil {
				ev.Val = eng.SymOf("dec."+typ, nt)
				st.Store(loc, ev.Val, nt)
				st.Assume(eng.Eq(loc, eng.Nil), false)
			} else {
				st.HavocReach(loc)
				ev.Val = loc
			}
		} else {
			enc := eng.Sym("enc", bytesT)
			st.AddGE(eng.Len(enc), eng.Int(min))
			ev.Enc, _ = st.SliceContent(enc)
			ev.EncLen = eng.Len(enc)
			total := st.Norm(eng.Add(eng.Len(ev.In), eng.Len(enc)))
			st.Store(a, st.NewSlice("wbuf", byteTy, append(append([]*eng.Term{}, ev.InP...), ev.Enc...), total), at)
		}
		emit(st, ev)
		return nil, true
	}
	onFail := func(st *eng.State) (*eng.Term, bool) {
		if !good(st) {
			return nil, false
		}
		ev, m, a, _ := prep(st, false)
		if a == nil {
			return nil, false
		}
		ev.ErrOK = true
		ev.Fails = true
		emit(st, ev)
		if m == decode {
			if nt != nil {
				st.Havoc(loc)
			} else {
				st.HavocReach(loc)
			}
		}
		w.k.failState(st, xs, m)
		return nil, true
	}
	return []eng.Outcome{onFailed, onOK, onFail}
}

// hook is the modular semantics of an RPC run.
func (w *rpcWorld) hook(st *eng.State, call *eng.Call) ([]eng.Outcome, bool) {
	c := w.c
	xsT := types.NewPointer(c.Type("xdr", "XdrState"))
	if call.Kind == "go" {
		return nil, false
	}
	if call.Invoke && call.Obj.Name() == "Xdr" && len(call.Args) == 1 && types.Identical(call.Obj.Type().(*types.Signature).Params().At(0).Type(), xsT) {
		call.Interp().NonNil(st, call.Recv, call.Pos, "call on nil interface")
		return w.codeStep(call, "", nil, call.Recv, call.Args[0], st), true
	}
	if call.Fn != nil && call.Fn.Name() == "Xdr" && len(call.Args) == 2 && call.Fn.Signature.Recv() != nil && types.Identical(call.Fn.Signature.Params().At(0).Type(), xsT) {
		if pt, ok := call.Fn.Signature.Recv().Type().(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && c.repoPath(n.Obj().Pkg().Path()) && n.Obj().Pkg().Path() != c.pkgPath("xdr") {
				return w.codeStep(call, n.Obj().Name(), n, call.Args[0], call.Args[1], st), true
			}
		}
	}
	if call.Invoke && w.iface[call.Recv] {
		return []eng.Outcome{func(st *eng.State) (*eng.Term, bool) {
			res := call.Fresh(st)
			st.Emit(eng.Event{Kind: "proc", Name: call.Obj.Name(), Fn: call.Obj, Recv: call.Recv, Args: call.Args, Res: res, Pos: call.Pos, In: call.In})
			return res, true
		}}, true
	}
	if call.Name == "" && !call.Invoke && w.handler[call.Recv] && len(call.Args) == 1 {
		return w.handlerCall(call), true
	}
	if call.Name == "(*sync.Pool).Get" {
		var outs []eng.Outcome
		get := func(v func(st *eng.State) *eng.Term) {
			outs = append(outs, func(st *eng.State) (*eng.Term, bool) {
				r := v(st)
				st.Emit(eng.Event{Kind: "call", Name: call.Name, Args: call.Args, Res: r, Pos: call.Pos, In: call.In})
				return r, true
			})
		}
		if !w.poolNew {
			get(func(*eng.State) *eng.Term { return eng.Nil })
		}
		for _, t := range w.pools {
			t := t
			get(func(st *eng.State) *eng.Term {
				s := eng.Sym("pooled", t)
				if _, ok := t.Underlying().(*types.Pointer); ok {
					st.Assume(eng.Eq(s, eng.Nil), false)
				}
				return eng.Iface(t, s)
			})
		}
		return outs, true
	}
	return nil, false
}

// handlerCall is the contract of a registered handler.
func (w *rpcWorld) handlerCall(call *eng.Call) []eng.Outcome {
	c := w.c
	mk := func(fails bool) eng.Outcome {
		return func(st *eng.State) (*eng.Term, bool) {
			xs := call.Args[0]
			ev := &rpcEv{Op: "handler", XS: xs, Val: call.Recv}
			a, at := w.bufField(st, xs)
			if a == nil {
				return nil, false
			}
			ev.In = st.Load(a, at)
			ev.InP, _ = st.SliceContent(ev.In)
			ev.ErrOK = outcome(st, c.errorOf(st, xs)) == "ok"
			if m, ok := w.modeOf(st, xs); !ok || m != decode {
				ev.ErrOK = false
			}
			tt := call.RType.(*types.Tuple)
			ev.Res = eng.Sym("result", tt.At(0).Type())
			ev.HErr = eng.Nil
			if fails {
				ev.HErr = eng.NonNil("handlererr", tt.At(1).Type())
			}
			r, o, n, cp := eng.SliceParts(ev.In)
			h := eng.Sym("args", intTy)
			st.AddGE(h, eng.Int(0))
			st.AddGE(n, h)
			st.Store(a, eng.MkSlice(r, st.Norm(eng.Add(o, h)), st.Norm(eng.Sub(n, h)), st.Norm(eng.Sub(cp, h))), at)
			w.k.xsFields(func(i int, f *types.Var) {
				if types.IsInterface(f.Type()) {
					st.Store(eng.Field(xs, i, f.Name(), f.Type()), eng.Sym("argerr", f.Type()), f.Type())
				}
			})
			st.Emit(eng.Event{Kind: "rpc", Name: "handler", Pos: call.Pos, In: call.In, Data: ev})
			return eng.Op("tuple", ev.Res, ev.HErr), true
		}
	}
	return []eng.Outcome{mk(false), mk(true)}
}

func (w *rpcWorld) interp() *eng.Interp {
	it := w.c.Interp()
	it.Hook = w.hook
	return it
}

// ---- the server ----

type reg struct {
	prog, vers, proc, h *eng.Term
}

// srvRun is one registration history followed by Run.
type srvRun struct {
	w     *rpcWorld
	name  string
	regs  []reg
	rw    *eng.Term
	s     *eng.Term
	run   *ssa.Function
	start int64 // objects older than this existed before Run
	paths []*srvPath
}

// srvPath is one abstract path of Run or of a goroutine it starts.
type srvPath struct {
	r      *srvRun
	st     *eng.State
	thread bool
	evs    []eng.Event // of this iteration
	goAt   int         // index of the go event in evs, -1 if none
	loop   int64       // objects newer than this belong to this iteration
	looped bool
	head   eng.LoopInfo
}

// writes lists the locations this path writes: in this iteration, or on
// behalf of the request.
func (p *srvPath) writes() []*eng.Term {
	if p.looped && !p.thread {
		return p.st.WritesSince(p.head)
	}
	return p.st.Writes()
}

func (p *srvPath) String() string {
	s := p.r.name
	if p.thread {
		s += ", request"
	}
	return s
}

func (w *rpcWorld) regsOf(k int, same string) []reg {
	u := types.Typ[types.Uint32]
	ht := w.c.Type("rfc1057", "ProcHandler")
	if ht == nil {
		ht = types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	var rs []reg
	for i := 0; i < k; i++ {
		r := reg{prog: eng.Sym(fmt.Sprintf("prog%d", i+1), u), vers: eng.Sym(fmt.Sprintf("vers%d", i+1), u), proc: eng.Sym(fmt.Sprintf("proc%d", i+1), u), h: eng.Sym(fmt.Sprintf("handler%d", i+1), ht)}
		if i > 0 && strings.Contains(same, "prog") {
			r.prog = rs[0].prog
		}
		w.handler[r.h] = true
		rs = append(rs, r)
	}
	return rs
}

// server analyses Run after every registration history considered.
func (w *rpcWorld) server() []*srvRun {
	c := w.c
	mks, reg1, regm, run := c.Func("rfc1057", "MakeServer"), c.Method("rfc1057", "Server", "Register"), c.Method("rfc1057", "Server", "RegisterMany"), c.Method("rfc1057", "Server", "Run")
	for n, f := range map[string]*ssa.Function{"MakeServer": mks, "(*Server).Register": reg1, "(*Server).RegisterMany": regm, "(*Server).Run": run} {
		if f == nil {
			c.Fail("anchor:"+n, "rfc1057", "%s was not found", n)
			return nil
		}
	}
	var rs []*srvRun
	type hist struct {
		name, how, same string
		n               int
	}
	for _, h := range []hist{
		{"no registration", "one", "", 0},
		{"one registration", "one", "", 1},
		{"two registrations", "one", "", 2},
		{"two registrations at once", "many", "", 2},
		{"three registrations of a program", "one", "prog", 3},
	} {
		if (c.ID != "C13") && h.n == 3 {
			continue
		}
		st, s := c.single(eng.NewState(), mks)
		if st == nil {
			return nil
		}
		regs := w.regsOf(h.n, h.same)
		states := []*eng.State{st}
		step := func(fn *ssa.Function, args []*eng.Term) {
			var next []*eng.State
			for _, st := range states {
				it := w.interp()
				for _, o := range c.Run(it, st, fn, args) {
					c.obligations(o, fn.Name())
					if c.Check(o.Exit == "return", "exit:"+fn.Name(), c.FnPos(fn), "%s ends in %s", fn.Name(), o.Exit) {
						next = append(next, o)
					}
				}
				c.Problems(it, fn.Name())
			}
			states = next
		}
		if h.how == "one" {
			for _, r := range regs {
				step(reg1, []*eng.Term{s, r.prog, r.vers, r.proc, r.h})
			}
		} else {
			pt := c.Type("xdr", "ProcRegistration")
			var es []*eng.Term
			for _, r := range regs {
				vals := map[string]*eng.Term{"Prog": r.prog, "Vers": r.vers, "Proc": r.proc, "Handler": r.h}
				u, _ := pt.Underlying().(*types.Struct)
				var fs []*eng.Term
				for i := 0; i < u.NumFields(); i++ {
					v := vals[u.Field(i).Name()]
					if v == nil {
						v = eng.Zero(u.Field(i).Type())
					}
					fs = append(fs, v)
				}
				es = append(es, eng.Op("elemval", eng.Op("struct", fs...)))
			}
			sl := st.NewSlice("regs", pt, es, eng.Int(int64(len(es))))
			step(regm, []*eng.Term{s, sl})
		}
		for _, st := range states {
			conds := st.Conds
			st.ResetTrace()
			st.Conds = conds
			r := &srvRun{w: w, name: h.name, regs: regs, s: s, run: run}
			r.rw = eng.NamedSym("rw", run.Signature.Params().At(0).Type())
			st.Assume(eng.Eq(r.rw, eng.Nil), false)
			r.start = eng.FreshID()
			it := w.interp()
			for _, o := range c.Run(it, st, run, []*eng.Term{s, r.rw}) {
				r.paths = append(r.paths, r.path(o))
			}
			c.Problems(it, "Run")
			rs = append(rs, r)
		}
	}
	return rs
}

func (r *srvRun) path(st *eng.State) *srvPath {
	p := &srvPath{r: r, st: st, thread: st.Thread != 0, goAt: -1, loop: r.start}
	p.evs = st.Events
	for i, e := range st.Events {
		if e.Kind == "loophead" && (e.In == r.run || r.w.c.loopCalls(e)) {
			li := e.Data.(eng.LoopInfo)
			p.loop = int64(li.ID)
			p.evs = st.Events[i+1:]
			p.looped = true
			p.head = li
			break
		}
	}
	for i, e := range p.evs {
		if e.Kind == "go" {
			p.goAt = i
			break
		}
	}
	return p
}

// loopCalls: reserved for loops of helpers of Run.
func (c *Ctx) loopCalls(e eng.Event) bool { return e.Dep == 1 }

// requests are the paths on which a record was received and processed.
func (r *srvRun) requests() []*srvPath {
	var ps []*srvPath
	for _, p := range r.paths {
		if p.thread || p.goAt < 0 && p.st.Exit == "loopback" {
			ps = append(ps, p)
		}
	}
	return ps
}

func (p *srvPath) rpc(op, typ string) []*rpcEv {
	var r []*rpcEv
	for _, e := range p.evs {
		if ev, ok := e.Data.(*rpcEv); ok && e.Kind == "rpc" && (op == "" || ev.Op == op) && (typ == "*" || ev.Type == typ) {
			r = append(r, ev)
		}
	}
	return r
}

func (p *srvPath) events(kind string) []eng.Event {
	var r []eng.Event
	for _, e := range p.evs {
		if e.Kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// pick selects a field of a struct value by path.
func pick(v *eng.Term, t types.Type, path string) (*eng.Term, types.Type) {
	for _, n := range strings.Split(path, ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok || v == nil {
			return nil, nil
		}
		found := false
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				if v.Op == "struct" && i < len(v.Args) {
					v = v.Args[i]
				} else {
					v = eng.OpN("fld", fmt.Sprint(i), s.Field(i).Type(), v)
				}
				t = s.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil, nil
		}
	}
	return v, t
}

func (w *rpcWorld) msg(v *eng.Term, path string) *eng.Term {
	t := w.c.Type("rfc1057", "Rpc_msg")
	if t == nil {
		w.c.Fail("anchor:Rpc_msg", "rfc1057", "Rpc_msg was not found")
		return eng.Nil
	}
	x, _ := pick(v, t, path)
	if x == nil {
		w.c.Fail("anchor:Rpc_msg."+path, "rfc1057", "Rpc_msg has no %s", path)
		return eng.Nil
	}
	return x
}

func (w *rpcWorld) num(n string) int64 {
	v, ok := w.k.spec.Val(n)
	if !ok {
		w.c.Fail("oracle:"+n, "oracle/rfc1057.x", "%s is not defined", n)
	}
	return v
}

// refine splits a path until every condition is decided.
func refine(st *eng.State, conds []*eng.Term) []*eng.State {
	out := []*eng.State{st}
	for _, c := range conds {
		var next []*eng.State
		for _, s := range out {
			if _, known := s.Decide(c); known {
				next = append(next, s)
				continue
			}
			for _, b := range []bool{true, false} {
				n := s.Clone()
				if n.Assume(c, b) && n.Feasible() {
					next = append(next, n)
				}
			}
		}
		out = next
	}
	return out
}

func is(st *eng.State, c *eng.Term) bool {
	v, k := st.Decide(c)
	return k && v
}

func isNot(st *eng.State, c *eng.Term) bool {
	v, k := st.Decide(c)
	return k && !v
}

// header is the decoded call header, nil if none decoded.
func (p *srvPath) header() *rpcEv {
	for _, e := range p.rpc("decode", "Rpc_msg") {
		if !e.Fails && !e.Failed {
			return e
		}
	}
	return nil
}

// written is everything written to the connection; cut tells that the last
// write failed, so that the rest was rightly not written.
func (p *srvPath) written() (n int, pieces []*eng.Term, ok, cut bool) {
	ok = true
	for _, e := range p.events("write") {
		if e.Recv != p.r.rw {
			continue
		}
		n++
		if cut {
			ok = false // writes on after a failure
		}
		w := e.Data.(eng.Written)
		pieces = append(pieces, w.Pieces...)
		ok = ok && w.OK
		v, known := writeOK(p.st, e)
		cut = known && !v
	}
	return
}

// sameWritten compares what was written with what should be; a failed write
// may leave out the end.
func sameWritten(st *eng.State, a, b []*eng.Term, cut bool) bool {
	if samePieces(st, a, b) {
		return true
	}
	a, b = normPieces(st, a), normPieces(st, b)
	return cut && len(a) < len(b) && samePieces(st, a, b[:len(a)])
}

// encoded lists the successful encoding steps of the reply.
func (p *srvPath) encoded() (ev []*rpcEv, pieces []*eng.Term, total *eng.Term, failed bool) {
	total = eng.Int(0)
	for _, e := range p.rpc("encode", "*") {
		if e.Failed || e.Fails {
			failed = true
			continue
		}
		ev = append(ev, e)
		pieces = append(pieces, e.Enc...)
		total = eng.Add(total, e.EncLen)
	}
	return
}

// tooLong: the message does not fit a record.
func tooLong(st *eng.State, n *eng.Term) bool { return st.ProvesGE(n, eng.Int(1<<31)) }

func init() {
	Checks["C11"] = checkC11
	Checks["C12"] = checkC12
	Checks["C13"] = checkC13
	Checks["C14"] = checkC14
	Checks["C15"] = checkC15
	Checks["C16"] = checkC16
	Checks["C17"] = checkC17
	Checks["C18"] = checkC18
}

func (c *Ctx) eachRequest(f func(p *srvPath)) *rpcWorld {
	w := c.rpcWorld()
	if w == nil {
		return nil
	}
	n := 0
	for _, r := range w.server() {
		for _, p := range r.requests() {
			n++
			f(p)
		}
	}
	c.Check(n > 0, "requests", "rfc1057", "no path of Run processes a request")
	return w
}

func (p *srvPath) where() string {
	// the function started for the request, else Run
	c := p.r.w.c
	for i := len(p.evs) - 1; i >= 0; i-- {
		if p.evs[i].Kind == "rpc" || p.evs[i].Kind == "write" {
			return c.Pos(p.evs[i].Pos)
		}
	}
	return c.FnPos(p.r.run)
}

func checkC12(c *Ctx) {
	c.Rule = append(c.Rule, "Run and every goroutine it starts are analysed path by path for 0, 1 and 2 symbolic registrations. On every path on which the call header decoded and is a CALL, the bytes handed to the connection are exactly one reply: one encoded Rpc_msg whose xid is the decoded xid and whose type is REPLY; if an encoding step failed or the message is longer than 2^31-1 bytes nothing is written and something is printed. On all other paths nothing is written, and decoding the record is tried on every path unless it is too short for a call.")
	c.eachRequest(func(p *srvPath) {
		w := p.r.w
		if p.st.Exit != "return" && p.st.Exit != "loopback" {
			c.Check(false, "exit", p.where(), "%v: processing a request ends in %s %s", p, p.st.Exit, describe(p.st))
			return
		}
		h := p.header()
		n, pieces, ok, cut := p.written()
		if h == nil {
			c.Check(n == 0, "undecoded", p.where(), "%v: a reply is written although the header did not decode %s", p, describe(p.st))
			c.Check(p.tried(), "ignored", p.where(), "%v: a record that may hold a call is dropped without decoding it %s", p, describe(p.st))
			return
		}
		isCall := eng.Eq(w.msg(h.Val, "Body.Mtype"), eng.Int(w.num("CALL")))
		for _, st := range refine(p.st, []*eng.Term{isCall}) {
			if isNot(st, isCall) {
				c.Check(n == 0, "notcall", p.where(), "%v: a reply is written to a message that is not a call %s", p, describe(st))
				continue
			}
			ev, encP, total, failed := p.encoded()
			if n == 0 {
				c.Check(failed || len(ev) > 0 && tooLong(st, total), "noreply", p.where(), "%v: no reply is written although nothing prevents it %s", p, describe(st))
				if failed || len(ev) > 0 {
					c.Check(p.reported(), "unreported", p.where(), "%v: the reply is dropped without reporting the failure %s", p, describe(st))
				}
				continue
			}
			c.Check(!failed, "afterfailure", p.where(), "%v: a reply is written although encoding it failed %s", p, describe(st))
			c.Check(!tooLong(st, total), "toolong", p.where(), "%v: a reply that does not fit a record is written %s", p, describe(st))
			replies := 0
			for _, e := range ev {
				if e.Type != "Rpc_msg" {
					continue
				}
				replies++
				c.Check(st.ProvesEq(w.msg(e.Val, "Xid"), w.msg(h.Val, "Xid")), "xid", p.where(), "%v: the reply carries xid %v, the call %v %s", p, w.msg(e.Val, "Xid"), w.msg(h.Val, "Xid"), describe(st))
				c.Check(st.ProvesEq(w.msg(e.Val, "Body.Mtype"), eng.Int(w.num("REPLY"))), "mtype", p.where(), "%v: the reply has message type %v %s", p, w.msg(e.Val, "Body.Mtype"), describe(st))
			}
			c.Check(replies == 1, "one", p.where(), "%v: %d messages are encoded for one call %s", p, replies, describe(st))
			if c.Check(ok && len(pieces) >= 4, "content", p.where(), "%v: what is written is not known %s", p, describe(st)) {
				c.Check(sameWritten(st, pieces[4:], encP, cut), "content", p.where(), "%v: what is written (%v) is not one record with the encoded reply (%v) %s", p, pieces, encP, describe(st))
			}
			c.Sample("%v %s: one reply, %d write(s)", p, describe(st), n)
		}
	})
}

// tried: decoding the record as a message was tried, or it is too short for
// a call (whose fixed fields take 40 bytes).
func (p *srvPath) tried() bool {
	for _, e := range p.rpc("", "Rpc_msg") {
		if e.Op == "decode" {
			return true
		}
	}
	reads := p.events("read")
	return len(reads) > 0 && p.st.ProvesGE(eng.Int(39), eng.Len(reads[len(reads)-1].Args[0]))
}

// reported: a failure is printed or returned after the last coding step.
func (p *srvPath) reported() bool {
	seen := false
	for _, e := range p.evs {
		if e.Kind == "print" {
			seen = true
		}
		if e.Kind == "rpc" {
			seen = false
		}
	}
	return seen
}

func checkC13(c *Ctx) {
	c.Rule = append(c.Rule, "For 0, 1, 2 and (one program) 3 registrations with symbolic numbers, every path of the request handler is compared with the outcome RFC 1057 prescribes: the path's facts are split on the RPC version and on each equality between the request's and a registration's program, version and procedure number, and in each case the encoded reply must hold exactly the prescribed status, the lowest and highest registered versions, or SUCCESS followed by the result of the handler registered last under these numbers, and an accepted reply the null verifier, and the reply must be written unless it could not be encoded or framed; in all other cases no handler runs.")
	c.eachRequest(func(p *srvPath) {
		w := p.r.w
		h := p.header()
		if h == nil {
			c.Check(len(p.rpc("handler", "*")) == 0, "undecoded", p.where(), "%v: a handler runs although the header did not decode %s", p, describe(p.st))
			return
		}
		prog, vers, proc := w.msg(h.Val, "Body.Cbody.Prog"), w.msg(h.Val, "Body.Cbody.Vers"), w.msg(h.Val, "Body.Cbody.Proc")
		isCall := eng.Eq(w.msg(h.Val, "Body.Mtype"), eng.Int(w.num("CALL")))
		v2 := eng.Eq(w.msg(h.Val, "Body.Cbody.Rpcvers"), eng.Int(2))
		conds := []*eng.Term{isCall, v2}
		for _, r := range p.r.regs {
			conds = append(conds, eng.Eq(prog, r.prog), eng.Eq(vers, r.vers), eng.Eq(proc, r.proc))
		}
		for _, st := range refine(p.st, conds) {
			p.outcome13(st, h, isCall, v2, prog, vers, proc)
		}
	})
}

func (p *srvPath) outcome13(st *eng.State, h *rpcEv, isCall, v2, prog, vers, proc *eng.Term) {
	c, w := p.r.w.c, p.r.w
	hs := p.rpc("handler", "*")
	if isNot(st, isCall) {
		c.Check(len(hs) == 0, "notcall", p.where(), "%v: a handler runs for a message that is not a call %s", p, describe(st))
		return
	}
	ev, _, _, _ := p.encoded()
	var rep *eng.Term
	for _, e := range ev {
		if e.Type == "Rpc_msg" {
			rep = e.Val
		}
	}
	// what RFC 1057 prescribes
	want := ""
	progOK, versOK := false, false
	var match []reg
	var low []*eng.Term
	for _, r := range p.r.regs {
		if !is(st, eng.Eq(prog, r.prog)) {
			continue
		}
		progOK = true
		low = append(low, r.vers)
		if !is(st, eng.Eq(vers, r.vers)) {
			continue
		}
		versOK = true
		if is(st, eng.Eq(proc, r.proc)) {
			match = append(match, r)
		}
	}
	switch {
	case isNot(st, v2):
		want = "RPC_MISMATCH"
	case !progOK:
		want = "PROG_UNAVAIL"
	case !versOK:
		want = "PROG_MISMATCH"
	case len(match) == 0:
		want = "PROC_UNAVAIL"
	}
	if want != "" {
		c.Check(len(hs) == 0, "dispatch:"+want, p.where(), "%v: a handler runs where the answer is %s %s", p, want, describe(st))
	} else {
		if !c.Check(len(hs) == 1, "nodispatch", p.where(), "%v: %d handlers run for a registered procedure %s", p, len(hs), describe(st)) {
			return
		}
		old := false
		for _, r := range match[:len(match)-1] {
			old = old || hs[0].Val == r.h
		}
		c.Check(!old, "oldhandler", p.where(), "%v: handler %v runs, whose registration was replaced by a later one under the same numbers %s", p, hs[0].Val, describe(st))
		c.Check(old || hs[0].Val == match[len(match)-1].h, "wronghandler", p.where(), "%v: handler %v runs, which is not registered under the numbers of the call %s", p, hs[0].Val, describe(st))
		want = "SUCCESS"
		if !is(st, eng.Eq(hs[0].HErr, eng.Nil)) {
			want = "GARBAGE_ARGS"
		}
	}
	if n, _, _, _ := p.written(); n == 0 || rep == nil {
		_, _, total, failed := p.encoded()
		c.Check(failed || rep != nil && tooLong(st, total), "unanswered:"+want, p.where(), "%v: no answer is given where it should be %s %s", p, want, describe(st))
		if rep == nil {
			return // encoding failed
		}
	}
	eq := func(path string, n int64) bool { return st.ProvesEq(w.msg(rep, path), eng.Int(n)) }
	val := func(path string) *eng.Term { return w.msg(rep, path) }
	key := "status:" + want
	if want == "RPC_MISMATCH" {
		c.Check(eq("Body.Rbody.Stat", w.num("MSG_DENIED")) && eq("Body.Rbody.Rreply.Stat", w.num("RPC_MISMATCH")), key, p.where(), "%v: a call with another RPC version is answered with stat %v, reject stat %v %s", p, val("Body.Rbody.Stat"), val("Body.Rbody.Rreply.Stat"), describe(st))
		c.Check(eq("Body.Rbody.Rreply.Mismatch_info.Low", 2) && eq("Body.Rbody.Rreply.Mismatch_info.High", 2), key+":range", p.where(), "%v: RPC_MISMATCH reports versions %v to %v %s", p, val("Body.Rbody.Rreply.Mismatch_info.Low"), val("Body.Rbody.Rreply.Mismatch_info.High"), describe(st))
	} else {
		c.Check(eq("Body.Rbody.Stat", w.num("MSG_ACCEPTED")) && eq("Body.Rbody.Areply.Reply_data.Stat", w.num(want)), key, p.where(), "%v: the call is answered with stat %v, accept stat %v instead of %s %s", p, val("Body.Rbody.Stat"), val("Body.Rbody.Areply.Reply_data.Stat"), want, describe(st))
		c.Check(eq("Body.Rbody.Areply.Verf.Flavor", w.num("AUTH_NONE")) && st.ProvesEq(eng.Len(val("Body.Rbody.Areply.Verf.Body")), eng.Int(0)), "verf:"+want, p.where(), "%v: the reply carries a verifier of flavor %v and length %v, which the server cannot vouch for %s", p, val("Body.Rbody.Areply.Verf.Flavor"), eng.Len(val("Body.Rbody.Areply.Verf.Body")), describe(st))
	}
	if want == "PROG_MISMATCH" {
		lo, hi := val("Body.Rbody.Areply.Reply_data.Mismatch_info.Low"), val("Body.Rbody.Areply.Reply_data.Mismatch_info.High")
		okLo, okHi := false, false
		allLo, allHi := true, true
		for _, v := range low {
			okLo = okLo || st.ProvesEq(lo, v)
			okHi = okHi || st.ProvesEq(hi, v)
			allLo = allLo && st.ProvesGE(v, lo)
			allHi = allHi && st.ProvesGE(hi, v)
		}
		c.Check(okLo && allLo, key+":low", p.where(), "%v: PROG_MISMATCH reports lowest version %v %s", p, lo, describe(st))
		c.Check(okHi && allHi, key+":high", p.where(), "%v: PROG_MISMATCH reports highest version %v %s", p, hi, describe(st))
	}
	// result data
	var data []*rpcEv
	pos := -1
	for i, e := range ev {
		if e.Type == "Rpc_msg" {
			pos = i
			continue
		}
		data = append(data, e)
	}
	if want != "SUCCESS" {
		c.Check(len(data) == 0, "data:"+want, p.where(), "%v: result data follow a reply with status %s %s", p, want, describe(st))
		return
	}
	res := hs[0].Res
	_, _, _, failed := p.encoded()
	if is(st, eng.Eq(res, eng.Nil)) {
		c.Check(len(data) == 0, "data:SUCCESS", p.where(), "%v: data follow a reply without result", p)
	} else if !failed {
		c.Check(len(data) == 1 && data[0].Val == res && pos == 0, "data:SUCCESS", p.where(), "%v: the result of the handler does not follow the reply header %s", p, describe(st))
	}
	c.Sample("%v %s: %s", p, describe(st), want)
}

func checkC11(c *Ctx) {
	c.Rule = append(c.Rule, "On every path of the server a handler runs at most once, only after the call header decoded without error, with a coding state known to be good and holding exactly the bytes after the header; when it reports an error a reply that says GARBAGE_ARGS, with nothing after it, is encoded and written unless an encoding step failed. In every generated wrapper the procedure is invoked at most once, only on paths where every argument decoded, and paths where decoding failed return an error.")
	w := c.eachRequest(func(p *srvPath) {
		w := p.r.w
		hs := p.rpc("handler", "*")
		c.Check(len(hs) <= 1, "once", p.where(), "%v: %d handlers run for one call %s", p, len(hs), describe(p.st))
		if len(hs) == 0 {
			return
		}
		hd := p.header()
		if !c.Check(hd != nil, "undecoded", p.where(), "%v: a handler runs although the header did not decode %s", p, describe(p.st)) {
			return
		}
		for _, h := range hs {
			c.Check(h.ErrOK, "state", p.where(), "%v: the handler is given a coding state that may have failed %s", p, describe(p.st))
			c.Check(samePieces(p.st, h.InP, hd.Rest), "args", p.where(), "%v: the handler decodes from %v instead of the bytes after the header %v %s", p, h.InP, hd.Rest, describe(p.st))
			if !isNot(p.st, eng.Eq(h.HErr, eng.Nil)) {
				continue
			}
			ev, _, total, failed := p.encoded()
			if n, _, _, _ := p.written(); n == 0 {
				c.Check(failed || len(ev) > 0 && tooLong(p.st, total), "untold", p.where(), "%v: the caller is not told that the arguments do not decode %s", p, describe(p.st))
			}
			for i, e := range ev {
				if e.Type != "Rpc_msg" {
					c.Check(false, "data", p.where(), "%v: result data are sent although the arguments did not decode", p)
					continue
				}
				st := p.st
				c.Check(i == 0 && st.ProvesEq(w.msg(e.Val, "Body.Rbody.Stat"), eng.Int(w.num("MSG_ACCEPTED"))) && st.ProvesEq(w.msg(e.Val, "Body.Rbody.Areply.Reply_data.Stat"), eng.Int(w.num("GARBAGE_ARGS"))),
					"garbage", p.where(), "%v: undecodable arguments are answered with accept stat %v %s", p, w.msg(e.Val, "Body.Rbody.Areply.Reply_data.Stat"), describe(st))
			}
		}
	})
	if w == nil {
		return
	}
	w.checkWrapped()
}

// checkWrapped: wrappers invoke procedures only with decoded arguments.
func (w *rpcWorld) checkWrapped() {
	c := w.c
	w.eachWrapper(func(x *wrapRun) {
		for _, st := range x.outs {
			if st.Exit != "return" {
				c.Check(false, "exit:"+x.key, x.pos, "%s ends in %s", x.key, st.Exit)
				continue
			}
			calls, ok := 0, true
			for _, e := range st.Events {
				switch e.Kind {
				case "proc":
					calls++
					c.Check(ok, "early:"+x.key, c.Pos(e.Pos), "%s invokes the procedure although its arguments have not decoded %s", x.key, describe(st))
				case "rpc":
					ev := e.Data.(*rpcEv)
					if ev.Op == "decode" || ev.Op == "skip" {
						c.Check(calls == 0, "late:"+x.key, c.Pos(e.Pos), "%s decodes after invoking the procedure", x.key)
						if ev.Failed || ev.Fails {
							ok = false
						}
					}
				}
			}
			c.Check(calls <= 1, "once:"+x.key, x.pos, "%s invokes the procedure %d times", x.key, calls)
			if st.Ret == nil || st.Ret.Op != "tuple" {
				continue
			}
			o := outcome(st, st.Ret.Args[1])
			if !ok {
				c.Check(o == "failed", "err:"+x.key, x.pos, "%s does not report that its arguments did not decode %s", x.key, describe(st))
			}
		}
	})
}

func checkC14(c *Ctx) {
	c.Rule = append(c.Rule, "Server and client paths: each record written is exactly a word proved equal to 2^31 plus the total length of the encoded pieces that follow, and that length is proved below 2^31; each record read is a 4-byte read followed by a read of exactly the length in the low 31 bits on paths where the top bit is proved set, and the decoder is given exactly the bytes read; a path on which a read failed or the bit is clear decodes nothing and, on the client, returns an error.")
	w := c.eachRequest(func(p *srvPath) {
		p.framing(c)
		reads := p.events("read")
		p.recordRead(c, reads)
	})
	if w == nil {
		return
	}
	for _, x := range w.client() {
		w.framing14(x)
	}
}

// framed checks one written record.
func (w *rpcWorld) framed(st *eng.State, pieces []*eng.Term, ok, cut bool, total *eng.Term, enc []*eng.Term, who, pos string) {
	c := w.c
	if !c.Check(ok && len(pieces) >= 4, "content:"+who, pos, "%s: what is written is not known %s", who, describe(st)) {
		return
	}
	hdr := st.BE(pieces[:4]...)
	n := st.Norm(total)
	c.Check(st.ProvesGE(eng.Int(1<<31-1), n), "fits:"+who, pos, "%s: a message of length %v is framed although it may not fit a record %s", who, n, describe(st))
	c.Check(st.ProvesEq(hdr, eng.Add(n, eng.Int(1<<31))), "header:"+who, pos, "%s: the record header is %v for a message of length %v %s", who, hdr, n, describe(st))
	c.Check(sameWritten(st, pieces[4:], enc, cut), "body:"+who, pos, "%s: the record holds %v instead of the encoded message %v %s", who, pieces[4:], enc, describe(st))
}

func (p *srvPath) framing(c *Ctx) {
	n, pieces, ok, cut := p.written()
	if n > 0 {
		_, enc, total, _ := p.encoded()
		p.r.w.framed(p.st, pieces, ok, cut, total, enc, "server", p.where())
	} else {
		_, _, total, failed := p.encoded()
		if !failed && p.st.ProvesGE(eng.Int(1<<31-1), total) {
			c.Oblig++
			c.Discharge++
		}
	}
	p.otherUse(c)
}

// otherUse reports uses of the connection the analysis does not understand.
func (p *srvPath) otherUse(c *Ctx) {
	p.r.w.otherUse(p.st, p.evs, p.r.rw, "server")
}

func (w *rpcWorld) otherUse(st *eng.State, evs []eng.Event, rw *eng.Term, who string) {
	for _, e := range evs {
		switch e.Kind {
		case "call", "invoke", "dyncall":
			uses := e.Recv == rw
			for x := range st.Reach(e.Args...) {
				uses = uses || x == rw
			}
			w.c.Check(!uses, "connection:"+who+":"+e.Name, w.c.Pos(e.Pos), "%s: the connection is used by %s, whose effect is not known", who, e.Name)
		}
	}
}

// readOK tells whether a read event succeeded.
func readOK(st *eng.State, e eng.Event) (ok, known bool) {
	if e.Res == nil || e.Res.Op != "tuple" {
		return false, false
	}
	return st.Decide(eng.Eq(e.Res.Args[1], eng.Nil))
}

// readFull tells whether a read event filled its whole buffer.
func readFull(st *eng.State, e eng.Event) (ok, known bool) {
	if ok, known = readOK(st, e); !ok || !known {
		return
	}
	return st.ProvesEq(e.Res.Args[0], eng.Len(e.Args[0])), true
}

// record checks the reading of one record and returns its bytes.
func (w *rpcWorld) record(st *eng.State, reads []eng.Event, rw *eng.Term, who, pos string) []*eng.Term {
	c := w.c
	if !c.Check(len(reads) == 2, "reads:"+who, pos, "%s: a message is decoded after %d complete reads (expected header and body) %s", who, len(reads), describe(st)) {
		return nil
	}
	for _, e := range reads {
		ok, known := readFull(st, e)
		if !c.Check(ok && known && e.Recv == rw, "shortread:"+who, c.Pos(e.Pos), "%s: decoding goes on although a read may have failed or was not from the connection %s", who, describe(st)) {
			return nil
		}
	}
	hw, _ := reads[0].Data.(eng.Written)
	bw, _ := reads[1].Data.(eng.Written)
	if !c.Check(hw.OK && len(hw.Pieces) == 4, "readheader:"+who, c.Pos(reads[0].Pos), "%s: the record header is not a 4-byte read %s", who, describe(st)) {
		return nil
	}
	hdr := st.BE(hw.Pieces...)
	c.Check(st.ProvesGE(hdr, eng.Int(1<<31)), "fragment:"+who, c.Pos(reads[0].Pos), "%s: a record not marked as last fragment is accepted %s", who, describe(st))
	n := eng.Len(reads[1].Args[0])
	c.Check(st.ProvesEq(n, eng.Sub(hdr, eng.Int(1<<31))), "readlength:"+who, c.Pos(reads[1].Pos), "%s: %v bytes are read for a record with header %v %s", who, n, hdr, describe(st))
	if !c.Check(bw.OK, "readbody:"+who, c.Pos(reads[1].Pos), "%s: the bytes read are not known", who) {
		return nil
	}
	if bw.Pieces == nil {
		return []*eng.Term{}
	}
	return bw.Pieces
}

func (p *srvPath) recordRead(c *Ctx, reads []eng.Event) {
	ds := p.rpc("decode", "*")
	if len(ds) == 0 {
		return
	}
	body := p.r.w.record(p.st, reads, p.r.rw, "server", p.where())
	if body == nil {
		return
	}
	c.Check(samePieces(p.st, ds[0].InP, body), "decoded:server", p.where(), "server: the decoder sees %v, the record holds %v %s", ds[0].InP, body, describe(p.st))
}

func checkC15(c *Ctx) {
	c.Rule = append(c.Rule, "On every path that processes a request, the connection is written by exactly one Write call, or every Write of the path happens while one and the same mutex shared by all requests of the connection is held; requests are started as goroutines; Run itself writes nothing.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n := 0
	for _, r := range w.server() {
		for _, p := range r.paths {
			var held []*eng.Term
			var common []*eng.Term
			writes := 0
			for _, e := range p.evs {
				switch e.Kind {
				case "sync":
					held = lockStep(held, e)
				case "write":
					if e.Recv != r.rw {
						continue
					}
					writes++
					if writes == 1 {
						common = append([]*eng.Term{}, held...)
					} else {
						var keep []*eng.Term
						for _, m := range common {
							for _, h := range held {
								if m == h {
									keep = append(keep, m)
								}
							}
						}
						common = keep
					}
				}
			}
			if !p.thread {
				c.Check(writes == 0 || p.goAt < 0, "main", c.FnPos(r.run), "Run writes to the connection while requests may be writing %s", describe(p.st))
			}
			if p.thread || writes > 0 {
				n++
				shared := false
				for _, m := range common {
					rt := eng.Root(m)
					if rt.Op == "global" || rt.Op != "alloc" || rt.K < p.loop {
						shared = true
					}
				}
				// a lock given up and taken again between the writes does not help
				c.Check(writes <= 1 || shared && !p.gap(), "writes", p.where(), "%v: the reply reaches the connection in %d writes that other replies can come between %s", p, writes, describe(p.st))
			}
			p.otherUse(c)
			if p.st.Exit == "loopback" && p.goAt < 0 && len(p.rpc("decode", "*")) > 0 {
				c.Check(false, "sequential", p.where(), "requests of a connection are processed one after the other %s", describe(p.st))
			}
		}
	}
	c.Check(n > 0, "requests", "rfc1057", "no path of Run processes a request")
}

// lockStep follows the set of mutexes held.
func lockStep(held []*eng.Term, e eng.Event) []*eng.Term {
	if len(e.Args) == 0 {
		return held
	}
	m := e.Args[0]
	switch e.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.Once).Do":
		return append(append([]*eng.Term{}, held...), m)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.Once).done":
		var r []*eng.Term
		for _, h := range held {
			if h != m {
				r = append(r, h)
			}
		}
		return r
	}
	return held
}

// gap: some mutex is released between two writes to the connection.
func (p *srvPath) gap() bool {
	writes, unlocked := 0, false
	for _, e := range p.evs {
		switch {
		case e.Kind == "write" && e.Recv == p.r.rw:
			if writes > 0 && unlocked {
				return true
			}
			writes++
		case e.Kind == "sync" && strings.HasSuffix(e.Name, "Unlock") && writes > 0:
			unlocked = true
		}
	}
	return false
}

// regionsOf lists the byte regions in a value put into a pool.
func (w *rpcWorld) regionsOf(st *eng.State, v *eng.Term) map[*eng.Term]bool {
	r := map[*eng.Term]bool{}
	for x := range st.Reach(v) {
		if x.Op == "slice" {
			r[x.Args[0]] = true
		} else if x.Op == "sym" || x.Op == "sel" {
			r[eng.Region(x)] = true
		}
	}
	return r
}

func checkC16(c *Ctx) {
	c.Rule = append(c.Rule, "The request buffer is the memory the record body is read into. On every path it comes from an allocation or a pool taken in the same iteration of the receive loop, is handed to one goroutine only, is put into a pool at most once and only by the request that owns it, after the last coding step, handler call and write of the path; the decoder sees exactly the bytes of its own record. The receive loop does not put or write a buffer it has handed over.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n := 0
	for _, r := range w.server() {
		for _, p := range r.paths {
			reads := p.events("read")
			if len(reads) < 2 {
				continue
			}
			buf := reads[len(reads)-1].Args[0]
			reg, _, ln, _ := eng.SliceParts(buf)
			if reg.IsNil() || is(p.st, eng.Eq(ln, eng.Int(0))) {
				continue
			}
			n++
			// origin
			org := eng.Root(reg)
			own := org.Op == "alloc" && org.K > p.loop
			if org.Op == "rgn" {
				for _, e := range p.evs {
					if e.Kind == "call" && e.Name == "(*sync.Pool).Get" && e.Res != nil && (e.Res.Contains(org.Args[0]) || org.Args[0].Contains(e.Res) || e.Res.Op == "iface" && org.Args[0].Contains(e.Res.Args[0])) {
						own = true
					}
				}
			}
			c.Check(own, "origin", c.Pos(reads[len(reads)-1].Pos), "%v: the record is read into %v, which is not a buffer taken for this record %s", p, buf, describe(p.st))
			puts, gos := 0, 0
			for i, e := range p.evs {
				switch {
				case e.Kind == "go":
					for _, a := range e.Args {
						if w.regionsOf(p.st, a)[reg] {
							gos++
							break
						}
					}
				case e.Kind == "call" && e.Name == "(*sync.Pool).Put":
					if !w.regionsOf(p.st, e.Args[1])[reg] {
						continue
					}
					puts++
					if !p.thread && gos > 0 {
						c.Check(false, "handedover", c.Pos(e.Pos), "Run puts the buffer back while the request it was handed to may be using it %s", describe(p.st))
					}
					for _, f := range p.evs[i+1:] {
						switch f.Kind {
						case "rpc", "write", "read", "go":
							c.Check(false, "early", c.Pos(e.Pos), "%v: the request buffer is put back before %s %s", p, f.Kind+" "+f.Name, describe(p.st))
						case "loopback":
						}
					}
				case e.Kind == "send":
					if w.regionsOf(p.st, eng.Op("tuple", e.Args...))[reg] {
						c.Check(false, "sent", c.Pos(e.Pos), "%v: the request buffer is sent to a channel", p)
					}
				case (e.Kind == "invoke" || e.Kind == "dyncall" || e.Kind == "call") && !strings.HasPrefix(e.Name, "(*sync.Pool)"):
					if w.regionsOf(p.st, eng.Op("tuple", e.Args...))[reg] {
						c.Check(strings.HasPrefix(e.Name, "builtin "), "escapes:"+e.Name, c.Pos(e.Pos), "%v: the request buffer is given to %s", p, e.Name)
					}
				}
			}
			c.Check(puts <= 1, "twice", p.where(), "%v: the request buffer is put back %d times %s", p, puts, describe(p.st))
			c.Check(gos <= 1, "shared", p.where(), "%v: the request buffer is handed to %d goroutines", p, gos)
			// kept anywhere that outlives the request?
			for k, v := range p.st.Stored() {
				rt := eng.Root(k)
				if rt.Op == "alloc" && rt.K > p.loop || rt == reg || rt.Op == "rgn" {
					continue
				}
				if w.regionsOf(p.st, v)[reg] {
					c.Check(false, "kept", p.where(), "%v: the request buffer is kept in %v, which outlives the request", p, k)
				}
			}
			for _, e := range p.rpc("decode", "Rpc_msg") {
				bw, _ := reads[len(reads)-1].Data.(eng.Written)
				if er, _, _, _ := eng.SliceParts(e.In); er != reg {
					continue // a copy: C14 compares the content
				}
				c.Check(bw.OK && samePieces(p.st, e.InP, bw.Pieces), "stale", p.where(), "%v: the request sees %v, its record holds %v %s", p, e.InP, bw.Pieces, describe(p.st))
			}
		}
	}
	c.Check(n > 0, "requests", "rfc1057", "no path of Run reads a record body")
}

func checkC17(c *Ctx) {
	c.Rule = append(c.Rule, "Every memory write of every path of Run and of the goroutines it starts goes to memory allocated in the same iteration (or by the goroutine), to the request's own buffer, or happens by sync/atomic or while a mutex is held; the receive loop does not write memory it has handed to a goroutine; nothing that existed before Run is written, in particular no table of registrations.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n := 0
	for _, r := range w.server() {
		for _, p := range r.paths {
			own := map[*eng.Term]bool{}
			for _, e := range p.evs {
				if e.Kind == "read" {
					reg, _, _, _ := eng.SliceParts(e.Args[0])
					if eng.Root(reg).Op == "rgn" {
						own[reg] = true
					}
				}
				if e.Kind == "call" && e.Name == "(*sync.Pool).Get" {
					for x := range p.st.Reach(e.Res) {
						own[x] = true
						own[eng.Region(x)] = true
					}
				}
			}
			var shared map[*eng.Term]bool
			if !p.thread && p.goAt >= 0 {
				shared = p.st.Reach(p.evs[p.goAt].Args...)
			}
			for _, a := range p.writes() {
				n++
				rt := eng.Root(a)
				if rt.Op == "range" {
					continue // private iterator
				}
				fresh := (rt.Op == "alloc" || rt.Op == "mkmap") && rt.K > p.loop
				if !p.thread && !p.looped {
					fresh = rt.K > r.start
				}
				if !p.thread && (rt.Op == "alloc" || rt.Op == "mkmap") && rt.K > r.start && !fresh {
					// a variable of Run: fine unless requests can see it
					for _, q := range r.paths {
						if q.thread && q.goAt >= 0 {
							seen := q.st.Reach(q.evs[q.goAt].Args...)
							c.Check(!seen[rt], "loop", c.FnPos(r.run), "Run writes %v while earlier requests can be reading it", a)
						}
					}
					c.Oblig++
					c.Discharge++
					continue
				}
				if fresh || own[rt] {
					c.Oblig++
					c.Discharge++
					continue
				}
				if p.guarded(a) {
					c.Oblig++
					c.Discharge++
					continue
				}
				c.Check(false, "write:"+shortLoc(a), p.whereWrite(a), "%v: writes %v, which other requests share %s", p, a, describe(p.st))
			}
			if shared != nil {
				// after the go statement the receive loop must leave the
				// goroutine's memory alone
				for _, e := range p.evs[p.goAt+1:] {
					var a *eng.Term
					switch e.Kind {
					case "store":
						a = e.Args[0]
					case "mapupdate", "mapdelete":
						a = e.Recv
					case "read":
						a, _, _, _ = eng.SliceParts(e.Args[0])
					}
					if a != nil {
						c.Check(!shared[eng.Root(a)], "aftergo", c.Pos(e.Pos), "Run writes %v after handing it to a goroutine", a)
					}
				}
			}
		}
	}
	c.Check(n > 0, "writes", "rfc1057", "no writes analysed")
}

func shortLoc(a *eng.Term) string {
	s := ""
	for a.Op == "fa" || a.Op == "ia" {
		if a.Op == "fa" {
			s = "." + a.N + s
		} else {
			s = "[]" + s
		}
		a = a.Args[0]
	}
	return a.Op + s
}

func (p *srvPath) whereWrite(a *eng.Term) string {
	c := p.r.w.c
	for _, e := range p.evs {
		switch e.Kind {
		case "store":
			if eng.Covers(a, e.Args[0]) || eng.Covers(e.Args[0], a) {
				return c.Pos(e.Pos)
			}
		case "mapupdate", "mapdelete":
			if e.Recv == a {
				return c.Pos(e.Pos)
			}
		}
	}
	return p.where()
}

// guarded: every write to a on this path is atomic or under a shared mutex.
func (p *srvPath) guarded(a *eng.Term) bool {
	var held []*eng.Term
	n := 0
	for _, e := range p.evs {
		hit := false
		switch e.Kind {
		case "sync":
			held = lockStep(held, e)
		case "store":
			hit = eng.Covers(a, e.Args[0]) || eng.Covers(e.Args[0], a)
		case "mapupdate", "mapdelete":
			hit = e.Recv == a
		case "call":
			if strings.Contains(e.Name, "sync/atomic") && len(e.Args) > 0 && eng.Covers(e.Args[0], a) {
				n++
				continue
			}
		}
		if hit {
			ok := false
			for _, m := range held {
				rt := eng.Root(m)
				ok = ok || rt.Op != "alloc" || rt.K < p.loop
			}
			if !ok {
				return false
			}
			n++
		}
	}
	return n > 0
}

func checkC18(c *Ctx) {
	c.Rule = append(c.Rule, "Every instruction that can panic on any path of Run and of the goroutines it starts carries a discharged obligation; no path calls a function that ends the process; goroutines return with every mutex released; Run returns only after a failed read or a header without the last-fragment bit, always with an error, and otherwise reads the next record whatever became of the request.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n, back := 0, 0
	for _, r := range w.server() {
		for _, p := range r.paths {
			n++
			c.obligations(p.st, "server")
			var held []*eng.Term
			for _, e := range p.evs {
				if e.Kind == "sync" {
					held = lockStep(held, e)
				}
			}
			reads := p.events("read")
			stop := false
			for i, e := range reads {
				ok, known := readOK(p.st, e)
				if !known || !ok {
					stop = true
				}
				if i == 0 && ok {
					hw, _ := e.Data.(eng.Written)
					if hw.OK && len(hw.Pieces) == 4 && p.st.ProvesGE(eng.Int(1<<31-1), p.st.BE(hw.Pieces...)) {
						stop = true
					}
				}
			}
			switch {
			case p.thread:
				c.Check(p.st.Exit == "return", "exit:request", p.where(), "%v: processing a request ends in %s %s", p, p.st.Exit, describe(p.st))
				c.Check(len(held) == 0, "locked", p.where(), "%v: a request ends with a mutex held, which stops later requests %s", p, describe(p.st))
			case p.st.Exit == "loopback":
				back++
				c.Check(!stop, "goeson", c.FnPos(r.run), "Run goes on after a failed read or an unsupported fragment %s", describe(p.st))
				c.Check(len(held) == 0, "locked", p.where(), "Run starts another iteration with a mutex held %s", describe(p.st))
			case p.st.Exit == "return":
				c.Check(p.st.Ret != nil && outcome(p.st, p.st.Ret) == "failed", "noerror", c.FnPos(r.run), "Run returns without an error %s", describe(p.st))
				c.Check(stop, "stops", c.FnPos(r.run), "Run returns although the connection can be read %s", describe(p.st))
			default:
				c.Check(false, "exit:run", c.FnPos(r.run), "Run ends in %s %s", p.st.Exit, describe(p.st))
			}
			p.blocking(c)
		}
	}
	c.Check(n > 0 && back > 0, "loop", "rfc1057", "Run never serves a second record")
}

// blocking reports operations that can make a request or the loop hang.
func (p *srvPath) blocking(c *Ctx) {
	for _, e := range p.evs {
		switch e.Kind {
		case "send", "recv", "select":
			if e.Data == false {
				continue // does not wait
			}
			c.Check(false, "blocks:"+e.Kind, c.Pos(e.Pos), "%v: a channel operation can block for ever", p)
		case "sync":
			if strings.Contains(e.Name, "WaitGroup).Wait") {
				c.Check(false, "blocks:wait", c.Pos(e.Pos), "%v: waits for other requests", p)
			}
		}
	}
}

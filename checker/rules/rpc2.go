package rules

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	Checks["C10"] = checkC10
	Checks["C19"] = checkC19
	Checks["C20"] = checkC20
	Checks["C27"] = checkC27
}

// ---- generated service code ----

// wrapRun is one registered handler run on a coding state.
type wrapRun struct {
	w    *rpcWorld
	k    *codecPkg
	key  string
	pos  string
	proc *RProc
	xs   *eng.Term
	init *eng.State
	outs []*eng.State
}

// regList evaluates a generated registration function.
func (w *rpcWorld) regList(pkg, name string) (st *eng.State, h *eng.Term, fn *ssa.Function, regs []*eng.Term) {
	c := w.c
	fn = c.Func(pkg, name)
	pt := c.Type("xdr", "ProcRegistration")
	if fn == nil || pt == nil {
		c.Fail("anchor:"+name, pkg, "the registration function %s was not found", name)
		return
	}
	sig := fn.Signature
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.IsInterface(sig.Params().At(0).Type()) {
		c.Fail("anchor:"+name, c.FnPos(fn), "%s does not take a handler and return registrations", name)
		return
	}
	h = eng.NamedSym("h", sig.Params().At(0).Type())
	st = eng.NewState()
	st.Assume(eng.Eq(h, eng.Nil), false)
	w.iface[h] = true
	it := w.interp()
	outs := c.Run(it, st, fn, []*eng.Term{h})
	c.Problems(it, name)
	if !c.Check(len(outs) == 1 && outs[0].Exit == "return", "regs:"+name, c.FnPos(fn), "%s does not simply return a list", name) {
		return nil, h, fn, nil
	}
	st = outs[0]
	c.obligations(st, name)
	es, ok := st.Elements(st.Ret, pt)
	if !c.Check(ok, "regs:"+name, c.FnPos(fn), "the list %s returns is not known", name) {
		return nil, h, fn, nil
	}
	return st, h, fn, es
}

// eachWrapper runs every handler of every shipped registration list.
func (w *rpcWorld) eachWrapper(f func(x *wrapRun)) {
	c := w.c
	pt := c.Type("xdr", "ProcRegistration")
	for _, pkg := range c.services() {
		spec := c.oracle(pkg)
		if spec == nil {
			continue
		}
		k := c.newCodecPkg(c.Module+"/"+pkg, spec)
		if k == nil {
			continue
		}
		for _, g := range spec.Progs {
			for _, v := range g.Vers {
				name := GoName(g.Name) + "_" + GoName(v.Name) + "_regs"
				st, _, _, regs := w.regList(pkg, name)
				if st == nil {
					continue
				}
				for i, r := range regs {
					hd, _ := pick(r, pt, "Handler")
					pn, _ := pick(r, pt, "Proc")
					x := &wrapRun{w: w, k: k, key: fmt.Sprintf("%s[%d]", name, i)}
					if n, ok := pn.Int64(); ok {
						for _, p := range v.Procs {
							if m, ok := spec.Val(p.Num); ok && m == n {
								x.proc = p
								x.key = g.Name + "." + p.Name
							}
						}
					}
					if !c.Check(hd != nil && (hd.Op == "closure" || hd.Op == "func"), "handler:"+x.key, name, "the handler of %s is not known: %v", x.key, hd) {
						continue
					}
					hf := hd.Obj.(*ssa.Function)
					x.pos = c.FnPos(hf)
					if !hf.Pos().IsValid() && hf.Object() != nil {
						x.pos = c.Pos(hf.Object().Pos())
					}
					for _, failed := range []bool{false, true} {
						s2, xs := c.makeState(st.Clone(), decode, eng.NamedSym("args", bytesT), failed)
						if s2 == nil {
							continue
						}
						x.xs, x.init = xs, s2.Clone()
						it := w.interp()
						outs := it.RunValue(s2, hd, []*eng.Term{xs})
						c.Paths += len(outs)
						c.Problems(it, x.key)
						x.outs = outs
						f(x)
					}
				}
			}
		}
	}
}

// wireOf is the reference form of a Go type of the package: its own
// definition, from the RFC or else from the shipped specification.
func (k *codecPkg) wireOf(t types.Type, shipped *RSpec) (string, string) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return "", ""
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == k.c.pkgPath("xdr") {
		switch n.Obj().Name() {
		case "Uint32":
			return k.spec.Expand(&RType{Kind: "u32"}), ""
		case "Int32":
			return k.spec.Expand(&RType{Kind: "s32"}), ""
		case "Uint64":
			return k.spec.Expand(&RType{Kind: "u64"}), ""
		case "Int64":
			return k.spec.Expand(&RType{Kind: "s64"}), ""
		case "Bool":
			return k.spec.Expand(&RType{Kind: "bool"}), ""
		case "Void":
			return k.spec.Expand(&RType{Kind: "void"}), ""
		}
		return "", ""
	}
	if n.Obj().Pkg() != k.pkg {
		return "", ""
	}
	if r := k.goRef[n.Obj().Name()]; r != "" {
		return k.spec.Expand(&RType{Kind: "name", Name: r}), ""
	}
	if shipped != nil {
		for _, d := range shipped.Order {
			if GoName(d) == n.Obj().Name() {
				return shipped.Expand(&RType{Kind: "name", Name: d}), d
			}
		}
	}
	return "", ""
}

func checkC10(c *Ctx) {
	c.Rule = append(c.Rule, "Each generated registration function is evaluated on a symbolic service object; the list must hold every procedure of the RFC definition exactly once under the RFC's numbers and nothing else. Each registered handler is then run on a symbolic coding state: where decoding succeeds it must invoke exactly the method of its own procedure, with the decoded argument (of a type whose wire form is the RFC's, none for void), and return exactly that result (again of the RFC's wire form; for void a result that encodes to nothing) and no error.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	procs := w.checkServices()
	c.Check(procs >= 28, "procs", "oracle", "only %d procedures in the references", procs)
}

// services lists the packages with generated service code.
func (c *Ctx) services() []string {
	if c.genPkgs != nil {
		return c.genPkgs
	}
	return []string{"rfc1057", "rfc1813"}
}

// checkServices checks registrations and handlers against the references.
func (w *rpcWorld) checkServices() int {
	c := w.c
	pt := c.Type("xdr", "ProcRegistration")
	procs := 0
	for _, pkg := range c.services() {
		spec := c.oracle(pkg)
		if spec == nil {
			continue
		}
		for _, g := range spec.Progs {
			for _, v := range g.Vers {
				name := GoName(g.Name) + "_" + GoName(v.Name) + "_regs"
				st, _, fn, regs := w.regList(pkg, name)
				if st == nil {
					continue
				}
				gn, _ := spec.Val(g.Num)
				vn, _ := spec.Val(v.Num)
				count := map[int64]int{}
				for i, r := range regs {
					var num [3]int64
					ok := true
					for j, f := range []string{"Prog", "Vers", "Proc"} {
						x, _ := pick(r, pt, f)
						n, k := int64(0), false
						if x != nil {
							n, k = x.Int64()
						}
						ok = ok && k
						num[j] = n
					}
					if !c.Check(ok, "numbers:"+name, c.FnPos(fn), "entry %d of %s has no constant numbers", i, name) {
						continue
					}
					c.Check(num[0] == gn && num[1] == vn, fmt.Sprintf("program:%s:%d", name, num[2]), c.FnPos(fn), "entry %d of %s is registered for program %d version %d, the definition says %d version %d", i, name, num[0], num[1], gn, vn)
					count[num[2]]++
				}
				for _, p := range v.Procs {
					n, _ := spec.Val(p.Num)
					procs++
					c.Check(count[n] == 1, "entry:"+name+":"+p.Name, c.FnPos(fn), "%s has %d entries for %s (number %d)", name, count[n], p.Name, n)
					delete(count, n)
				}
				for n := range count {
					c.Check(false, fmt.Sprintf("extra:%s:%d", name, n), c.FnPos(fn), "%s has an entry for procedure %d, which is not defined", name, n)
				}
			}
		}
	}
	shippedSpec := map[string]*RSpec{}
	for _, pkg := range c.services() {
		if s := c.genSpec[pkg]; s != nil {
			shippedSpec[c.Module+"/"+pkg] = s
		} else if b, err := os.ReadFile(filepath.Join(c.Repo, pkg, "prot.x")); err == nil {
			if s, err := ParseXDR(string(b)); err == nil {
				shippedSpec[c.Module+"/"+pkg] = s
			}
		}
	}
	extra := map[string]*codecPkg{}
	w.eachWrapper(func(x *wrapRun) {
		if x.proc == nil {
			return
		}
		p := x.proc
		want := GoName(p.Name)
		ship := shippedSpec[x.k.path]
		wire := func(t types.Type) string {
			s, ext := x.k.wireOf(t, ship)
			if ext != "" {
				// a helper type of the shipped specification: check its codec
				kk := extra[x.k.path]
				if kk == nil {
					kk = c.newCodecPkg(x.k.path, ship)
					extra[x.k.path] = kk
				}
				kk.checkType(ext)
			}
			return s
		}
		for _, st := range x.outs {
			var calls []eng.Event
			var dec []*rpcEv
			bad := false
			for _, e := range st.Events {
				switch e.Kind {
				case "proc":
					calls = append(calls, e)
				case "rpc":
					ev := e.Data.(*rpcEv)
					if ev.Op == "decode" {
						dec = append(dec, ev)
					}
					bad = bad || ev.Failed || ev.Fails
				case "call", "invoke", "dyncall", "go", "send", "recv", "write", "print":
					if !strings.HasPrefix(e.Name, "builtin ") {
						c.Check(false, "foreign:"+x.key+":"+e.Name, c.Pos(e.Pos), "%s makes a %s of %s", x.key, e.Kind, e.Name)
					}
				}
			}
			c.obligations(st, x.key)
			if bad || st.Exit != "return" {
				continue // C11
			}
			// the coding state may have failed before and nothing is decoded
			if st.Ret == nil || st.Ret.Op != "tuple" || len(st.Ret.Args) != 2 {
				c.Check(false, "result:"+x.key, x.pos, "%s returns nothing that is known", x.key)
				continue
			}
			if len(calls) == 0 && p.Arg.Kind == "void" && outcome(x.init, c.errorOf(x.init, x.xs)) == "failed" {
				continue
			}
			if !c.Check(len(calls) == 1 && calls[0].Name == want, "method:"+x.key, x.pos, "%s invokes %v instead of %s %s", x.key, callNames(calls), want, describe(st)) {
				continue
			}
			call := calls[0]
			sig := call.Fn.Type().(*types.Signature)
			if p.Arg.Kind == "void" {
				c.Check(len(call.Args) == 0, "args:"+x.key, c.Pos(call.Pos), "%s has arguments although the definition says void", x.key)
				c.Check(len(dec) == 0, "decodes:"+x.key, x.pos, "%s decodes an argument although the definition says void", x.key)
			} else if c.Check(len(call.Args) == 1 && len(dec) == 1 && sig.Params().Len() == 1, "args:"+x.key, c.Pos(call.Pos), "%s decodes %d values and passes %d arguments", x.key, len(dec), len(call.Args)) {
				c.Check(sameValue(st, call.Args[0], dec[0].Val), "value:"+x.key, c.Pos(call.Pos), "%s passes %v instead of the decoded argument %v", x.key, call.Args[0], dec[0].Val)
				got := wire(sig.Params().At(0).Type())
				c.Check(got == x.k.spec.Expand(p.Arg), "argtype:"+x.key, c.Pos(call.Pos), "%s takes %v (%s), the definition says %s", x.key, sig.Params().At(0).Type(), got, x.k.spec.Expand(p.Arg))
				c.Check(dec[0].XS == x.xs, "state:"+x.key, x.pos, "%s decodes from another coding state", x.key)
				if n, ok := types.Unalias(sig.Params().At(0).Type()).(*types.Named); ok {
					c.Check(dec[0].Type == n.Obj().Name(), "codec:"+x.key, x.pos, "%s decodes its %s argument with the codec of %s", x.key, n.Obj().Name(), dec[0].Type)
				}
			}
			c.Check(outcome(st, st.Ret.Args[1]) == "ok", "error:"+x.key, x.pos, "%s returns an error after the procedure ran %s", x.key, describe(st))
			res := st.Ret.Args[0]
			if !c.Check(res.Op == "iface", "result:"+x.key, x.pos, "%s returns a result that is not known: %v", x.key, res) {
				continue
			}
			dt := res.Obj.(types.Type)
			pt, ok := dt.Underlying().(*types.Pointer)
			if !c.Check(ok, "result:"+x.key, x.pos, "%s returns a %v", x.key, dt) {
				continue
			}
			c.Check(wire(pt.Elem()) == x.k.spec.Expand(p.Res), "restype:"+x.key, x.pos, "%s returns %v (%s), the definition says %s", x.key, pt.Elem(), wire(pt.Elem()), x.k.spec.Expand(p.Res))
			if p.Res.Kind == "void" {
				c.Check(sig.Results().Len() == 0, "void:"+x.key, c.Pos(call.Pos), "%s drops the result of %s", x.key, want)
			} else if c.Check(sig.Results().Len() == 1 && call.Res != nil, "result:"+x.key, c.Pos(call.Pos), "%s has no result", want) {
				got := st.Load(res.Args[0], pt.Elem())
				c.Check(sameValue(st, got, call.Res), "returned:"+x.key, x.pos, "%s returns %v instead of the result of %s (%v)", x.key, got, want, call.Res)
			}
			c.Sample("%s: decodes %v, invokes %s, returns %v", x.key, p.Arg.Kind, want, dt)
		}
	})
	for path, kk := range extra {
		for _, p := range kk.probs {
			c.Fail("codec:"+path+":"+p.Type+":"+p.Mode.String(), p.Pos, "%s", p.Text)
		}
	}
	return procs
}

func callNames(es []eng.Event) []string {
	r := []string{}
	for _, e := range es {
		r = append(r, e.Name)
	}
	return r
}

// ---- the client ----

// callRun is one abstract path of Client.Call.
type callRun struct {
	start                                      int64 // objects older than this existed before the call
	w                                          *rpcWorld
	name                                       string
	st                                         *eng.State
	evs                                        []eng.Event
	rw, prog, vers, proc, cred, verf, arg, res *eng.Term
	cl                                         *eng.Term
	fn                                         *ssa.Function
}

// client runs Call on a client in any state it can be in.
func (w *rpcWorld) client() []*callRun {
	base := w.clientBase()
	if base == nil {
		return nil
	}
	return w.calls(base, "Call")
}

// clientBase makes a client.
func (w *rpcWorld) clientBase() *callRun {
	c := w.c
	mk, call := c.Func("rfc1057", "MakeClient"), c.Method("rfc1057", "Client", "Call")
	if mk == nil || call == nil {
		c.Fail("anchor:Client", "rfc1057", "MakeClient or (*Client).Call was not found")
		return nil
	}
	if mk.Signature.Params().Len() != 3 || call.Signature.Params().Len() != 5 {
		c.Fail("anchor:Client", "rfc1057", "MakeClient or (*Client).Call has other parameters")
		return nil
	}
	x := &callRun{w: w, fn: call}
	ps := mk.Signature.Params()
	x.rw = eng.NamedSym("rw", ps.At(0).Type())
	x.prog, x.vers = eng.NamedSym("prog", ps.At(1).Type()), eng.NamedSym("vers", ps.At(2).Type())
	st := eng.NewState()
	st.Assume(eng.Eq(x.rw, eng.Nil), false)
	st, x.cl = c.single(st, mk, x.rw, x.prog, x.vers)
	if st == nil {
		return nil
	}
	x.st = st
	return x
}

// calls runs Call on a client.
func (w *rpcWorld) calls(b *callRun, name string) []*callRun {
	c := w.c
	ps := b.fn.Signature.Params()
	x := *b
	x.name = name
	x.proc = eng.Sym("proc", ps.At(0).Type())
	x.cred, x.verf = eng.SymOf("cred", ps.At(1).Type()), eng.SymOf("verf", ps.At(2).Type())
	x.arg, x.res = eng.Sym("args", ps.At(3).Type()), eng.Sym("resp", ps.At(4).Type())
	st := b.st.Clone()
	st.ResetTrace()
	st.Assume(eng.Eq(x.arg, eng.Nil), false)
	st.Assume(eng.Eq(x.res, eng.Nil), false)
	it := w.interp()
	x.start = eng.FreshID()
	var rs []*callRun
	for _, o := range c.Run(it, st, b.fn, []*eng.Term{x.cl, x.proc, x.cred, x.verf, x.arg, x.res}) {
		y := x
		y.st = o
		y.evs = o.Events
		rs = append(rs, &y)
	}
	c.Problems(it, "Call")
	return rs
}

func (x *callRun) pos() string { return x.w.c.FnPos(x.fn) }

func (x *callRun) rpc(op string) []*rpcEv {
	var r []*rpcEv
	for _, e := range x.evs {
		if ev, ok := e.Data.(*rpcEv); ok && e.Kind == "rpc" && ev.Op == op {
			r = append(r, ev)
		}
	}
	return r
}

func (x *callRun) events(kind string) []eng.Event {
	var r []eng.Event
	for _, e := range x.evs {
		if e.Kind == kind {
			r = append(r, e)
		}
	}
	return r
}

// sent is what the call encoded and wrote.
func (x *callRun) sent() (ev []*rpcEv, enc []*eng.Term, total *eng.Term, failed bool, writes []eng.Event, pieces []*eng.Term, ok bool) {
	total, ok = eng.Int(0), true
	for _, e := range x.rpc("encode") {
		if e.Failed || e.Fails {
			failed = true
			continue
		}
		ev = append(ev, e)
		enc = append(enc, e.Enc...)
		total = eng.Add(total, e.EncLen)
	}
	for _, e := range x.events("write") {
		if e.Recv == x.rw {
			writes = append(writes, e)
			w := e.Data.(eng.Written)
			pieces = append(pieces, w.Pieces...)
			ok = ok && w.OK
		}
	}
	return
}

func (w *rpcWorld) framing14(x *callRun) {
	c := w.c
	_, enc, total, _, writes, pieces, ok := x.sent()
	full := true
	for i, e := range writes {
		// a write is complete unless an earlier one failed
		if v, known := writeOK(x.st, e); i < len(writes)-1 && !(v && known) {
			c.Check(false, "writefailed:client", c.Pos(e.Pos), "the client writes on after a failed write %s", describe(x.st))
		} else if !v && known {
			full = false
		}
	}
	if len(writes) > 0 {
		w.framed(x.st, pieces, ok, !full, total, enc, "client", x.pos())
	}
	w.otherUse(x.st, x.evs, x.rw, "client")
	reads := x.events("read")
	ds := x.rpc("decode")
	bad := false
	for i, e := range reads {
		if v, known := readOK(x.st, e); !known || !v {
			bad = true
		}
		if hw, _ := e.Data.(eng.Written); i == 0 && hw.OK && len(hw.Pieces) == 4 && x.st.ProvesGE(eng.Int(1<<31-1), x.st.BE(hw.Pieces...)) {
			bad = true
		}
	}
	if bad {
		c.Check(len(ds) == 0, "decodesbad:client", x.pos(), "the client decodes although reading the record failed or it is a fragment %s", describe(x.st))
		c.Check(x.st.Exit == "return" && outcome(x.st, x.st.Ret) == "failed", "readerror:client", x.pos(), "the client does not report a failed read or an unsupported fragment %s", describe(x.st))
		return
	}
	if len(ds) > 0 {
		if body := w.record(x.st, reads, x.rw, "client", x.pos()); body != nil {
			c.Check(samePieces(x.st, ds[0].InP, body), "decoded:client", x.pos(), "client: the decoder sees %v, the record holds %v %s", ds[0].InP, body, describe(x.st))
		}
	}
}

func writeOK(st *eng.State, e eng.Event) (bool, bool) {
	if e.Res == nil || e.Res.Op != "tuple" {
		return false, false
	}
	return st.Decide(eng.Eq(e.Res.Args[1], eng.Nil))
}

func checkC19(c *Ctx) {
	c.Rule = append(c.Rule, "Every path of Client.Call is compared with the success conditions: if the path can return nil, then on it the write succeeded, header and body were read completely and the top bit was set, an Rpc_msg decoded from exactly the record, its xid equals the xid encoded in the request, its type is REPLY, it is accepted with status SUCCESS, and the caller's result decoded without error from exactly the bytes after the header. The result is decoded on no path where these facts are not established before it; at least one path succeeds.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	good := 0
	for _, x := range w.client() {
		st := x.st
		pos := x.pos()
		c.obligations(st, "client")
		if !c.Check(st.Exit == "return", "exit", pos, "Call ends in %s %s", st.Exit, describe(st)) {
			continue
		}
		// conditions established, in order
		var reqXid *eng.Term
		wrote, match := false, false
		var hdr *rpcEv
		result := ""
		var reads []eng.Event
		for _, e := range x.evs {
			switch e.Kind {
			case "write":
				if v, k := writeOK(st, e); e.Recv == x.rw && v && k {
					wrote = true
				}
			case "read":
				c.Check(wrote, "readfirst", c.Pos(e.Pos), "Call reads a reply before its request was written %s", describe(st))
				reads = append(reads, e)
			case "rpc":
				ev := e.Data.(*rpcEv)
				switch {
				case ev.Op == "encode" && ev.Type == "Rpc_msg" && !ev.Fails && !ev.Failed:
					reqXid = w.msg(ev.Val, "Xid")
				case ev.Op == "decode" && ev.Type == "Rpc_msg" && !ev.Fails && !ev.Failed:
					hdr = ev
					whole := len(reads) == 2
					for _, r := range reads {
						v, k := readFull(st, r)
						whole = whole && v && k
					}
					if whole {
						bw, _ := reads[1].Data.(eng.Written)
						whole = bw.OK && samePieces(st, ev.InP, bw.Pieces)
					}
					val := func(p string, n string) bool {
						return st.ProvesEq(w.msg(ev.Val, p), eng.Int(w.num(n)))
					}
					match = whole && reqXid != nil && st.ProvesEq(w.msg(ev.Val, "Xid"), reqXid) &&
						val("Body.Mtype", "REPLY") && val("Body.Rbody.Stat", "MSG_ACCEPTED") && val("Body.Rbody.Areply.Reply_data.Stat", "SUCCESS")
				case ev.Op == "decode" && ev.Type != "Rpc_msg":
					if !c.Check(wrote && hdr != nil && match, "result", c.Pos(e.Pos), "Call decodes a result although the reply is not known to be a matching success: %s", x.missing(hdr, reqXid, wrote, describe(st))) {
						continue
					}
					if ev.Val != nil && ev.Val != x.res {
						c.Check(false, "resultplace", c.Pos(e.Pos), "Call decodes into %v instead of the caller's result", ev.Val)
						continue
					}
					switch {
					case ev.Fails || ev.Failed:
						result = "failed"
					case samePieces(st, ev.InP, hdr.Rest):
						if result == "" {
							result = "ok"
						}
					default:
						c.Check(false, "resultbytes", c.Pos(e.Pos), "Call decodes the result from %v instead of the bytes after the header %v", ev.InP, hdr.Rest)
					}
				}
			}
		}
		o := outcome(st, st.Ret)
		if o != "failed" {
			c.Check(wrote && hdr != nil && match && result == "ok", "success", pos, "Call can return nil (%s) although the call has not succeeded (%s; result %q) %s", o, x.missing(hdr, reqXid, wrote, ""), result, describe(st))
			good++
		} else {
			c.Check(result != "ok", "refused", pos, "Call returns an error after a complete success %s", describe(st))
		}
		c.Sample("Call %s: %s", describe(st), o)
	}
	c.Check(good > 0, "nosuccess", "rfc1057", "Call never succeeds")
}

// missing names the first success condition not established.
func (x *callRun) missing(hdr *rpcEv, reqXid *eng.Term, wrote bool, when string) string {
	st, w := x.st, x.w
	switch {
	case !wrote:
		return "the request was not written " + when
	case hdr == nil:
		return "no reply header decoded " + when
	case reqXid == nil || !st.ProvesEq(w.msg(hdr.Val, "Xid"), reqXid):
		return "the transaction id may differ " + when
	case !st.ProvesEq(w.msg(hdr.Val, "Body.Mtype"), eng.Int(w.num("REPLY"))):
		return "the message may not be a reply " + when
	case !st.ProvesEq(w.msg(hdr.Val, "Body.Rbody.Stat"), eng.Int(w.num("MSG_ACCEPTED"))):
		return "the reply may be a denial " + when
	case !st.ProvesEq(w.msg(hdr.Val, "Body.Rbody.Areply.Reply_data.Stat"), eng.Int(w.num("SUCCESS"))):
		return "the accept status may not be SUCCESS " + when
	}
	return "the header was not decoded from one complete record " + when
}

func checkC20(c *Ctx) {
	c.Rule = append(c.Rule, "On every path of Client.Call that writes, the record body is exactly the encoding of one Rpc_msg followed by the encoding of the caller's argument; that Rpc_msg is a CALL with RPC version 2, the program and version given to MakeClient and the procedure, credential and verifier given to Call; on paths where an encoding step failed nothing is written and an error is returned. The transaction id is compared across two successive calls from every client state: with the fields that Call writes left arbitrary, the second id is proved different from the first (with the wrap-around values tried one by one).")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	base := w.clientBase()
	if base == nil {
		return
	}
	wr := 0
	first := w.calls(base, "first call")
	for _, x := range first {
		st, pos := x.st, x.pos()
		ev, enc, total, failed, writes, pieces, ok := x.sent()
		if failed {
			c.Check(len(writes) == 0, "failed", pos, "Call writes although encoding failed %s", describe(st))
			c.Check(st.Exit == "return" && outcome(st, st.Ret) == "failed", "failure", pos, "Call does not report that encoding failed %s", describe(st))
			continue
		}
		if len(writes) == 0 {
			c.Check(tooLong(st, total), "notwritten", pos, "Call writes nothing although the call encodes %s", describe(st))
			c.Check(st.Exit == "return" && outcome(st, st.Ret) == "failed", "failure", pos, "Call does not report that nothing was written %s", describe(st))
			continue
		}
		wr++
		if !c.Check(ok && len(pieces) >= 4, "content", pos, "what Call writes is not known %s", describe(st)) {
			continue
		}
		full := true
		for _, e := range writes {
			if v, k := writeOK(st, e); k && !v {
				full = false
			}
		}
		if full || len(writes) == 1 {
			c.Check(samePieces(st, pieces[4:], enc), "content", pos, "Call writes %v instead of the encoded header and arguments %v %s", pieces[4:], enc, describe(st))
		}
		if !c.Check(len(ev) == 2 && ev[0].Type == "Rpc_msg" && ev[1].Type == "" && ev[1].Val == x.arg, "parts", pos, "the record of a call does not consist of a header and the caller's arguments: %s %s", evNames(ev), describe(st)) {
			continue
		}
		m := ev[0].Val
		num := func(path string, n int64) {
			c.Check(st.ProvesEq(w.msg(m, path), eng.Int(n)), "field:"+path, pos, "Call sends %s = %v instead of %d %s", path, w.msg(m, path), n, describe(st))
		}
		num("Body.Mtype", w.num("CALL"))
		num("Body.Cbody.Rpcvers", 2)
		is := func(path string, v *eng.Term) {
			g := w.msg(m, path)
			c.Check(g == v || st.Norm(g) == st.Norm(v), "field:"+path, pos, "Call sends %s = %v instead of %v %s", path, g, v, describe(st))
		}
		is("Body.Cbody.Prog", x.prog)
		is("Body.Cbody.Vers", x.vers)
		is("Body.Cbody.Proc", x.proc)
		is("Body.Cbody.Cred", x.cred)
		is("Body.Cbody.Verf", x.verf)
		c.Sample("Call writes %v %s", pieces, describe(st))
	}
	c.Check(wr > 0, "nowrites", "rfc1057", "Call never writes")

	// transaction ids
	t := c.Type("rfc1057", "Client")
	var counters []*eng.Term
	for _, x := range first {
		for _, a := range x.st.Writes() {
			if eng.Covers(x.cl, a) && a != x.cl {
				dup := false
				for _, b := range counters {
					dup = dup || b == a
				}
				if !dup {
					counters = append(counters, a)
				}
			}
		}
	}
	_ = t
	pairs := 0
	try := func(name string, set func(st *eng.State) bool) {
		b := *base
		b.st = base.st.Clone()
		if !set(b.st) {
			return
		}
		for _, x := range w.calls(&b, name) {
			ev, _, _, _, _, _, _ := x.sent()
			if len(ev) == 0 || ev[0].Type != "Rpc_msg" {
				continue
			}
			id1 := w.msg(ev[0].Val, "Xid")
			b2 := *x
			for _, y := range w.calls(&b2, name) {
				ev, _, _, _, _, _, _ := y.sent()
				if len(ev) == 0 || ev[0].Type != "Rpc_msg" {
					continue
				}
				pairs++
				id2 := w.msg(ev[0].Val, "Xid")
				c.Check(isNot(y.st, eng.Eq(id1, id2)), "fresh", y.pos(), "two successive calls (%s) carry the transaction ids %v and %v", name, id1, id2)
				d := y.st.Norm(eng.Sub(id2, id1))
				if n, ok := d.Int64(); ok {
					c.Check(n%2 != 0, "period", y.pos(), "transaction ids advance by %d and repeat early", n)
				} else {
					c.Check(false, "step", y.pos(), "transaction ids do not advance by a constant: %v then %v", id1, id2)
				}
			}
		}
	}
	try("from a new client", func(*eng.State) bool { return true })
	if c.Check(len(counters) > 0, "nocounter", base.pos(), "Call changes no field of the client, so successive transaction ids cannot differ") {
		try("from any state", func(st *eng.State) bool {
			for _, a := range counters {
				if u, ok := a.T.Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
					s := eng.Sym("counter", a.T)
					st.AddGE(eng.Int(1<<31-16), s)
					if u.Kind() == types.Uint32 {
						s = eng.Sym("counter", a.T)
						st.AddGE(eng.Int(1<<32-16), s)
					}
					st.SetMem(a, s, a.T)
				} else {
					st.Havoc(a)
				}
			}
			return true
		})
		for k := int64(1); k <= 16; k++ {
			k := k
			try(fmt.Sprintf("from 2^32-%d", k), func(st *eng.State) bool {
				for _, a := range counters {
					if u, ok := a.T.Underlying().(*types.Basic); ok && u.Kind() == types.Uint32 {
						st.SetMem(a, eng.Int(1<<32-k), a.T)
					}
				}
				return true
			})
		}
	}
	c.Check(pairs > 0, "pairs", "rfc1057", "no two successive calls were compared")
}

func evNames(ev []*rpcEv) string {
	var s []string
	for _, e := range ev {
		n := e.Type
		if n == "" {
			n = "unknown value"
		}
		s = append(s, n)
	}
	return strings.Join(s, ", ")
}

// elemBytes is the size of one slice element on a 64-bit machine.
func elemBytes(t types.Type) int64 {
	return (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(t)
}

func checkC27(c *Ctx) {
	c.Rule = append(c.Rule, "Every allocation on a path of Client.Call, Server.Run and the goroutines Run starts whose size is not bounded by a constant must be bounded by the number of record bytes whose reading has already succeeded on that path.")
	w := c.rpcWorld()
	if w == nil {
		return
	}
	n := 0
	judge := func(st *eng.State, evs []eng.Event, entry string, start int64) {
		got := eng.Int(allocSlack)
		var hdr *eng.Term
		announced := eng.Int(0) // allocated on the word of record headers
		reads := 0
		for _, e := range evs {
			switch e.Kind {
			case "read":
				if v, k := readOK(st, e); v && k {
					got = eng.Add(got, eng.Len(e.Args[0]))
					reads++
					if d, ok := e.Data.(eng.Written); ok && d.OK && len(d.Pieces) == 4 && hdr == nil {
						hdr = st.BE(d.Pieces...)
					}
				}
			case "rpc":
				// encoding and decoding: C06
				ev := e.Data.(*rpcEv)
				if ev.Op == "encode" && ev.EncLen != nil {
					got = eng.Add(got, eng.MulC(ev.EncLen, 2))
				}
			case "make", "append", "conv":
				size := e.Args[len(e.Args)-1]
				if e.Kind == "append" {
					size = e.Args[2]
				}
				if et, ok := e.Data.(types.Type); ok && e.Kind == "make" {
					if es := elemBytes(et); es > 1 {
						size = eng.MulC(size, es)
					}
				}
				n++
				if !eng.Fresh(size, start) || st.ProvesGE(got, size) {
					// nothing received decides the size, or what was
					// received justifies it
					c.Oblig++
					c.Discharge++
					continue
				}
				announced = eng.Add(announced, size)
				if reads == 1 && hdr != nil && st.ProvesGE(eng.Add(st.FMod(hdr, 1<<31), eng.Int(allocSlack)), announced) {
					c.Check(false, "header-alloc:"+entry, c.Pos(e.Pos), "%s allocates the %v bytes a record header announces before any of them has arrived", entry, size)
					continue
				}
				c.Check(false, "alloc:"+entry, c.Pos(e.Pos), "%s allocates %v bytes, which the bytes received do not bound %s", entry, size, describe(st))
			}
		}
	}
	for _, x := range w.client() {
		judge(x.st, x.evs, "Client.Call", x.start)
	}
	for _, r := range w.server() {
		for _, p := range r.paths {
			judge(p.st, p.evs, "Server.Run", p.r.start)
		}
	}
	c.Check(n > 0, "allocations", "rfc1057", "no allocation analysed")
}

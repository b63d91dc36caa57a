package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	Checks["C02"] = checkC02
	Checks["C03"] = checkC03
	Checks["C04"] = checkC04
	Checks["C05"] = checkC05
}

func checkC02(c *Ctx) {
	c.Rule = append(c.Rule, "On every exit path of the variable-length primitives (opaque<>, string<>), per direction and residue: a successful exit must imply, by the linear facts of the path, that the length is at most the declared maximum and fits the 32-bit length field; a failing exit must exclude every length that fits (and, when decoding, an input that holds it). EncodingSetSize must store the exact length or fail. For arrays, every generated codec of the shipped packages is analysed the same way: its success paths imply count <= bound and admit count = bound."+emittedRule)
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		if k.op.kind != "var" && k.op.kind != "string" {
			return
		}
		pos := c.FnPos(k.op.fn)
		if st.Exit != "return" {
			c.Check(false, "exit:"+k.key(), pos, "%v does not return (%s) %s", k, st.Exit, describe(st))
			return
		}
		n := k.vlen
		if k.mode == decode {
			n = k.n
		}
		o := outcome(st, err)
		c.Sample("%v %s: %s", k, describe(st), o)
		switch o {
		case "ok":
			c.Check(!k.tooLongPossible(st, n), "bound:"+k.key(), pos, "%v succeeds although the length may exceed the maximum %s", k, describe(st))
		case "failed":
			ok := true
			if k.mode == encode {
				ok = !k.fitsPossible(st, n)
			} else if k.enoughPossible(st) {
				s := st.Clone()
				s.AddGE(eng.Len(k.in), k.need())
				ok = !k.fitsPossible(s, n)
			}
			c.Check(ok, "refused:"+k.key(), pos, "%v fails although the length does not exceed the maximum %s", k, describe(st))
		default:
			c.Check(false, "outcome:"+k.key(), pos, "%v: outcome not determined %s", k, describe(st))
		}
	})
	// EncodingSetSize
	fn := c.Method("xdr", "XdrState", "EncodingSetSize")
	if fn == nil {
		c.Fail("anchor:EncodingSetSize", "xdr", "EncodingSetSize was not found")
		return
	}
	st := eng.NewState()
	u32 := types.Typ[types.Uint32]
	p := eng.NewAlloc("size", u32)
	n := eng.NamedSym("n", intTy)
	st.AddGE(n, eng.Int(0))
	st, xs := c.makeState(st, encode, eng.NamedSym("out", bytesT), false)
	if st == nil {
		return
	}
	it := c.Interp()
	outs := c.Run(it, st, fn, []*eng.Term{xs, p, n})
	c.Problems(it, "EncodingSetSize")
	okSeen := false
	for _, o := range outs {
		if o.Exit != "return" {
			c.Check(false, "exit:EncodingSetSize", c.FnPos(fn), "EncodingSetSize does not return")
			continue
		}
		switch outcome(o, c.errorOf(o, xs)) {
		case "ok":
			okSeen = true
			got := o.Load(p, u32)
			c.Check(o.ProvesEq(got, n), "size:EncodingSetSize", c.FnPos(fn), "EncodingSetSize stores %v instead of the length %s", got, describe(o))
		case "failed":
			s := o.Clone()
			c.Check(!(s.AddGE(eng.Int(1<<32-1), n) && s.Feasible()), "refused:EncodingSetSize", c.FnPos(fn), "EncodingSetSize refuses a length that fits %s", describe(o))
		default:
			c.Check(false, "outcome:EncodingSetSize", c.FnPos(fn), "outcome not determined")
		}
	}
	c.Check(okSeen, "works:EncodingSetSize", c.FnPos(fn), "EncodingSetSize never succeeds")
	// bounds as the codecs of the shipped packages use them
	bounds := func() {
		c.shipped(func(k *codecPkg) {
			k.checkAll()
			k.report("bound", "refused-bound", "undecided")
		})
	}
	bounds()
	c.emitted(bounds, emittedFams()...)
}

func checkC03(c *Ctx) {
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	c.Rule = append(c.Rule, "Every instruction that can panic (index, slice, nil dereference, type assertion, make, division, map store) on every abstract path of every runtime primitive and every codec in decoding direction carries the obligation that the path's facts exclude the panic; explicit panics, process exits and unbounded recursion of the analysis are violations, and so is a successful decode of an input shorter than the value."+emittedRule)
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		if k.mode != decode {
			return
		}
		pos := c.FnPos(k.op.fn)
		c.obligations(st, k.op.name)
		if c.Check(st.Exit == "return", "exit:"+k.key(), pos, "%v ends in %s %s", k, st.Exit, describe(st)) {
			o := outcome(st, err)
			c.Check(o != "unknown", "outcome:"+k.key(), pos, "%v: failure not determined %s", k, describe(st))
			if o == "ok" {
				c.Check(!k.shortPossible(st), "short:"+k.key(), pos, "%v succeeds on an input that is too short %s", k, describe(st))
			}
			c.Sample("%v %s: %s, %d panic obligations", k, describe(st), o, len(st.Obligs))
		}
	})
	c.codecC03()
	c.emitted(c.codecC03, emittedFams()...)
}

// obligations turns undischarged panic obligations into violations.
func (c *Ctx) obligations(st *eng.State, where string) {
	for _, o := range st.Obligs {
		if o.In != nil && !c.InRepo(o.In) && o.In.Pkg != nil && o.OK {
			c.Oblig++
			c.Discharge++
			continue
		}
		fn := ""
		if o.In != nil {
			fn = o.In.Name()
		}
		c.Check(o.OK, "panic:"+o.Kind+":"+where+":"+fn, c.Pos(o.Pos), "%s: possible panic in %s: %s (%v not excluded) %s", where, fn, o.What, o.Data, describe(st))
	}
}

func checkC04(c *Ctx) {
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	c.Rule = append(c.Rule, "Every primitive is analysed from a coding state on which an error has been set, in both directions: it must return with the coding state term-for-term unchanged (the same error, output, input) and the value, its bytes and the input unwritten. From a good state every exit must have a determined outcome, and no store on any path may clear an error that an earlier store has set. SetError must leave an error; Encoding and Decoding must be false on a failed state; EncodeBuf and DecodeBuf must return exactly the error of the state after coding."+emittedRule)
	c.libRun(true, func(k *caseT, st *eng.State, err *eng.Term) {
		pos := c.FnPos(k.op.fn)
		if st.Exit != "return" {
			c.Check(false, "exit:"+k.key(), pos, "%v ends in %s", k, st.Exit)
			return
		}
		t := c.Type("xdr", "XdrState")
		a, b := k.init.Load(k.xs, t), st.Load(k.xs, t)
		c.Check(a == b, "state:"+k.key(), pos, "%v changes the coding state from %v to %v %s", k, a, b, describe(st))
		if k.op.kind != "array" {
			x, y := k.init.Load(k.v, k.op.elem), st.Load(k.v, k.op.elem)
			c.Check(x == y, "value:"+k.key(), pos, "%v changes the value from %v to %v %s", k, x, y, describe(st))
		}
		c.untouched(k, st, "bytes:"+k.key(), true, true)
		c.Sample("%v %s: unchanged", k, describe(st))
	})
	c.afterStore = c.sticky
	defer func() { c.afterStore = nil }()
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		if st.Exit == "return" {
			c.Check(outcome(st, err) != "unknown", "outcome:"+k.key(), c.FnPos(k.op.fn), "%v: failure not determined %s", k, describe(st))
		}
	})
	for _, m := range []mode{encode, decode} {
		for _, failed := range []bool{false, true} {
			st, xs := c.makeState(eng.NewState(), m, eng.NamedSym("buf", bytesT), failed)
			if st == nil {
				return
			}
			for _, q := range []string{"Encoding", "Decoding"} {
				fn := c.Method("xdr", "XdrState", q)
				if fn == nil {
					c.Fail("anchor:"+q, "xdr", "%s was not found", q)
					continue
				}
				s, r := c.single(st, fn, xs)
				if s == nil {
					continue
				}
				want := !failed && (m == encode) == (q == "Encoding")
				v, k := s.Decide(r)
				c.Check(k && v == want, "mode:"+q, c.FnPos(fn), "%s() is %v on a %v state (failed: %v)", q, r, m, failed)
			}
			fn := c.Method("xdr", "XdrState", "SetError")
			s, _ := c.single(st, fn, xs, eng.NamedSym("message", strTy))
			if s != nil {
				c.Check(outcome(s, c.errorOf(s, xs)) == "failed", "seterror", c.FnPos(fn), "SetError does not leave an error")
			}
			for _, q := range []string{"EncodingSetSize", "DecodingCheckSize"} {
				fn := c.Method("xdr", "XdrState", q)
				if fn == nil || !failed {
					continue
				}
				n := eng.NewAlloc("size", types.Typ[types.Uint32])
				args := []*eng.Term{xs, n}
				if q == "EncodingSetSize" {
					args = append(args, eng.NamedSym("n", intTy))
				}
				s2 := st.Clone()
				s2.SetMem(n, eng.NamedSym("oldsize", types.Typ[types.Uint32]), types.Typ[types.Uint32])
				it := c.Interp()
				for _, o := range c.Run(it, s2, fn, args) {
					t := c.Type("xdr", "XdrState")
					c.Check(o.Exit == "return" && s2.Load(xs, t) == o.Load(xs, t) && o.Load(n, types.Typ[types.Uint32]) == s2.Load(n, types.Typ[types.Uint32]),
						"failed:"+q, c.FnPos(fn), "%s has an effect on a failed state", q)
				}
				c.Problems(it, q)
			}
		}
	}
	c.bufHelpers(true)
	c.codecC04()
	c.emitted(c.codecC04, emittedFams()...)
}

// sticky observes every store to the coding state: once the error is set, no
// store may clear it, not even inside one operation.
func (c *Ctx) sticky(k *caseT) func(*eng.State, *eng.Term, *ssa.Store) {
	busy := false
	return func(st *eng.State, addr *eng.Term, in *ssa.Store) {
		if busy || !eng.Covers(k.xs, addr) {
			return
		}
		busy = true
		cur := outcome(st, c.errorOf(st.Clone(), k.xs))
		busy = false
		c.Check(st.Tag["failed"] != true || cur == "failed", "clears:"+k.op.name, c.Pos(in.Pos()), "%v clears an error that has been set %s", k, describe(st))
		if cur == "failed" {
			st.Tag["failed"] = true
		}
	}
}

// untouched reports writes to the value's bytes or the input.
func (c *Ctx) untouched(k *caseT, st *eng.State, key string, value, input bool) {
	reg := eng.Region(k.in)
	for _, w := range st.Writes() {
		if input && eng.Covers(reg, w) {
			c.Check(false, key, c.FnPos(k.op.fn), "%v writes to the given buffer at %v %s", k, w, describe(st))
			return
		}
		if value && k.vr != nil && eng.Covers(k.vr, w) {
			c.Check(false, key, c.FnPos(k.op.fn), "%v writes to the bytes of the value at %v %s", k, w, describe(st))
			return
		}
		if value && k.v.Op == "alloc" && eng.Covers(k.v, w) {
			c.Check(false, key, c.FnPos(k.op.fn), "%v writes to the value at %v %s", k, w, describe(st))
			return
		}
	}
	c.Check(true, key, "", "")
}

func checkC05(c *Ctx) {
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	c.Rule = append(c.Rule, "No store, copy or in-place append on any path of a primitive reaches the value or the bytes already written (encoding) or the input bytes (decoding); a decoded byte slice that shares the input has capacity equal to its length on every path; strings come from a copying conversion, and no unsafe conversion occurs. The same rule is applied to every codec of the shipped packages and to EncodeBuf and DecodeBuf."+emittedRule)
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		if st.Exit != "return" {
			return
		}
		pos := c.FnPos(k.op.fn)
		c.untouched(k, st, "write:"+k.key(), k.mode == encode, true)
		reg := eng.Region(k.in)
		for _, e := range st.Events {
			if e.Kind == "unsafe" {
				c.Check(false, "unsafe:"+k.key(), c.Pos(e.Pos), "%v uses an unsafe conversion", k)
			}
			if e.Kind == "append" {
				r, _, n, cp := eng.SliceParts(e.Args[0])
				bad := (k.mode == decode && r == reg || k.mode == encode && k.vr != nil && r == k.vr) && !st.ProvesEq(n, cp)
				c.Check(!bad, "append:"+k.key(), c.Pos(e.Pos), "%v appends in place to %v", k, e.Args[0])
			}
		}
		if k.mode == decode && k.op.kind == "var" && outcome(st, err) != "failed" {
			s := st.Load(k.v, bytesT)
			r, _, n, cp := eng.SliceParts(s)
			c.Check(r != reg || st.ProvesEq(n, cp), "capacity:"+k.key(), pos, "%v: the decoded slice %v can be extended over the input %s", k, s, describe(st))
		}
		c.Sample("%v %s: %d writes, all local", k, describe(st), len(st.Writes()))
	})
	c.bufHelpers(false)
	c.codecC05()
	c.emitted(c.codecC05, emittedFams()...)
}

// bufHelpers checks EncodeBuf and DecodeBuf.
func (c *Ctx) bufHelpers(errRule bool) {
	for _, name := range []string{"EncodeBuf", "DecodeBuf"} {
		fn := c.Func("xdr", name)
		if fn == nil {
			c.Fail("anchor:"+name, "xdr", "%s was not found", name)
			continue
		}
		m := encode
		st := eng.NewState()
		v := eng.NamedSym("v", fn.Params[0].Type())
		args := []*eng.Term{v}
		buf := eng.NamedSym("buf", bytesT)
		if name == "DecodeBuf" {
			m = decode
			v = eng.NamedSym("v", fn.Params[1].Type())
			args = []*eng.Term{buf, v}
		}
		st.Assume(eng.Eq(v, eng.Nil), false)
		it := c.Interp()
		var xs, start *eng.Term
		var calls int
		t := c.Type("xdr", "XdrState")
		it.Hook = func(s *eng.State, k *eng.Call) ([]eng.Outcome, bool) {
			if k.Invoke && k.Recv == v && k.Obj.Name() == "Xdr" {
				return []eng.Outcome{func(s *eng.State) (*eng.Term, bool) {
					xs = k.Args[0]
					start = s.Load(xs, t)
					r := k.Opaque(s)
					s.Tag["calls"] = tagInt(s, "calls") + 1
					s.Tag["after"] = s.Load(xs, t)
					return r, true
				}}, true
			}
			return nil, false
		}
		outs := c.Run(it, st, fn, args)
		c.Problems(it, name)
		for _, o := range outs {
			if !c.Check(o.Exit == "return", "exit:"+name, c.FnPos(fn), "%s ends in %s", name, o.Exit) {
				continue
			}
			calls = tagInt(o, "calls")
			if !c.Check(calls == 1 && xs != nil, "once:"+name, c.FnPos(fn), "%s codes the value %d times", name, calls) {
				continue
			}
			// the state given to the value is a fresh one
			var b *eng.Term = eng.Nil
			if m == decode {
				b = buf
			}
			fs, fx := c.makeState(o.Clone(), m, b, false)
			if fs == nil {
				return
			}
			want := fs.Load(fx, t)
			same := want == start
			if !same && m == encode {
				// any empty output will do
				tmp := fs.Clone()
				tmp.SetMem(fx, start, t)
				g, gx := c.makeState(fs, m, b, false)
				g.SetMem(gx, start, t)
				same = c.stateDiff(g, gx, fx, m) == ""
			}
			if !errRule {
				c.Check(same, "start:"+name, c.FnPos(fn), "%s starts coding from %v", name, start)
				for _, e := range o.Events {
					if e.Kind == "unsafe" || e.Kind == "store" && eng.Derives(e.Args[0], buf) {
						c.Check(false, "write:"+name, c.Pos(e.Pos), "%s writes to the input", name)
					}
				}
				continue
			}
			want = c.errorOf(o, xs)
			got := o.Ret
			if m == encode {
				if got.Op != "tuple" {
					c.Check(false, "result:"+name, c.FnPos(fn), "unexpected result %v", got)
					continue
				}
				wb := c.Method("xdr", "XdrState", "WriteBuf")
				s2, bytes := c.single(o, wb, xs)
				if s2 == nil {
					return
				}
				okB := got.Args[0] == bytes
				if v, k := o.Decide(eng.Eq(got.Args[1], eng.Nil)); k && !v {
					okB = true
				}
				c.Check(okB, "bytes:"+name, c.FnPos(fn), "%s returns %v instead of the bytes written %v", name, got.Args[0], bytes)
				got = got.Args[1]
			}
			eq, k := o.Decide(eng.Eq(got, want))
			okE := got == want || k && eq
			if !okE {
				a, ka := o.Decide(eng.Eq(got, eng.Nil))
				b, kb := o.Decide(eng.Eq(want, eng.Nil))
				okE = ka && kb && a && b
			}
			c.Check(okE, "error:"+name, c.FnPos(fn), "%s returns %v instead of the coding error %v %s", name, got, want, describe(o))
			c.Sample("%s %s: returns %v", name, describe(o), o.Ret)
		}
	}
}

func tagInt(s *eng.State, k string) int {
	n, _ := s.Tag[k].(int)
	return n
}

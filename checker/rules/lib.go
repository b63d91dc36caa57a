package rules

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

// Checks maps property ids to their checks.
var Checks = map[string]func(*Ctx){}

type mode int

const (
	encode mode = iota
	decode
)

func (m mode) String() string {
	if m == encode {
		return "encode"
	}
	return "decode"
}

var (
	bytesT = types.NewSlice(types.Typ[types.Uint8])
	intTy  = types.Typ[types.Int]
	strTy  = types.Typ[types.String]
	byteTy = types.Typ[types.Uint8]
)

// caseT is one analysis case of a runtime primitive.
type caseT struct {
	op    *libOp
	mode  mode
	r     int  // residue of the length modulo 4
	prior bool // the coding state has already failed
	st    *eng.State
	xs    *eng.Term // *XdrState
	in    *eng.Term // input slice (decode) or bytes already written (encode)
	v     *eng.Term // location of the value (or the byte slice itself for XdrArray)
	vr    *eng.Term // region of the value's bytes, if any
	vlen  *eng.Term // length of the value being encoded
	max   *eng.Term // declared maximum or nil
	n     *eng.Term // decode: announced length
	args  []*eng.Term
	init  *eng.State
}

type libOp struct {
	name string
	fn   *ssa.Function
	kind string // bool, s32, u32, s64, u64, var, array, string, void
	elem types.Type
	meth bool // method of a type: the value is the receiver
}

func (op *libOp) width() int {
	switch op.kind {
	case "bool", "s32", "u32":
		return 4
	case "s64", "u64":
		return 8
	}
	return 0
}

func (op *libOp) variable() bool {
	return op.kind == "var" || op.kind == "array" || op.kind == "string"
}

func (c *Ctx) libOps() []*libOp {
	t := func(k types.BasicKind) types.Type { return types.Typ[k] }
	ops := []*libOp{
		{name: "XdrBool", kind: "bool", elem: t(types.Bool)},
		{name: "XdrS32", kind: "s32", elem: t(types.Int32)},
		{name: "XdrU32", kind: "u32", elem: t(types.Uint32)},
		{name: "XdrS64", kind: "s64", elem: t(types.Int64)},
		{name: "XdrU64", kind: "u64", elem: t(types.Uint64)},
		{name: "XdrVarArray", kind: "var", elem: bytesT},
		{name: "XdrArray", kind: "array", elem: bytesT},
		{name: "XdrString", kind: "string", elem: strTy},
		{name: "Bool", kind: "bool", meth: true},
		{name: "Int32", kind: "s32", meth: true},
		{name: "Uint32", kind: "u32", meth: true},
		{name: "Int64", kind: "s64", meth: true},
		{name: "Uint64", kind: "u64", meth: true},
		{name: "Void", kind: "void", meth: true},
	}
	var r []*libOp
	for _, op := range ops {
		if op.meth {
			op.fn = c.Method("xdr", op.name, "Xdr")
			if t := c.Type("xdr", op.name); t != nil {
				op.elem = t
			}
		} else {
			op.fn = c.Func("xdr", op.name)
		}
		if op.fn == nil {
			c.Fail("anchor:"+op.name, "xdr", "the runtime operation %s was not found", op.name)
			continue
		}
		r = append(r, op)
	}
	return r
}

// single runs a function that must have exactly one way to return.
func (c *Ctx) single(st *eng.State, fn *ssa.Function, args ...*eng.Term) (*eng.State, *eng.Term) {
	it := c.Interp()
	outs := it.Run(st, fn, args)
	if len(outs) != 1 || outs[0].Exit != "return" {
		c.Fail("single:"+fn.Name(), c.FnPos(fn), "%s does not simply return a value", fn.Name())
		return nil, nil
	}
	c.Problems(it, fn.Name())
	return outs[0], outs[0].Ret
}

func (c *Ctx) makeState(st *eng.State, m mode, buf *eng.Term, failed bool) (*eng.State, *eng.Term) {
	name := "MakeReader"
	if m == encode {
		name = "MakeWriter"
	}
	fn := c.Func("xdr", name)
	if fn == nil {
		c.Fail("anchor:"+name, "xdr", "%s was not found", name)
		return nil, nil
	}
	st2, xs := c.single(st, fn, buf)
	if st2 == nil {
		return nil, nil
	}
	if failed {
		se := c.Method("xdr", "XdrState", "SetError")
		if se == nil {
			c.Fail("anchor:SetError", "xdr", "SetError was not found")
			return nil, nil
		}
		st2, _ = c.single(st2, se, xs, eng.Str("earlier failure"))
		if st2 == nil {
			return nil, nil
		}
	}
	st2.ResetTrace()
	return st2, xs
}

// errorOf evaluates xs.Error().
func (c *Ctx) errorOf(st *eng.State, xs *eng.Term) *eng.Term {
	fn := c.Method("xdr", "XdrState", "Error")
	if fn == nil {
		c.Fail("anchor:Error", "xdr", "Error was not found")
		return eng.Nil
	}
	it := c.Interp()
	outs := it.Run(st, fn, []*eng.Term{xs})
	if len(outs) != 1 || outs[0].Exit != "return" {
		c.Fail("single:Error", c.FnPos(fn), "Error does not simply return the error")
		return eng.Nil
	}
	return outs[0].Ret
}

// opCase prepares one case.
func (c *Ctx) opCase(op *libOp, m mode, r int, failed bool) *caseT {
	st := eng.NewState()
	k := &caseT{op: op, mode: m, r: r, prior: failed}
	name := "in"
	if m == encode {
		name = "out"
	}
	k.in = eng.NamedSym(name, bytesT)
	rs := func() *eng.Term {
		q := eng.Sym("q", intTy)
		st.AddGE(q, eng.Int(0))
		st.AddGE(eng.Int(1<<40), q)
		return eng.Add(eng.MulC(q, 4), eng.Int(int64(r)))
	}
	if op.variable() {
		k.vr = eng.NewAlloc("V", types.NewArray(byteTy, -1))
		st.Havoc(k.vr)
		vcap := eng.Sym("vcap", intTy)
		switch {
		case m == encode || op.kind == "array":
			k.vlen = rs()
		default:
			k.vlen = eng.Sym("oldlen", intTy)
			st.AddGE(k.vlen, eng.Int(0))
		}
		st.AddGE(vcap, k.vlen)
		sl := eng.MkSlice(k.vr, eng.Int(0), k.vlen, vcap)
		switch op.kind {
		case "array":
			k.v = sl
		case "var":
			k.v = eng.NewAlloc("v", bytesT)
			st.SetMem(k.v, sl, bytesT)
		case "string":
			k.v = eng.NewAlloc("v", strTy)
			ps, _ := st.SliceContent(sl)
			s := eng.StrOf(ps)
			st.SetMem(k.v, s, strTy)
		}
		if op.kind != "array" {
			k.max = eng.NamedSym("maxlen", intTy)
		}
		if m == decode && op.kind != "array" {
			// announced length 4t+r: fix the residue of the last length byte
			t := eng.Sym("t", byteTy)
			st.AddGE(eng.Int(63), t)
			b3 := eng.Add(eng.MulC(t, 4), eng.Int(int64(r)))
			reg := eng.Region(k.in)
			st.SetMem(eng.Index(reg, eng.Int(3)), b3, byteTy)
			var bs []*eng.Term
			for i := int64(0); i < 4; i++ {
				bs = append(bs, st.Load(eng.Index(reg, eng.Int(i)), byteTy))
			}
			k.n = st.BE(bs...)
		}
		if op.kind == "array" {
			k.n = k.vlen
		}
	} else if op.kind != "void" {
		k.v = eng.NewAlloc("v", op.elem)
		st.Havoc(k.v)
	} else {
		k.v = eng.NewAlloc("v", op.elem)
	}
	st, xs := c.makeState(st, m, k.in, failed)
	if st == nil {
		return nil
	}
	k.st, k.xs = st, xs
	switch {
	case op.meth:
		k.args = []*eng.Term{k.v, xs}
	case op.kind == "var" || op.kind == "string":
		k.args = []*eng.Term{xs, k.max, k.v}
	default:
		k.args = []*eng.Term{xs, k.v}
	}
	k.init = st.Clone()
	return k
}

// cases enumerates the cases of an operation.
func (c *Ctx) cases(op *libOp, failed bool) []*caseT {
	var ks []*caseT
	for _, m := range []mode{encode, decode} {
		nr := 1
		if op.variable() {
			nr = 4
		}
		for r := 0; r < nr; r++ {
			if k := c.opCase(op, m, r, failed); k != nil {
				ks = append(ks, k)
			}
		}
	}
	return ks
}

func (k *caseT) String() string {
	s := fmt.Sprintf("%s %v", k.op.name, k.mode)
	if k.op.variable() {
		s += fmt.Sprintf(" len=4q+%d", k.r)
	}
	if k.prior {
		s += " (already failed)"
	}
	return s
}

func (k *caseT) key() string {
	return fmt.Sprintf("%s:%v", k.op.name, k.mode)
}

// wire is the RFC 4506 form of the value being encoded.
func (k *caseT) wire(st *eng.State) []*eng.Term {
	var ps []*eng.Term
	word := func(x *eng.Term, n int) {
		for i := n - 1; i >= 0; i-- {
			ps = append(ps, st.ByteOf(x, i))
		}
	}
	switch k.op.kind {
	case "bool":
		b := k.init.Load(k.v, k.op.elem)
		if v, known := st.Decide(b); known && v {
			word(eng.Int(1), 4)
		} else if known {
			word(eng.Int(0), 4)
		} else {
			return nil
		}
	case "s32", "u32":
		word(k.init.Load(k.v, k.op.elem), 4)
	case "s64", "u64":
		word(k.init.Load(k.v, k.op.elem), 8)
	case "void":
	default:
		if k.op.kind != "array" {
			word(k.vlen, 4)
		}
		if k.vlen != eng.Int(0) {
			b, _ := k.init.Content(k.vr, eng.Int(0), k.vlen)
			ps = append(ps, b...)
		}
		for i := 0; i < (4-k.r)%4; i++ {
			ps = append(ps, eng.Int(0))
		}
	}
	return ps
}

// need is how many bytes decoding consumes.
func (k *caseT) need() *eng.Term {
	if w := k.op.width(); w > 0 {
		return eng.Int(int64(w))
	}
	if k.op.kind == "void" {
		return eng.Int(0)
	}
	n := eng.Add(k.n, eng.Int(int64((4-k.r)%4)))
	if k.op.kind != "array" {
		n = eng.Add(n, eng.Int(4))
	}
	return n
}

// samePieces compares contents, with facts of the path.
func samePieces(st *eng.State, a, b []*eng.Term) bool {
	a, b = normPieces(st, a), normPieces(st, b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if a[i].Op == "blob" && b[i].Op == "blob" && a[i].Args[0] == b[i].Args[0] && a[i].K == b[i].K &&
			st.ProvesEq(a[i].Args[1], b[i].Args[1]) && st.ProvesEq(a[i].Args[2], b[i].Args[2]) {
			continue
		}
		if a[i].Op == "blob" || b[i].Op == "blob" {
			return false
		}
		if st.Norm(a[i]) == st.Norm(b[i]) || st.ProvesEq(a[i], b[i]) {
			continue
		}
		return false
	}
	return true
}

func normPieces(st *eng.State, ps []*eng.Term) []*eng.Term {
	var out []*eng.Term
	for _, p := range ps {
		switch p.Op {
		case "blob":
			if n, ok := st.Norm(p.Args[2]).Int64(); ok && n == 0 {
				continue
			}
			if st.ProvesEq(p.Args[2], eng.Int(0)) {
				continue
			}
		case "zeros":
			n, ok := st.Norm(p.Args[0]).Int64()
			if ok && n < 64 {
				for i := int64(0); i < n; i++ {
					out = append(out, eng.Int(0))
				}
				continue
			}
		case "strbytes":
			s := p.Args[0]
			if s.Op == "strof" {
				out = append(out, normPieces(st, s.Args)...)
				continue
			}
			if v, ok := s.StrVal(); ok && v == "" {
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// structDiff compares two coding states field by field; byte slices are
// compared by what they denote (remaining input, or bytes written).
func (c *Ctx) stateDiff(st *eng.State, a, b *eng.Term, m mode) string {
	t := c.Type("xdr", "XdrState")
	if t == nil {
		return "type XdrState was not found"
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "XdrState is not a struct"
	}
	va, vb := st.Load(a, t), st.Load(b, t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x, y := va.Args[i], vb.Args[i]
		if x == y {
			continue
		}
		if types.Identical(f.Type().Underlying(), bytesT) {
			if m == encode {
				px, ok1 := st.SliceContent(x)
				py, ok2 := st.SliceContent(y)
				if ok1 && ok2 && samePieces(st, px, py) {
					continue
				}
				return fmt.Sprintf("%s holds %v instead of %v", f.Name(), px, py)
			}
			rx, ox, nx, _ := eng.SliceParts(x)
			ry, oy, ny, _ := eng.SliceParts(y)
			if rx == ry && st.ProvesEq(ox, oy) && st.ProvesEq(nx, ny) {
				continue
			}
			if st.ProvesEq(nx, eng.Int(0)) && st.ProvesEq(ny, eng.Int(0)) {
				continue
			}
			return fmt.Sprintf("%s is %v instead of %v", f.Name(), x, y)
		}
		if st.ProvesEq(x, y) {
			continue
		}
		if v, known := st.Decide(eng.Eq(x, y)); known && v {
			continue
		}
		return fmt.Sprintf("%s is %v instead of %v", f.Name(), st.EqTo(x), y)
	}
	return ""
}

// fits: not longer than the declared maximum and the length field.
func (k *caseT) tooLongPossible(st *eng.State, n *eng.Term) bool {
	s := st.Clone()
	if s.AddGE(n, eng.Int(1<<32)) && s.Feasible() {
		return true
	}
	if k.max != nil {
		s := st.Clone()
		if s.AddGE(k.max, eng.Int(0)) && s.AddGE(n, eng.Add(k.max, eng.Int(1))) && s.Feasible() {
			return true
		}
	}
	return false
}

func (k *caseT) fitsPossible(st *eng.State, n *eng.Term) bool {
	try := func(f func(s *eng.State) bool) bool {
		s := st.Clone()
		return s.AddGE(eng.Int(1<<32-1), n) && f(s) && s.Feasible()
	}
	if k.max == nil {
		return try(func(s *eng.State) bool { return true })
	}
	return try(func(s *eng.State) bool { return s.AddGE(eng.Int(-1), k.max) }) ||
		try(func(s *eng.State) bool { return s.AddGE(k.max, n) })
}

// enoughPossible: the input may hold everything the value needs.
func (k *caseT) enoughPossible(st *eng.State) bool {
	s := st.Clone()
	return s.AddGE(eng.Len(k.in), k.need()) && s.Feasible()
}

func (k *caseT) shortPossible(st *eng.State) bool {
	s := st.Clone()
	return s.AddGE(eng.Sub(k.need(), eng.Int(1)), eng.Len(k.in)) && s.Feasible()
}

func describe(st *eng.State) string {
	s := ""
	for i, f := range st.Conds {
		if i > 0 {
			s += ", "
		}
		if !f.Val {
			s += "not "
		}
		s += f.Cond.String()
	}
	if s == "" {
		return "always"
	}
	return "when " + s
}

// libResults runs all cases of all primitives.
func (c *Ctx) libRun(failed bool, f func(k *caseT, st *eng.State, err *eng.Term)) {
	if c.Prog == nil && !c.Load("./xdr") {
		return
	}
	for _, op := range c.libOps() {
		for _, k := range c.cases(op, failed) {
			it := c.Interp()
			if c.afterStore != nil {
				it.AfterStore = c.afterStore(k)
			}
			outs := c.Run(it, k.st, op.fn, k.args)
			c.Problems(it, k.op.name)
			if len(outs) == 0 {
				c.Fail("nopath:"+k.key(), c.FnPos(op.fn), "%v has no path", k)
			}
			for _, st := range outs {
				var e *eng.Term
				if st.Exit == "return" {
					e = c.errorOf(st, k.xs)
				}
				f(k, st, e)
			}
		}
	}
}

// outcome classifies a returned error: ok, failed or unknown.
func outcome(st *eng.State, err *eng.Term) string {
	if v, known := st.Decide(eng.Eq(err, eng.Nil)); known {
		if v {
			return "ok"
		}
		return "failed"
	}
	return "unknown"
}

func checkC01(c *Ctx) {
	c.Rule = append(c.Rule, "Every exit path of every runtime primitive is computed by path-partitioned abstract interpretation (value numbering of bytes, linear inequalities for lengths), per direction and per residue of the length modulo 4, and compared with the declared RFC 4506 effect: bytes appended on encoding; value produced and input consumed on decoding; no other change of the coding state. A successful exit whose effect differs, or a failing exit whose path condition allows a valid value, is reported.")
	// the runtime's names for the two booleans
	if p := c.Pkgs[c.pkgPath("xdr")]; p != nil {
		for n, want := range map[string]bool{"TRUE": true, "FALSE": false} {
			if o, ok := p.Pkg.Scope().Lookup(n).(*types.Const); ok {
				v := o.Val()
				c.Check(v.Kind() == constant.Bool && constant.BoolVal(v) == want, "constant:"+n, c.Pos(o.Pos()), "%s is %v", n, v)
			}
		}
	}
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		key := k.key()
		pos := c.FnPos(k.op.fn)
		if st.Exit != "return" {
			c.Check(false, "exit:"+key, pos, "%v does not return (%s) %s", k, st.Exit, describe(st))
			return
		}
		o := outcome(st, err)
		c.Sample("%v %s: %s", k, describe(st), o)
		if o == "unknown" {
			c.Check(false, "outcome:"+key, pos, "%v: whether it fails is not determined on a path %s", k, describe(st))
			return
		}
		if k.mode == encode {
			if o == "failed" {
				if k.op.variable() && k.op.kind != "array" {
					c.Check(!k.fitsPossible(st, k.vlen), "refused:"+key, pos, "%v fails for a value that fits %s", k, describe(st))
				} else {
					c.Check(false, "refused:"+key, pos, "%v fails %s", k, describe(st))
				}
				return
			}
			w := k.wire(st)
			if w == nil && k.op.kind == "bool" {
				c.Check(false, "wire:"+key, pos, "%v: the bytes written do not depend on the value", k)
				return
			}
			ws := st.Clone()
			base, ok := ws.SliceContent(k.in)
			if !ok {
				base = nil
			}
			exp := ws.NewSlice("expected", byteTy, append(append([]*eng.Term{}, base...), w...), eng.Add(eng.Len(k.in), pieceSum(w)))
			es, x2 := c.makeState(ws, encode, exp, false)
			if es == nil {
				return
			}
			d := c.stateDiff(es, k.xs, x2, encode)
			c.Check(d == "", "wire:"+key, pos, "%v %s: %s", k, describe(st), d)
			return
		}
		// decode
		if o == "failed" {
			ok := true
			if k.enoughPossible(st) {
				s := st.Clone()
				s.AddGE(eng.Len(k.in), k.need())
				ok = k.max != nil && !k.fitsPossible(s, k.n)
			}
			c.Check(ok, "refused:"+key, pos, "%v fails although the input is long enough %s", k, describe(st))
			return
		}
		if k.shortPossible(st) {
			c.Check(false, "short:"+key, pos, "%v succeeds on an input that is too short %s", k, describe(st))
			return
		}
		// remaining input
		ws := st.Clone()
		reg, off, ln, cp := eng.SliceParts(k.in)
		n := k.need()
		rest := eng.MkSlice(reg, eng.Add(off, n), eng.Sub(ln, n), eng.Sub(cp, n))
		es, x2 := c.makeState(ws, decode, rest, false)
		if es == nil {
			return
		}
		d := c.stateDiff(es, k.xs, x2, decode)
		c.Check(d == "", "consumed:"+key, pos, "%v %s: %s", k, describe(st), d)
		// value
		var bs []*eng.Term
		for i := 0; i < 8; i++ {
			bs = append(bs, k.init.Load(eng.Index(reg, eng.Int(int64(i))), byteTy))
		}
		switch k.op.kind {
		case "bool":
			got := st.Load(k.v, k.op.elem)
			z, zk := st.Decide(eng.Eq(k.init.BE(bs[:4]...), eng.Int(0)))
			g, gk := st.Decide(got)
			good := zk && gk && g == !z
			if !gk && !zk {
				good = got == eng.Not(eng.Eq(k.init.BE(bs[:4]...), eng.Int(0)))
			}
			c.Check(good, "value:"+key, pos, "%v %s: value is %v for input word %v", k, describe(st), got, k.init.BE(bs[:4]...))
		case "s32", "u32", "s64", "u64":
			w := k.op.width()
			u := types.Typ[types.Uint32]
			if w == 8 {
				u = types.Typ[types.Uint64]
			}
			exp := st.Convert(k.init.BE(bs[:w]...), u, k.op.elem)
			got := st.Load(k.v, k.op.elem)
			c.Check(st.Norm(got) == st.Norm(exp) || st.ProvesEq(got, exp), "value:"+key, pos, "%v %s: value is %v instead of %v", k, describe(st), got, exp)
		case "var", "string", "array":
			o4 := int64(4)
			if k.op.kind == "array" {
				o4 = 0
			}
			exp, _ := k.init.Content(reg, eng.Add(off, eng.Int(o4)), k.n)
			var got []*eng.Term
			var ok bool
			switch k.op.kind {
			case "string":
				s := st.Load(k.v, strTy)
				if s.Op == "strof" {
					got, ok = s.Args, true
				} else if v, isC := s.StrVal(); isC && v == "" {
					ok = true
				}
				c.Check(ok, "value:"+key, pos, "%v %s: string value %v", k, describe(st), s)
				if !ok {
					return
				}
			case "var":
				s := st.Load(k.v, bytesT)
				got, ok = st.SliceContent(s)
				c.Check(st.ProvesEq(eng.Len(s), k.n), "length:"+key, pos, "%v %s: length is %v instead of %v", k, describe(st), eng.Len(s), k.n)
			case "array":
				got, ok = st.Content(k.vr, eng.Int(0), k.vlen)
			}
			c.Check(ok && samePieces(st, got, exp), "value:"+key, pos, "%v %s: bytes are %v instead of %v", k, describe(st), got, exp)
		}
	})
}

func pieceSum(ps []*eng.Term) *eng.Term {
	n := eng.Int(0)
	for _, p := range ps {
		n = eng.Add(n, eng.PieceLen(p))
	}
	return n
}

func init() { Checks["C01"] = checkC01 }

package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/eng"
)

func init() {
	Checks["C06"] = checkC06
	Checks["C07"] = checkC07
	Checks["C26"] = checkC26
}

const allocSlack = 256

// calleesOf lists the repository functions a function refers to: static
// calls, closures and function values, and every codec of the program when
// it calls Xdr through an interface.
func (c *Ctx) calleesOf(fn *ssa.Function, all []*ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() && call.Common().Method.Name() == "Xdr" {
				r = append(r, all...)
			}
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && c.InRepo(f) {
					r = append(r, f)
				}
			}
		}
	}
	r = append(r, fn.AnonFuncs...)
	return r
}

// sccs finds the cyclic components reachable from the roots.
func (c *Ctx) sccs(roots, all []*ssa.Function) [][]*ssa.Function {
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range c.calleesOf(f, all) {
			if g == f {
				self = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			var comp []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				out = append(out, comp)
			}
		}
	}
	for _, f := range roots {
		if index[f] == 0 {
			visit(f)
		}
	}
	if c.Extra == nil {
		c.Extra = map[string]any{}
	}
	c.Extra["call_graph_functions"] = n
	return out
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

// cycleKey names a cycle by the types whose codecs are on it.
func cycleKey(comp []*ssa.Function) string {
	set := map[string]bool{}
	for _, f := range comp {
		if n := recvName(f); n != "" {
			set[f.Pkg.Pkg.Name()+"."+n] = true
		}
	}
	if len(set) == 0 {
		for _, f := range comp {
			set[f.Name()] = true
		}
	}
	var l []string
	for n := range set {
		l = append(l, n)
	}
	sort.Strings(l)
	return strings.Join(l, "+")
}

func (c *Ctx) allCodecs() []*ssa.Function {
	var r []*ssa.Function
	c.shipped(func(k *codecPkg) { r = append(r, k.codecs()...) })
	return r
}

func checkC26(c *Ctx) {
	c.Rule = append(c.Rule, "The static call graph (calls, closures, function values, interface calls of Xdr resolved to every codec) of the runtime and of every codec of the shipped packages has no cycle: without recursion the stack a decoder uses is bounded by the depth of the graph. Each cyclic component is a violation, named by the types on it.")
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	codecs := c.allCodecs()
	roots := append([]*ssa.Function{}, codecs...)
	for _, op := range c.libOps() {
		roots = append(roots, op.fn)
	}
	comps := c.sccs(roots, codecs)
	for _, f := range roots {
		c.Funcs0(f)
	}
	c.Oblig += len(roots)
	c.Discharge += len(roots)
	for _, comp := range comps {
		sort.Slice(comp, func(i, j int) bool { return comp[i].String() < comp[j].String() })
		var ns []string
		for _, f := range comp {
			ns = append(ns, f.RelString(f.Pkg.Pkg))
		}
		c.Discharge--
		c.Fail("cycle:"+cycleKey(comp), c.FnPos(comp[0]), "decoding recurses without bound through %s", strings.Join(ns, " -> "))
	}
	c.Sample("%d codecs and primitives, %d cyclic components", len(roots), len(comps))
}

// Funcs0 records fn as analysed.
func (c *Ctx) Funcs0(fn *ssa.Function) {
	if c.Funcs == nil {
		c.Funcs = map[*ssa.Function]bool{}
	}
	c.Funcs[fn] = true
}

func checkC06(c *Ctx) {
	c.Rule = append(c.Rule, "Every allocation (make, new, growing append, string conversion) on every decoding path of every runtime primitive and every codec is bounded: its element count is provably (linear facts of the path) at most the bytes of the input that remain, plus a constant; for array elements, which take a word each, at most the words. Allocations inside loops and recursive codecs are paid for by a successful coding step of the same iteration or call; a codec whose state has failed allocates nothing; an array is never allocated inside a recursive codec. Amortisation over the consumed input then gives the linear bound."+emittedRule)
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	sites := 0
	bounded := func(st *eng.State, n, in *eng.Term) bool {
		return st.ProvesGE(eng.Add(eng.Len(in), eng.Int(allocSlack)), n)
	}
	// events that allocate
	size := func(e eng.Event) []*eng.Term {
		switch e.Kind {
		case "make":
			return e.Args[:2]
		case "conv":
			return e.Args[:1]
		case "append":
			return e.Args[2:3]
		case "new":
			return []*eng.Term{eng.Int(1)}
		}
		return nil
	}
	for _, failed := range []bool{false, true} {
		c.libRun(failed, func(k *caseT, st *eng.State, err *eng.Term) {
			if k.mode != decode {
				return
			}
			for _, e := range st.Events {
				for _, n := range size(e) {
					sites++
					ok := bounded(st, n, k.in)
					if e.Kind == "make" && !ok && k.op.kind == "array" {
						ok = st.ProvesGE(eng.Add(k.vlen, eng.Int(allocSlack)), n)
					}
					c.Check(ok, "alloc:"+e.Kind+":"+k.op.name, c.Pos(e.Pos), "%v allocates %v bytes, more than the input of %v justifies %s", k, n, eng.Len(k.in), describe(st))
				}
			}
		})
	}
	codecPart := func() {
		codecs := c.allCodecs()
		rec := map[*ssa.Function]bool{}
		for _, comp := range c.sccs(codecs, codecs) {
			for _, f := range comp {
				rec[f] = true
			}
		}
		// recurses: the path calls a codec that can call this one again
		recurses := func(st *eng.State, fn *ssa.Function) bool {
			if !rec[fn] {
				return false
			}
			for i, e := range st.Events {
				if e.Kind == "step" && !overList(st, i) {
					for f := range rec {
						if "(*"+recvName(f)+").Xdr" == e.Name {
							return true
						}
					}
				}
			}
			return false
		}
		buf := eng.NamedSym("buf", bytesT)
		// the input that remained after some step before event i is part of the
		// input: steps only take from it, and nothing else reaches it
		boundedAt := func(st *eng.State, i int, n *eng.Term) bool {
			if bounded(st, n, buf) {
				return true
			}
			for j := i - 1; j >= 0; j-- {
				if e := st.Events[j]; e.Kind == "step" {
					if r := e.Data.(*contractEv).Rest; r != nil && bounded(st, n, r) {
						return true
					}
				}
			}
			return false
		}
		for _, failed := range []bool{false, true} {
			failed := failed
			c.eachCodec([]mode{decode}, failed, func(r *codecRunT) {
				for _, st := range r.outs {
					for i, e := range st.Events {
						ns := size(e)
						if ns == nil {
							continue
						}
						sites++
						what := fmt.Sprintf("%s in %v", e.Kind, r)
						constant := true
						for _, n := range ns {
							if !st.ProvesGE(eng.Int(allocSlack), n) {
								constant = false
							}
							if et, ok := e.Data.(types.Type); e.Kind == "make" && ok && !isByte(et) {
								// no form of an element is shorter than a word
								n = eng.MulC(n, 4)
							}
							c.Check(boundedAt(st, i, n), "alloc:"+e.Kind+":"+r.name, c.Pos(e.Pos), "%s allocates %v elements, which the remaining input does not justify %s", what, n, describe(st))
						}
						if failed {
							zero := true
							for _, n := range ns {
								if !st.ProvesGE(eng.Int(0), n) {
									zero = false
								}
							}
							c.Check(zero || constant && (overList(st, i) || !recurses(st, r.fn) && !inLoop(st, i)), "failed:"+e.Kind+":"+r.name, c.Pos(e.Pos), "%s allocates although decoding has already failed %s", what, describe(st))
							continue
						}
						if !constant {
							c.Check(!rec[r.fn], "recursive:"+r.name, c.Pos(e.Pos), "%s allocates an array of %v elements in a recursive codec: nested announcements are not paid for by input", what, ns[0])
						}
						if rec[r.fn] || inLoop(st, i) {
							c.Check(paid(st, i, inLoop(st, i), constant), "unpaid:"+e.Kind+":"+r.name, c.Pos(e.Pos), "%s allocates without any input being consumed in the same iteration %s", what, describe(st))
						}
					}
					c.Oblig++
					c.Discharge++
				}
			})
		}
	}
	codecPart()
	c.emitted(codecPart, append(emittedFams(), genRecArrays())...)
	c.Check(sites > 0, "sites", "xdr", "no allocation sites were found")
	c.Extra["allocation_events"] = sites
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// inLoop reports whether event i lies in an iteration that the path repeats.
func inLoop(st *eng.State, i int) bool {
	id, _ := loopAt(st, i)
	return id >= 0
}

// overList reports whether event i lies in a loop with one round for each
// element of a list that is there.
func overList(st *eng.State, i int) bool {
	id, at := loopAt(st, i)
	if id < 0 {
		return false
	}
	li := st.Events[at].Data.(eng.LoopInfo)
	for _, f := range st.Conds {
		if t := f.Cond; f.Val && t.Op == "lt" && t.Args[1].Op == "len" {
			for _, p := range li.Phis {
				if !p.IsConst() && t.Args[0].Contains(p) {
					return true
				}
			}
		}
	}
	return false
}

func loopAt(st *eng.State, i int) (id, start int) {
	type open struct{ id, at int }
	var stack []open
	for j, e := range st.Events {
		if j == i {
			break
		}
		switch e.Kind {
		case "loophead":
			stack = append(stack, open{e.Data.(eng.LoopInfo).ID, j})
		case "loopexit":
			for len(stack) > 0 {
				t := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if t.id == e.Data.(int) {
					break
				}
			}
		}
	}
	if len(stack) == 0 {
		return -1, 0
	}
	t := stack[len(stack)-1]
	return t.id, t.at
}

// paid: a coding step on a good state that takes input or fails, in the same
// iteration. Iterations on a state that has failed before may allocate a
// constant: they find no arrays, and are no more than the elements that were
// bounded by the input when their array was allocated.
func paid(st *eng.State, i int, loop, constant bool) bool {
	start := 0
	if loop {
		_, start = loopAt(st, i)
	}
	failed := false
	for _, e := range st.Events[start:] {
		if e.Kind == "step" {
			s := e.Data.(*contractEv)
			if !s.Failed && (s.Min > 0 || s.Fails) {
				return true
			}
			failed = failed || s.Failed
		}
	}
	return loop && constant && failed
}

func checkC07(c *Ctx) {
	c.Rule = append(c.Rule, "Every decoding path of every codec starts from a destination about which nothing is known; at its end, every place that encoding the type reads (according to the definition) must hold exactly the value decoded on this path, lists must have exactly the decoded length, and optionals must be nil exactly when absent. The primitives must leave a value that is a function of the input alone on every successful exit."+emittedRule)
	if !c.Load("./xdr", "./rfc1057", "./rfc1813") {
		return
	}
	c.libRun(false, func(k *caseT, st *eng.State, err *eng.Term) {
		if k.mode != decode || st.Exit != "return" || outcome(st, err) != "ok" || k.op.kind == "void" {
			return
		}
		var got []*eng.Term
		switch k.op.kind {
		case "array":
			got, _ = st.Content(k.vr, eng.Int(0), k.vlen)
		case "var":
			s := st.Load(k.v, bytesT)
			got, _ = st.SliceContent(s)
			got = append(got, eng.Len(s))
		default:
			got = []*eng.Term{st.Load(k.v, k.op.elem)}
		}
		old := map[*eng.Term]bool{}
		if k.op.kind == "array" || k.op.kind == "var" {
			if ps, ok := k.init.Content(k.vr, eng.Int(0), k.vlen); ok {
				for _, p := range ps {
					old[p] = true
				}
			}
			if k.op.kind == "var" {
				old[eng.Len(k.init.Load(k.v, bytesT))] = true
			}
		} else {
			old[k.init.Load(k.v, k.op.elem)] = true
		}
		var dep func(t *eng.Term) bool
		seen := map[*eng.Term]bool{}
		dep = func(t *eng.Term) bool {
			if t == nil || seen[t] {
				return false
			}
			seen[t] = true
			if old[t] {
				return true
			}
			if t.Op == "blob" && k.vr != nil && t.Args[0] == k.vr && k.op.kind != "array" {
				return true
			}
			for _, a := range t.Args {
				if dep(a) {
					return true
				}
			}
			return false
		}
		for _, g := range got {
			if v, ok := g.Int64(); ok && v == 0 {
				continue
			}
			if k.op.kind == "array" && st.ProvesEq(k.vlen, eng.Int(0)) {
				continue
			}
			if dep(g) {
				// a path that establishes the old value by comparison is fine
				c.Check(false, "dest:"+k.key(), c.FnPos(k.op.fn), "%v %s: the decoded value %v depends on what the destination held before", k, describe(st), g)
			}
		}
		c.Oblig++
		c.Discharge++
		c.Sample("%v %s: %v", k, describe(st), got)
	})
	dest := func() {
		c.shipped(func(k *codecPkg) {
			k.checkAll()
			asym := map[string]bool{}
			for _, p := range k.probs {
				if p.Mode == encode && p.Cat != "refused" && p.Cat != "refused-bound" && p.Cat != "bound" {
					asym[p.Type] = true
				}
			}
			c.Oblig += k.steps + k.runs
			c.Discharge += k.steps + k.runs
			for _, p := range k.probs {
				if p.Cat == "dest" && p.Mode == decode || p.Cat == "undecided" ||
					p.Cat == "shape" && p.Mode == decode && !asym[p.Type] {
					c.Discharge--
					c.Fail(p.Cat+":"+p.Type+":"+p.Mode.String(), p.Pos, "%s", p.Text)
				}
			}
		})
	}
	dest()
	c.emitted(dest, emittedFams()...)
}

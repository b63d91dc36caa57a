package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Call describes a call about to be made.
type Call struct {
	Kind   string // call, go, defer
	Name   string // full name of the callee ("" for unknown function values)
	Fn     *ssa.Function
	Obj    *types.Func // interface method for invokes
	Invoke bool
	Recv   *Term // receiver of an unresolved invoke, or unknown function value
	Args   []*Term
	ATypes []types.Type
	RType  types.Type // result type (tuple or single), nil if none
	In     *ssa.Function
	Pos    token.Pos
	it     *Interp
}

// Outcome is one possible effect of a modelled call.
type Outcome func(st *State) (*Term, bool)

// Hook may take over a call; handled=false passes it on.
type Hook func(st *State, c *Call) (outs []Outcome, handled bool)

// Interp interprets functions abstractly.
type Interp struct {
	Prog *ssa.Program
	Hook Hook
	// AfterStore observes the state after each store instruction.
	AfterStore func(st *State, addr *Term, in *ssa.Store)
	OnEnter    func(st *State, fn *ssa.Function, args []*Term)
	Inline     func(fn *ssa.Function) bool
	Unroll     bool
	Peel       bool // peel one iteration of loops before cutting them
	Whole      bool // never unroll the first rounds of a loop of unknown length
	MaxSteps   int
	MaxPaths   int
	MaxDepth   int
	MaxIter    int
	Problems   []string
	GlobInit   map[*ssa.Global]*Term
	GlobMem    map[*Term]*Term
	Constant   map[*ssa.Global]bool // hold their initial contents for good
	loops      map[*ssa.Function]*loopInfo
	sub        []subScope
	total      int
	Funcs      map[*ssa.Function]bool // functions analysed
	Trace      bool
}

type subScope struct {
	depth  int
	header *ssa.BasicBlock
}

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (it *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if it.loops == nil {
		it.loops = map[*ssa.Function]*loopInfo{}
	}
	if l, ok := it.loops[fn]; ok {
		return l
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.headers[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	it.loops[fn] = l
	return l
}

func (it *Interp) problem(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, p := range it.Problems {
		if p == s {
			return
		}
	}
	it.Problems = append(it.Problems, s)
}

// Pos renders a source position.
func (it *Interp) Pos(p token.Pos) string {
	q := it.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// NewState returns an empty state.
func NewState() *State { return newState() }

// Run explores fn from st.
func (it *Interp) Run(st *State, fn *ssa.Function, args []*Term) []*State {
	st = st.clone()
	if it.GlobMem != nil {
		for k, v := range it.GlobMem {
			if _, ok := st.mem[k]; !ok && st.stampOf(k) == 0 {
				st.mem[k] = v
			}
		}
	}
	st.Exit = ""
	st.Ret = nil
	st.frames = nil
	it.push(st, fn, nil, args, nil)
	return it.explore(st)
}

// RunClosure explores a function value.
func (it *Interp) RunValue(st *State, fv *Term, args []*Term) []*State {
	st = st.clone()
	st.Exit = ""
	st.Ret = nil
	st.frames = nil
	fn, bind := funcOf(fv)
	it.push(st, fn, bind, args, nil)
	return it.explore(st)
}

func funcOf(t *Term) (*ssa.Function, []*Term) {
	if t.Op == "func" || t.Op == "closure" {
		return t.Obj.(*ssa.Function), t.Args
	}
	return nil, nil
}

// GlobalTerm is the address of a package-level variable; the contents of a
// constant one are known: zero, or what GlobMem says.
func GlobalTerm(g *ssa.Global, constant bool) *Term {
	t := Term{Op: "global", N: g.String(), Obj: g, T: g.Type()}
	if constant {
		t.K = 1
	}
	return mk(t)
}

// BackingTerm is the array behind a package-level slice that is constant.
func BackingTerm(g *ssa.Global, n int64) *Term {
	et := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice).Elem()
	return mk(Term{Op: "global", N: g.String() + "$array", Obj: g, K: 1, T: types.NewPointer(types.NewArray(et, n))})
}

// FuncTerm is the value of a function.
func FuncTerm(fn *ssa.Function) *Term {
	return mk(Term{Op: "func", Obj: fn, N: fn.String()})
}

func (it *Interp) push(st *State, fn *ssa.Function, bind, args []*Term, call ssa.Instruction) *frame {
	f := &frame{fn: fn, env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, cut: map[*ssa.BasicBlock]int{}, call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = Sym(p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.env[p] = bind[i]
		}
	}
	f.block = fn.Blocks[0]
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], f)
	if it.Funcs != nil {
		it.Funcs[fn] = true
	}
	if it.OnEnter != nil {
		it.OnEnter(st, fn, args)
	}
	return f
}

func (it *Interp) explore(init *State) []*State {
	var done []*State
	work := []*State{init}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if st.Exit != "" {
				done = append(done, st)
				if len(done) > it.MaxPaths {
					it.problem("more than %d paths", it.MaxPaths)
					return done
				}
				break
			}
			it.total++
			st.steps++
			if it.total > it.MaxSteps {
				it.problem("analysis step limit reached in %v", st.top().fn)
				st.Exit = "limit"
				done = append(done, st)
				return done
			}
			next, forked := it.step(st)
			if forked {
				for i := len(next) - 1; i > 0; i-- {
					work = append(work, next[i])
				}
				if len(next) == 0 {
					break
				}
				st = next[0]
			}
		}
	}
	return done
}

// val evaluates an SSA value.
func (it *Interp) val(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Zero(v.Type())
		}
		return constTerm(v.Value)
	case *ssa.Function:
		return FuncTerm(v)
	case *ssa.Global:
		return GlobalTerm(v, it.Constant[v])
	case *ssa.Builtin:
		return mk(Term{Op: "builtin", N: v.Name()})
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	it.problem("no value for %s in %v", v.Name(), st.top().fn)
	t := Sym(v.Name(), v.Type())
	st.top().env[v] = t
	return t
}

func constTerm(c constant.Value) *Term {
	if c.Kind() == constant.Float {
		if v := constant.ToInt(c); v.Kind() == constant.Int {
			c = v
		}
	}
	return Const(c)
}

func (it *Interp) set(st *State, v ssa.Value, t *Term) { st.top().env[v] = t }

func (st *State) event(e Event) {
	e.NF = len(st.Conds)
	e.Dep = len(st.frames)
	e.Thread = st.Thread
	st.Events = append(st.Events[:len(st.Events):len(st.Events)], e)
}

// Emit adds an event (for hooks).
func (st *State) Emit(e Event) { st.event(e) }

func (it *Interp) oblige(st *State, kind string, cond *Term, want bool, pos token.Pos, what string) {
	v, known := st.Decide(cond)
	ok := known && v == want
	fn := st.top().fn
	st.Obligs = append(st.Obligs[:len(st.Obligs):len(st.Obligs)], Oblig{Kind: kind, Pos: pos, In: fn, OK: ok, What: what, Data: cond})
	if !ok {
		if !st.Assume(cond, want) {
			// certain to fail
			st.Exit = "mustpanic"
		}
	}
}

// nonNil records the obligation that p can be dereferenced.
func (it *Interp) nonNil(st *State, p *Term, pos token.Pos, what string) {
	switch p.Op {
	case "alloc", "fa", "ia", "global", "nonnil":
		if p.Op == "fa" || p.Op == "ia" {
			r := Root(p)
			if r.Op == "alloc" || r.Op == "global" || r.Op == "nonnil" || r.Op == "rgn" {
				return
			}
			it.oblige(st, "nil", Eq(r, Nil), false, pos, what)
		}
		return
	}
	it.oblige(st, "nil", Eq(p, Nil), false, pos, what)
}

// NonNil records the obligation that p can be dereferenced (for hooks).
func (it *Interp) NonNil(st *State, p *Term, pos token.Pos, what string) { it.nonNil(st, p, pos, what) }

// jump transfers control to block b.
func (it *Interp) jump(st *State, b *ssa.BasicBlock) ([]*State, bool) {
	f := st.top()
	from := f.block
	li := it.loopsOf(f.fn)
	// leaving loops
	for h, id := range f.cut {
		if !li.headers[h][b] {
			e := Event{Kind: "loopexit", In: f.fn, Data: id}
			if from != h {
				e.Name = "break" // not by the test at the header
			}
			st.event(e)
			delete(f.cut, h)
		}
	}
	if len(it.sub) > 0 {
		s := it.sub[len(it.sub)-1]
		if len(st.frames) == s.depth && f.fn == s.header.Parent() && !li.headers[s.header][b] {
			st.Exit = "loopleft"
			return nil, false
		}
	}
	body, isHeader := li.headers[b]
	if isHeader {
		back := body[from]
		if id, cut := f.cut[b]; cut && back {
			// the next iteration has been accounted for
			phis := map[*ssa.Phi]*Term{}
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				phis[p] = it.val(st, p.Edges[predIndex(b, from)])
			}
			st.event(Event{Kind: "loopback", In: f.fn, Data: LoopInfo{ID: id, Header: b, Phis: phis}})
			st.Exit = "loopback"
			return nil, false
		}
		if !back {
			for h := range f.visits {
				if body[h] {
					delete(f.visits, h)
				}
			}
		}
	}
	it.enter(st, f, b, from)
	if st.Exit != "" {
		return nil, false
	}
	if isHeader {
		f.visits[b]++
		n := f.visits[b]
		limit := it.MaxIter
		if limit == 0 {
			limit = 80
		}
		if it.Unroll {
			if n > limit {
				it.problem("loop in %v at %s not bounded by %d iterations", f.fn, it.Pos(blockPos(b)), limit)
				st.Exit = "limit"
			}
			return nil, false
		}
		if n <= limit && it.headerDecided(st, b) {
			return nil, false
		}
		if it.Peel && n == 1 {
			return nil, false
		}
		it.cutLoop(st, b)
	}
	return nil, false
}

// LoopInfo is attached to loop events.
type LoopInfo struct {
	ID     int
	Header *ssa.BasicBlock
	Phis   map[*ssa.Phi]*Term
	Init   map[*ssa.Phi]*Term

	writes, havW int // recorded before the loop
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

func (it *Interp) enter(st *State, f *frame, b, from *ssa.BasicBlock) {
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, it.val(st, p.Edges[predIndex(b, from)]))
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.prev = from
	f.block = b
	f.idx = len(phis)
}

// headerDecided reports whether the loop test at the header is decided, by
// executing the header on a copy of the state.
func (it *Interp) headerDecided(st *State, b *ssa.BasicBlock) bool {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c := it.stepHeader(st, b)
	if c == nil {
		return false
	}
	cond := it.val(c, last.Cond)
	goesOn, known := c.Decide(cond)
	if known && (it.Whole || st.top().visits[b] > 2) {
		body := it.loopsOf(b.Parent()).headers[b]
		if body[b.Succs[0]] == body[b.Succs[1]] {
			return known
		}
		if goesOn == body[b.Succs[0]] {
			// another round: only if the test depends on nothing unknown
			_, known = c.Norm(cond).BoolVal()
			if !known && len(cond.Args) == 2 {
				known = c.Norm(cond.Args[0]).IsConst() && c.Norm(cond.Args[1]).IsConst()
			}
		}
	}
	return known
}

// stepHeader executes the header up to its test on a copy of the state, or
// returns nil if it does more than evaluate the test.
func (it *Interp) stepHeader(st *State, b *ssa.BasicBlock) *State {
	c := st.clone()
	depth := len(c.frames)
	for steps := 0; len(c.frames) > depth || c.top().idx < len(b.Instrs)-1; steps++ {
		f := c.top()
		if steps > 200 || len(c.frames) < depth || len(c.frames) > depth+3 || len(c.frames) == depth && f.block != b {
			return nil
		}
		if len(c.frames) == depth {
			switch in := f.block.Instrs[f.idx].(type) {
			case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.Next:
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok && in.Call.StaticCallee() == nil {
					return nil
				}
			default:
				return nil
			}
		} else if f.visits[f.block] > 0 {
			return nil // a loop
		}
		if _, forked := it.step(c); forked || c.Exit != "" {
			return nil
		}
	}
	return c
}

// cutLoop generalises the state at a loop header to any iteration.
func (it *Interp) cutLoop(st *State, b *ssa.BasicBlock) {
	f := st.top()
	id := int(freshID())
	var phis []*ssa.Phi
	init := map[*ssa.Phi]*Term{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		init[p] = f.env[p]
	}
	start := freshID()
	var set []*Term
	var elems []types.Type
	all := false
	same := map[*ssa.Phi]*Term{} // constant value at every back edge
	if it.Peel {
		for _, p := range phis {
			same[p] = nil
		}
	}
	ok := false
	for round := 0; round < 8; round++ {
		base := st.clone()
		it.generalise(base, b, phis, init, set, elems, all, same, id)
		base.writes, base.havW = nil, nil
		it.sub = append(it.sub, subScope{len(base.frames), b})
		outs := it.explore(base)
		it.sub = it.sub[:len(it.sub)-1]
		changed := false
		newsame := map[*ssa.Phi]*Term{}
		firstBack := true
		for _, o := range outs {
			if o.Exit != "loopback" || len(o.frames) != len(base.frames) {
				continue
			}
			ev := o.Events[len(o.Events)-1]
			li, _ := ev.Data.(LoopInfo)
			if li.ID != id {
				continue
			}
			for _, p := range phis {
				v := li.Phis[p]
				if firstBack {
					if v.IsConst() {
						newsame[p] = v
					}
				} else if newsame[p] != v {
					delete(newsame, p)
				}
			}
			firstBack = false
			for _, a := range append(append([]*Term{}, o.writes...), o.havW...) {
				p, lost := stripFresh(a, start)
				if lost {
					// written through a pointer of this iteration: anything
					// of the type may have changed
					et := elemType(a)
					if et == nil {
						et = cellType(a)
					}
					if et != nil && isScalar(et) {
						have := false
						for _, t := range elems {
							have = have || types.Identical(t.Underlying(), et.Underlying())
						}
						if !have {
							elems = append(elems, et)
							changed = true
						}
						continue
					}
					if !all {
						all = true
						changed = true
					}
					continue
				}
				if p == nil {
					continue
				}
				have := false
				for _, s := range set {
					if covers(s, p) {
						have = true
					}
				}
				if !have {
					set = append(set, p)
					changed = true
				}
			}
		}
		if it.Peel && st.top().visits[b] > 1 {
			for p, v := range newsame {
				if init[p] != v {
					delete(newsame, p)
				}
			}
			for p := range same {
				if same[p] != newsame[p] {
					if round == 0 || same[p] != nil {
						same[p] = newsame[p]
						if round > 0 {
							same[p] = nil
						}
						changed = true
					}
				}
			}
		}
		if !changed {
			ok = true
			break
		}
	}
	if !ok {
		it.problem("loop at %s: no fixpoint of written locations", it.Pos(blockPos(b)))
	}
	it.generalise(st, b, phis, init, set, elems, all, same, id)
	st.event(Event{Kind: "loophead", In: f.fn, Pos: blockPos(b), Data: LoopInfo{ID: id, Header: b, Init: init, Phis: f.phiVals(phis), writes: len(st.writes), havW: len(st.havW)}})
}

func (f *frame) phiVals(ps []*ssa.Phi) map[*ssa.Phi]*Term {
	m := map[*ssa.Phi]*Term{}
	for _, p := range ps {
		m[p] = f.env[p]
	}
	return m
}

func (it *Interp) generalise(st *State, b *ssa.BasicBlock, phis []*ssa.Phi, init map[*ssa.Phi]*Term, set []*Term, elems []types.Type, all bool, same map[*ssa.Phi]*Term, id int) {
	f := st.top()
	li := it.loopsOf(f.fn)
	body := li.headers[b]
	bounds := it.loopBounds(st, b, body, phis)
	for _, s := range set {
		st.Havoc(s)
	}
	for _, t := range elems {
		st.HavocElems(t)
	}
	if all {
		st.HavocAll()
	}
	dirs := map[*ssa.Phi]bool{}
	for _, p := range phis {
		if v := same[p]; v != nil {
			f.env[p] = v
			continue
		}
		if isIter(p.Type()) {
			continue
		}
		// loop invariant phi
		inv := true
		for i, pred := range b.Preds {
			if body[pred] && p.Edges[i] != p {
				if stableThrough(p.Edges[i], p, body, map[ssa.Value]bool{}) {
					continue
				}
				inv = false
			}
		}
		if inv {
			continue
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		s := Sym(name, p.Type())
		f.env[p] = s
		// induction variables
		if _, _, _, _, isInt := intRange(p.Type()); isInt {
			up, down, ones := true, true, true
			for i, pred := range b.Preds {
				if !body[pred] {
					continue
				}
				bo, ok := p.Edges[i].(*ssa.BinOp)
				if p.Edges[i] == ssa.Value(p) {
					continue
				}
				if !ok || bo.X != ssa.Value(p) {
					up, down = false, false
					break
				}
				c, ok := bo.Y.(*ssa.Const)
				if !ok {
					up, down = false, false
					break
				}
				n, _ := constant.Int64Val(constant.ToInt(c.Value))
				if bo.Op == token.SUB {
					n = -n
				} else if bo.Op != token.ADD {
					up, down = false, false
					break
				}
				if n < 0 {
					up = false
				}
				if n > 0 {
					down = false
				}
				ones = ones && (n == 1 || n == -1)
			}
			// narrow counters may wrap around unless the test stops them
			narrow := wraps(p.Type(), up)
			if up && !narrow {
				st.addGE(toLin(s).add(toLin(init[p]), -1))
			}
			if down && !narrow {
				st.addGE(toLin(init[p]).add(toLin(s), -1))
			}
			if up != down && ones {
				dirs[p] = up
			}
		}
	}
	for _, p := range phis {
		if up, ok := dirs[p]; ok && bounds[p].pre != nil {
			s, i := f.env[p], init[p]
			fact := toLin(s).add(toLin(i), -1)
			if !up {
				fact = toLin(i).add(toLin(s), -1)
			}
			if wraps(p.Type(), up) {
				try := st.clone()
				try.addGE(fact)
				if !it.loopBoundFacts(try, b, bounds[p], s, i, up) {
					continue
				}
				st.addGE(fact)
			}
			it.loopBoundFacts(st, b, bounds[p], s, i, up)
		}
	}
	f.cut[b] = id
}

// loopBound is the other side of a loop test "phi op bound" that holds when
// the loop goes on.
type loopBound struct {
	x, y ssa.Value
	op   token.Token
	pre  *Term // value of the bound on entry
}

// loopBounds finds the tests of the header that bound p.
func (it *Interp) loopBounds(st *State, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi) map[*ssa.Phi]loopBound {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || body[b.Succs[0]] == body[b.Succs[1]] {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	op := bo.Op
	if body[b.Succs[1]] {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
	if _, ok := flip[op]; !ok {
		return nil
	}
	r := map[*ssa.Phi]loopBound{}
	for _, p := range phis {
		if stripConv(bo.X) == ssa.Value(p) {
			r[p] = loopBound{x: bo.X, y: bo.Y, op: op}
		} else if stripConv(bo.Y) == ssa.Value(p) {
			r[p] = loopBound{x: bo.Y, y: bo.X, op: flip[op]}
		}
	}
	if len(r) == 0 {
		return nil
	}
	c := it.stepHeader(st, b)
	if c == nil {
		return nil
	}
	for p, l := range r {
		l.pre = it.val(c, l.y)
		r[p] = l
	}
	return r
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		c, ok := v.(*ssa.Convert)
		if !ok {
			return v
		}
		v = c.X
	}
}

// loopBoundFacts adds i <= n for "for i := a; i < n; i++" when a <= n, and
// the like for the other tests: the test and the step of one keep it true.
func (it *Interp) loopBoundFacts(st *State, b *ssa.BasicBlock, l loopBound, s, init *Term, up bool) bool {
	n := l.pre
	switch {
	case up && (l.op == token.LSS || l.op == token.NEQ):
	case up && l.op == token.LEQ:
		n = Add(n, Int(1))
	case !up && (l.op == token.GTR || l.op == token.NEQ):
	case !up && l.op == token.GEQ:
		n = Sub(n, Int(1))
	default:
		return false
	}
	fact := toLin(n).add(toLin(s), -1)
	if up {
		if !st.ProvesGE(n, init) {
			return false
		}
	} else {
		if !st.ProvesGE(init, n) {
			return false
		}
		fact = toLin(s).add(toLin(n), -1)
	}
	try := st.clone()
	try.addGE(fact)
	c := it.stepHeader(try, b)
	if c == nil || it.val(c, l.y) != l.pre {
		return false // the bound changes
	}
	if x := it.val(c, l.x); x != s && !c.ProvesEq(x, s) {
		return false // a conversion changes the value
	}
	st.addGE(fact)
	return true
}

// wraps tells whether counting up (or down) soon passes the end of a type.
func wraps(t types.Type, up bool) bool {
	_, _, lo, hi, _ := intRange(t)
	if up {
		return hi
	}
	return lo
}

// stableThrough reports whether v is p itself through phis inside the loop.
func stableThrough(v ssa.Value, p *ssa.Phi, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(p) {
		return true
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	if q, ok := v.(*ssa.Phi); ok && body[q.Block()] {
		for _, e := range q.Edges {
			if !stableThrough(e, p, body, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func isIter(t types.Type) bool {
	return t != nil && strings.Contains(t.String(), "iter") && func() bool { _, ok := t.(*types.Tuple); return !ok }() && strings.HasPrefix(t.String(), "iter")
}

// HavocAll forgets all memory except locations that have not escaped.
func (st *State) HavocAll() {
	st.havW = append(st.havW, Sym("any", nil))
	roots := map[*Term]bool{}
	for k := range st.mem {
		roots[Root(k)] = true
	}
	var rs []*Term
	for r := range roots {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].ID < rs[j].ID })
	for _, r := range rs {
		st.Havoc(r)
	}
	st.havocs = append(st.havocs[:len(st.havocs):len(st.havocs)], havoc{stamp: freshID()})
}

// isFresh reports whether t was created after the id start.
// Fresh reports whether t depends on anything created after the id start.
func Fresh(t *Term, start int64) bool { return isFresh(t, start) }

func isFresh(t *Term, start int64) bool {
	fresh := false
	t.Walk(func(x *Term) {
		switch x.Op {
		case "sym", "nonnil", "alloc", "mkmap":
			if x.K > start {
				fresh = true
			}
		case "sel", "append", "mapget":
			if x.K > start {
				fresh = true
			}
		}
	})
	return fresh
}

func stripFresh(a *Term, start int64) (p *Term, lost bool) {
	for isFresh(a, start) {
		switch a.Op {
		case "fa", "ia", "mapcell":
			a = a.Args[0]
			continue
		case "alloc", "mkmap":
			return nil, false
		case "rgn":
			x := a.Args[0]
			switch x.Op {
			case "append", "strcopy":
				return nil, false
			case "sel":
				if !isFresh(x.Args[0], start) {
					// a slice loaded from a stable location: its
					// contents may change
					return nil, true
				}
				return stripRootAlloc(x, start)
			}
			return nil, true
		}
		return stripRootAlloc(a, start)
	}
	return a, false
}

// stripRootAlloc: locations reached through memory allocated inside the loop
// are not visible to other iterations.
func stripRootAlloc(a *Term, start int64) (*Term, bool) {
	for {
		switch a.Op {
		case "sel", "fa", "ia", "rgn", "slice", "assert":
			a = a.Args[0]
			continue
		case "alloc", "mkmap", "append":
			if a.K > start {
				return nil, false
			}
		}
		return nil, true
	}
}

func (it *Interp) ret(st *State, res *Term) ([]*State, bool) {
	f := st.top()
	st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	if len(st.frames) == 0 {
		st.Exit = "return"
		st.Ret = res
		return nil, false
	}
	c := st.top()
	if f.hook != nil {
		f.hook(st, res)
	}
	if f.isDef {
		if c.panicking {
			return it.unwind(st)
		}
		return nil, false
	}
	if v, ok := f.call.(ssa.Value); ok && v != nil {
		c.env[v] = res
	}
	c.idx++
	return nil, false
}

func (it *Interp) unwind(st *State) ([]*State, bool) {
	for {
		if len(st.frames) == 0 {
			st.Exit = "panic"
			return nil, false
		}
		f := st.top()
		if f.recovered {
			f.panicking = false
			f.recovered = false
			if f.fn.Recover != nil {
				f.block = f.fn.Recover
				f.idx = 0
				return nil, false
			}
			return it.ret(st, Zero0(f.fn.Signature.Results()))
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			f.panicking = true
			next, forked := it.runDeferred(st, d)
			if forked || st.Exit != "" || st.top() != f {
				return next, forked
			}
			continue
		}
		st.frames = st.frames[: len(st.frames)-1 : len(st.frames)-1]
	}
}

// Zero0 is the zero value of a result tuple.
func Zero0(r *types.Tuple) *Term {
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return Zero(r.At(0).Type())
	}
	var as []*Term
	for i := 0; i < r.Len(); i++ {
		as = append(as, Zero(r.At(i).Type()))
	}
	return Op("tuple", as...)
}

func (it *Interp) panicNow(st *State, v *Term, pos token.Pos) ([]*State, bool) {
	st.PanicV = v
	st.event(Event{Kind: "panic", Args: []*Term{v}, Pos: pos, In: st.top().fn})
	return it.unwind(st)
}

// Panic starts panicking (for models).
func (it *Interp) Panic(st *State, v *Term) { it.panicNow(st, v, token.NoPos) }

// step executes one instruction. forked means the returned states replace st.
func (it *Interp) step(st *State) ([]*State, bool) {
	f := st.top()
	if f.idx >= len(f.block.Instrs) {
		it.problem("fell off block in %v", f.fn)
		st.Exit = "limit"
		return nil, false
	}
	in := f.block.Instrs[f.idx]
	if it.Trace {
		fmt.Fprintf(os.Stderr, "%*s%s: %v\n", len(st.frames)*2, "", f.fn.Name(), in)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := mk(Term{Op: "alloc", N: allocName(in), K: freshID(), T: in.Type()})
		if in.Heap {
			st.event(Event{Kind: "new", Pos: in.Pos(), In: f.fn, Res: a, Data: in.Type().Underlying().(*types.Pointer).Elem()})
		}
		it.set(st, in, a)
	case *ssa.Phi:
		// handled on entry
	case *ssa.BinOp:
		x, y := it.val(st, in.X), it.val(st, in.Y)
		it.set(st, in, it.binop(st, in, x, y))
	case *ssa.UnOp:
		x := it.val(st, in.X)
		switch in.Op {
		case token.MUL:
			it.nonNil(st, x, in.Pos(), "nil dereference")
			if st.Exit != "" {
				return nil, false
			}
			t := in.Type()
			if g, ok := in.X.(*ssa.Global); ok {
				if v, ok := it.GlobInit[g]; ok {
					it.set(st, in, v)
					break
				}
			}
			it.set(st, in, st.Load(x, t))
		case token.NOT:
			it.set(st, in, Not(x))
		case token.SUB:
			if isFloat(in.Type()) {
				it.set(st, in, OpT("neg", in.Type(), x))
			} else {
				it.set(st, in, st.wrap(MulC(x, -1), in.Type()))
			}
		case token.XOR:
			if isUnsigned(in.Type()) && bitSize(in.Type()) < 64 {
				it.set(st, in, Sub(Int(int64(1)<<uint(bitSize(in.Type()))-1), x))
			} else if isUnsigned(in.Type()) {
				it.set(st, in, OpT("compl", in.Type(), x))
			} else {
				it.set(st, in, Sub(Int(-1), x))
			}
		case token.ARROW:
			st.event(Event{Kind: "recv", Args: []*Term{x}, Pos: in.Pos(), In: f.fn})
			v := Sym("recv", in.Type())
			if in.CommaOk {
				tt := in.Type().(*types.Tuple)
				v = Op("tuple", Sym("recv", tt.At(0).Type()), Sym("recvok", tt.At(1).Type()))
			}
			it.set(st, in, v)
		}
	case *ssa.ChangeType:
		it.set(st, in, it.val(st, in.X))
	case *ssa.ChangeInterface:
		it.set(st, in, it.val(st, in.X))
	case *ssa.Convert:
		it.set(st, in, it.convertVal(st, in, it.val(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		it.set(st, in, OpT("mconv", in.Type(), it.val(st, in.X)))
	case *ssa.SliceToArrayPointer:
		x := it.val(st, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		it.oblige(st, "slice2array", Lt(Len(x), Int(n)), false, in.Pos(), "slice shorter than array")
		r, o, _, _ := SliceParts(x)
		if o == Int(0) {
			it.set(st, in, r)
		} else {
			it.problem("slice to array pointer at offset in %v", f.fn)
			it.set(st, in, Sym("arr", in.Type()))
		}
	case *ssa.MakeInterface:
		x := it.val(st, in.X)
		it.set(st, in, Iface(in.X.Type(), x))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, it.val(st, b))
		}
		it.set(st, in, mk(Term{Op: "closure", Obj: fn, N: fn.String(), Args: bs}))
	case *ssa.FieldAddr:
		x := it.val(st, in.X)
		it.nonNil(st, x, in.Pos(), "nil dereference")
		fl := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field)
		it.set(st, in, Field(x, in.Field, fl.Name(), fl.Type()))
	case *ssa.Field:
		x := it.val(st, in.X)
		fl := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		it.set(st, in, fieldOf(x, in.Field, fl.Name(), fl.Type()))
	case *ssa.IndexAddr:
		x := it.val(st, in.X)
		i := it.val(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			r, o, n, _ := SliceParts(x)
			it.bound(st, i, n, in.Pos(), "index out of range")
			it.set(st, in, Index(r, st.Norm(Add(o, i))))
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			it.nonNil(st, x, in.Pos(), "nil dereference")
			it.bound(st, i, Int(n), in.Pos(), "index out of range")
			it.set(st, in, Index(x, st.Norm(i)))
		}
	case *ssa.Index:
		x := it.val(st, in.X)
		i := it.val(st, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			it.bound(st, i, Int(u.Len()), in.Pos(), "index out of range")
			if n, ok := i.Int64(); ok {
				it.set(st, in, elemOf(x, n, u.Elem()))
			} else {
				it.set(st, in, OpT("elem", in.Type(), x, i))
			}
		default:
			it.bound(st, i, StrLen(x), in.Pos(), "string index out of range")
			it.set(st, in, StrIndex(x, i))
		}
	case *ssa.Slice:
		return it.slice(st, in)
	case *ssa.MakeSlice:
		n, c := it.val(st, in.Len), it.val(st, in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		it.oblige(st, "makeslice", Lt(n, Int(0)), false, in.Pos(), "negative length in make")
		if c != n {
			it.oblige(st, "makeslice", Lt(c, n), false, in.Pos(), "length exceeds capacity in make")
		}
		a := mk(Term{Op: "alloc", N: "make", K: freshID(), T: types.NewPointer(types.NewArray(et, -1))})
		st.event(Event{Kind: "make", Args: []*Term{n, c}, Pos: in.Pos(), In: f.fn, Res: a, Data: et})
		it.set(st, in, MkSlice(a, Int(0), st.Norm(n), st.Norm(c)))
	case *ssa.MakeMap:
		it.set(st, in, mk(Term{Op: "mkmap", K: freshID(), T: in.Type()}))
	case *ssa.MakeChan:
		it.set(st, in, NonNil("chan", in.Type()))
	case *ssa.Extract:
		x := it.val(st, in.Tuple)
		if x.Op == "tuple" && in.Index < len(x.Args) {
			it.set(st, in, x.Args[in.Index])
		} else {
			it.set(st, in, OpN("extract", fmt.Sprint(in.Index), in.Type(), x))
		}
	case *ssa.TypeAssert:
		return it.typeAssert(st, in)
	case *ssa.Lookup:
		return it.lookup(st, in)
	case *ssa.MapUpdate:
		m, k, v := it.val(st, in.Map), it.val(st, in.Key), it.val(st, in.Value)
		if outs := it.splitKey(st, m, k, in.Pos()); outs != nil {
			return outs, true
		}
		it.oblige(st, "nilmap", Eq(m, Nil), false, in.Pos(), "assignment to entry in nil map")
		st.event(Event{Kind: "mapupdate", Recv: m, Args: []*Term{k, v}, Pos: in.Pos(), In: f.fn})
		st.MapStore(m, k, v)
	case *ssa.Range:
		x := it.val(st, in.X)
		it.set(st, in, OpN("range", fmt.Sprint(freshID()), in.X.Type(), x))
		st.mem[Field(st.top().env[in], 0, "pos", intT)] = Int(0)
	case *ssa.Next:
		return it.next(st, in)
	case *ssa.Store:
		a := it.val(st, in.Addr)
		v := it.val(st, in.Val)
		it.nonNil(st, a, in.Pos(), "nil dereference")
		st.event(Event{Kind: "store", Args: []*Term{a, v}, Pos: in.Pos(), In: f.fn})
		st.Store(a, v, in.Val.Type())
		if it.AfterStore != nil {
			it.AfterStore(st, a, in)
		}
	case *ssa.Send:
		st.event(Event{Kind: "send", Args: []*Term{it.val(st, in.Chan), it.val(st, in.X)}, Pos: in.Pos(), In: f.fn})
	case *ssa.Select:
		st.event(Event{Kind: "select", Data: in.Blocking, Pos: in.Pos(), In: f.fn})
		it.problem("select statement in %v", f.fn)
		it.set(st, in, Sym("select", in.Type()))
	case *ssa.Jump:
		return it.jump(st, f.block.Succs[0])
	case *ssa.If:
		return it.branch(st, in)
	case *ssa.Return:
		var res *Term
		switch len(in.Results) {
		case 0:
		case 1:
			res = it.val(st, in.Results[0])
		default:
			var as []*Term
			for _, r := range in.Results {
				as = append(as, it.val(st, r))
			}
			res = Op("tuple", as...)
		}
		return it.ret(st, res)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[: n-1 : n-1]
			return it.runDeferred(st, d)
		}
	case *ssa.Defer:
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], it.mkDeferred(st, &in.Call, in.Pos()))
	case *ssa.Panic:
		return it.panicNow(st, it.val(st, in.X), in.Pos())
	case *ssa.Go:
		return it.goStmt(st, in)
	case *ssa.Call:
		return it.call(st, in)
	default:
		it.problem("unsupported instruction %T in %v", in, f.fn)
		if v, ok := in.(ssa.Value); ok {
			it.set(st, v, Sym("unsupported", v.Type()))
		}
	}
	if st.Exit == "" && st.top() == f {
		f.idx++
	}
	return nil, false
}

func allocName(in *ssa.Alloc) string {
	if in.Comment != "" {
		return in.Comment
	}
	return "t"
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// Iface boxes a value.
func Iface(t types.Type, x *Term) *Term {
	return mk(Term{Op: "iface", Obj: t, Args: []*Term{x}})
}

func (it *Interp) bound(st *State, i, n *Term, pos token.Pos, what string) {
	it.oblige(st, "bounds", Lt(i, Int(0)), false, pos, what)
	if st.Exit != "" {
		return
	}
	it.oblige(st, "bounds", Lt(i, n), true, pos, what)
}

func (it *Interp) branch(st *State, in *ssa.If) ([]*State, bool) {
	f := st.top()
	c := it.val(st, in.Cond)
	if v, known := st.Decide(c); known {
		if v {
			return it.jump(st, f.block.Succs[0])
		}
		return it.jump(st, f.block.Succs[1])
	}
	var outs []*State
	for i, v := range []bool{true, false} {
		n := st.clone()
		n.Conds = append(n.Conds, CondFact{c, v, in.Cond.Pos()})
		if !n.Assume(c, v) {
			continue
		}
		it.jump(n, f.block.Succs[i])
		outs = append(outs, n)
	}
	return outs, true
}

func (it *Interp) binop(st *State, in *ssa.BinOp, x, y *Term) *Term {
	xt := in.X.Type()
	switch in.Op {
	case token.EQL:
		return it.eq(st, x, y, xt)
	case token.NEQ:
		return Not(it.eq(st, x, y, xt))
	}
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			return Cat(x, y)
		case token.LSS:
			return Lt(x, y)
		case token.GTR:
			return Lt(y, x)
		case token.LEQ:
			return Not(Lt(y, x))
		case token.GEQ:
			return Not(Lt(x, y))
		}
	}
	if isFloat(xt) {
		return OpN("float", in.Op.String(), in.Type(), x, y)
	}
	x, y = st.Norm(x), st.Norm(y)
	switch in.Op {
	case token.LSS:
		return Lt(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.LEQ:
		return Not(Lt(y, x))
	case token.GEQ:
		return Not(Lt(x, y))
	}
	t := in.Type()
	return it.arith(st, in, x, y, t)
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (it *Interp) arith(st *State, in *ssa.BinOp, x, y *Term, t types.Type) *Term {
	xc, xok := x.Int64()
	yc, yok := y.Int64()
	switch in.Op {
	case token.ADD:
		return st.wrap(Add(x, y), t)
	case token.SUB:
		return st.wrap(Sub(x, y), t)
	case token.MUL:
		if yok {
			return st.wrap(MulC(x, yc), t)
		}
		if xok {
			return st.wrap(MulC(y, xc), t)
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return OpT("mul", t, x, y)
	case token.QUO:
		if yok && yc > 0 && st.ProvesGE(x, Int(0)) {
			return st.fdiv(x, yc)
		}
		if xok && yok && yc != 0 {
			return Int(xc / yc)
		}
		if !yok {
			it.oblige(st, "div", Eq(y, Int(0)), false, in.Pos(), "division by zero")
		}
		return OpT("quo", t, x, y)
	case token.REM:
		if yok && yc > 0 && st.ProvesGE(x, Int(0)) {
			return st.fmod(x, yc)
		}
		if xok && yok && yc != 0 {
			return Int(xc % yc)
		}
		if !yok {
			it.oblige(st, "div", Eq(y, Int(0)), false, in.Pos(), "division by zero")
		}
		return OpT("rem", t, x, y)
	case token.AND:
		if xok {
			x, y, xc, yc, xok, yok = y, x, yc, xc, yok, xok
		}
		if yok {
			return it.mask(st, x, yc, t)
		}
		return OpT("and", t, x, y)
	case token.AND_NOT:
		if yok {
			return st.wrap(Sub(x, it.mask(st, x, yc, t)), t)
		}
		return OpT("andnot", t, x, y)
	case token.OR:
		if xok && yok {
			return Int(xc | yc)
		}
		for i := 0; i < 2; i++ {
			if k := lowZeros(x); k > 0 {
				if k > 57 {
					k = 57
				}
				if st.ProvesGE(y, Int(0)) && st.ProvesGE(Int(int64(1)<<uint(k)-1), y) {
					return st.Norm(Add(x, y))
				}
			}
			x, y = y, x
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return OpT("or", t, x, y)
	case token.XOR:
		if xok && yok {
			return Int(xc ^ yc)
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return OpT("xor", t, x, y)
	case token.SHL:
		if yok && yc >= 0 {
			if yc >= int64(bitSize(t)) {
				return Int(0)
			}
			if yc < 57 {
				return st.wrap(MulC(x, int64(1)<<uint(yc)), t)
			}
		}
		return OpT("shl", t, x, y)
	case token.SHR:
		if yok && yc >= 0 {
			if yc >= int64(bitSize(t)) && isUnsigned(t) {
				return Int(0)
			}
			if yc < 57 {
				return st.fdiv(x, int64(1)<<uint(yc))
			}
		}
		return OpT("shr", t, x, y)
	}
	return OpN("arith", in.Op.String(), t, x, y)
}

// lowZeros is the number of low bits of x known to be zero.
func lowZeros(x *Term) int {
	l := toLin(x)
	g := l.k
	for _, c := range l.atoms {
		g = gcd(g, c)
	}
	if g == 0 {
		return 57
	}
	n := 0
	for g%2 == 0 {
		g /= 2
		n++
	}
	return n
}

func (it *Interp) mask(st *State, x *Term, m int64, t types.Type) *Term {
	if m == 0 {
		return Int(0)
	}
	if v, ok := x.Int64(); ok {
		return Int(v & m)
	}
	bs := bitSize(t)
	full := int64(-1)
	if bs < 63 {
		full = int64(1)<<uint(bs) - 1
	}
	if isUnsigned(t) && bs < 63 {
		m &= full
	}
	lo := 0
	for m&(1<<uint(lo)) == 0 {
		lo++
	}
	h := m >> uint(lo)
	if m < 0 {
		// ...1110000: all bits from lo up
		if h == -1 {
			return Sub(x, st.fmod(x, int64(1)<<uint(lo)))
		}
		return OpT("and", t, x, Int(m))
	}
	if h&(h+1) == 0 {
		// contiguous bits [lo, lo+n)
		n := 0
		for h>>uint(n)&1 == 1 {
			n++
		}
		y := x
		if lo > 0 {
			y = st.fdiv(x, int64(1)<<uint(lo))
		}
		if !(isUnsigned(t) && lo+n == bs) && n < 57 {
			y = st.fmod(y, int64(1)<<uint(n))
		}
		return MulC(y, int64(1)<<uint(lo))
	}
	return OpT("and", t, x, Int(m))
}

func (it *Interp) eq(st *State, x, y *Term, t types.Type) *Term {
	if _, _, _, _, ok := intRange(t); ok {
		x, y = st.Norm(x), st.Norm(y)
		d := toLin(x).add(toLin(y), -1)
		if d.ok && len(d.atoms) == 0 {
			return Bool(d.k == 0)
		}
	}
	if x.Op == "iface" && y.Op == "iface" {
		if !types.Identical(x.Obj.(types.Type), y.Obj.(types.Type)) {
			return False
		}
		return Eq(x.Args[0], y.Args[0])
	}
	return Eq(x, y)
}

func (it *Interp) convertVal(st *State, in *ssa.Convert, x *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
			switch {
			case fi && ti:
				return st.Convert(st.Norm(x), from, to)
			case fi && tb.Info()&types.IsString != 0:
				if n, ok := x.Int64(); ok {
					return Str(string(rune(n)))
				}
				return OpT("runestr", to, x)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return x
			}
			return OpN("conv", "float", to, x)
		}
		if ts, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if eb, ok := ts.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				st.event(Event{Kind: "conv", Args: []*Term{StrLen(x)}, Pos: in.Pos(), In: st.top().fn})
				return st.BytesOfString(x)
			}
			return OpT("runes", to, x)
		}
	}
	if fs, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			if eb, ok := fs.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				st.event(Event{Kind: "conv", Args: []*Term{Len(x)}, Pos: in.Pos(), In: st.top().fn})
				return st.StringOfBytes(x)
			}
			return OpT("strrunes", to, x)
		}
	}
	if _, ok := tu.(*types.Basic); ok && tu.(*types.Basic).Kind() == types.UnsafePointer {
		st.event(Event{Kind: "unsafe", Args: []*Term{x}, Pos: in.Pos(), In: st.top().fn})
		return OpT("unsafe", to, x)
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		st.event(Event{Kind: "unsafe", Args: []*Term{x}, Pos: in.Pos(), In: st.top().fn})
		return OpT("unsafeptr", to, x)
	}
	return x
}

func (it *Interp) slice(st *State, in *ssa.Slice) ([]*State, bool) {
	f := st.top()
	x := it.val(st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return st.Norm(it.val(st, v))
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := StrLen(x)
		lo, hi := get(in.Low, Int(0)), get(in.High, n)
		it.sliceBounds(st, in, lo, hi, n)
		it.set(st, in, Substr(x, lo, hi))
	case *types.Slice, *types.Pointer:
		var r, o, ln, cp *Term
		if p, ok := u.(*types.Pointer); ok {
			it.nonNil(st, x, in.Pos(), "nil dereference")
			n := Int(p.Elem().Underlying().(*types.Array).Len())
			r, o, ln, cp = x, Int(0), n, n
		} else {
			r, o, ln, cp = SliceParts(x)
		}
		lo, hi, mx := get(in.Low, Int(0)), get(in.High, ln), get(in.Max, cp)
		if in.Max != nil {
			it.oblige(st, "slice", Lt(cp, mx), false, in.Pos(), "slice capacity out of range")
			it.oblige(st, "slice", Lt(mx, hi), false, in.Pos(), "slice bounds out of range")
		} else if hi != ln && hi != cp {
			it.oblige(st, "slice", Lt(cp, hi), false, in.Pos(), "slice bounds out of range")
		}
		it.oblige(st, "slice", Lt(hi, lo), false, in.Pos(), "slice bounds out of range")
		it.oblige(st, "slice", Lt(lo, Int(0)), false, in.Pos(), "slice bounds out of range")
		if in.High != nil {
			// reaching beyond the length exposes other data
			v, k := st.Decide(Lt(ln, hi))
			st.event(Event{Kind: "reslice", Args: []*Term{x, lo, hi}, Pos: in.Pos(), In: f.fn, Data: k && !v})
		}
		if x.IsNil() {
			it.set(st, in, Nil)
			break
		}
		it.set(st, in, MkSlice(r, st.Norm(Add(o, lo)), st.Norm(Sub(hi, lo)), st.Norm(Sub(mx, lo))))
	default:
		it.problem("slice of %v", in.X.Type())
	}
	if st.Exit == "" {
		f.idx++
	}
	return nil, false
}

func (it *Interp) sliceBounds(st *State, in *ssa.Slice, lo, hi, n *Term) {
	it.oblige(st, "slice", Lt(n, hi), false, in.Pos(), "slice bounds out of range")
	it.oblige(st, "slice", Lt(hi, lo), false, in.Pos(), "slice bounds out of range")
	it.oblige(st, "slice", Lt(lo, Int(0)), false, in.Pos(), "slice bounds out of range")
}

func (it *Interp) typeAssert(st *State, in *ssa.TypeAssert) ([]*State, bool) {
	f := st.top()
	x := it.val(st, in.X)
	if x.Op != "iface" {
		if v, ok := st.eqmap[x]; ok && v.IsNil() {
			x = Nil
		}
	}
	finish := func(s *State, v, ok *Term) {
		if in.CommaOk {
			it.set(s, in, Op("tuple", v, ok))
		} else {
			it.set(s, in, v)
		}
		s.top().idx++
	}
	_ = f
	var known, holds bool
	var val *Term
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	switch {
	case x.IsNil():
		known, holds = true, false
	case x.Op == "iface":
		dt := x.Obj.(types.Type)
		known = true
		if toIface {
			holds = types.Implements(dt, in.AssertedType.Underlying().(*types.Interface))
			val = x
		} else {
			holds = types.Identical(dt, in.AssertedType)
			val = x.Args[0]
		}
	}
	zero := Zero(in.AssertedType)
	if known {
		if holds {
			finish(st, val, True)
		} else if in.CommaOk {
			finish(st, zero, False)
		} else {
			st.Obligs = append(st.Obligs, Oblig{Kind: "assert", Pos: in.Pos(), In: f.fn, What: "type assertion fails"})
			return it.panicNow(st, NonNil("typeassert", nil), in.Pos())
		}
		return nil, false
	}
	okT := mk(Term{Op: "typeok", Obj: in.AssertedType, Args: []*Term{x}, T: types.Typ[types.Bool]})
	v := mk(Term{Op: "assert", Obj: in.AssertedType, Args: []*Term{x}, T: in.AssertedType})
	if toIface {
		v = x
	}
	if !in.CommaOk {
		it.oblige(st, "assert", okT, true, in.Pos(), "type assertion")
		if st.Exit == "" {
			st.Assume(Eq(x, Nil), false)
			finish(st, v, True)
		}
		return nil, false
	}
	var outs []*State
	for _, b := range []bool{true, false} {
		n := st.clone()
		if dv, k := n.Decide(okT); k {
			if dv != b {
				continue
			}
		} else {
			n.Conds = append(n.Conds, CondFact{okT, b, in.Pos()})
			if !n.Assume(okT, b) {
				continue
			}
		}
		if b {
			if !n.Assume(Eq(x, Nil), false) {
				continue
			}
			finish(n, v, True)
		} else {
			finish(n, zero, False)
		}
		outs = append(outs, n)
	}
	return outs, true
}

// ---- maps ----

func mapCell(m, k *Term) *Term { return mk(Term{Op: "mapcell", Args: []*Term{m, k}}) }

func (st *State) mapStamp(m *Term) int64 {
	var s int64
	for _, h := range st.havocs {
		if h.elem == nil && (h.prefix == nil || h.prefix == m) {
			s = h.stamp
		}
	}
	return s
}

func (st *State) keysDistinct(a, b *Term) bool {
	v, k := st.Decide(Eq(a, b))
	return k && !v
}

func (st *State) keysEqual(a, b *Term) bool {
	v, k := st.Decide(Eq(a, b))
	return k && v
}

// MapStore sets m[k] = v.
func (st *State) MapStore(m, k, v *Term) {
	st.writes = append(st.writes, m)
	for c := range st.mem {
		if c.Op == "mapcell" && c.Args[0] == m && c.Args[1] != k {
			if !st.keysDistinct(c.Args[1], k) {
				delete(st.mem, c)
				// that key may hold either value
				st.mem[mk(Term{Op: "mapcell", Args: []*Term{m, c.Args[1]}})] = OpT("mapmaybe", nil, c.Args[1], Sym("m", nil))
			}
		}
	}
	st.mem[mapCell(m, k)] = v
}

// MapLoad reads m[k]; unknown means the result is not determined.
func (st *State) MapLoad(m, k *Term, et types.Type) (v *Term, ok *Term) {
	if m.IsNil() {
		return Zero(et), False
	}
	if c, found := st.mem[mapCell(m, k)]; found {
		if c.Op == "mapdel" {
			return Zero(et), False
		}
		if c.Op != "mapmaybe" {
			return c, True
		}
		return OpT("mapget", et, c.Args[1], k), OpT("mapok", types.Typ[types.Bool], c.Args[1], k)
	}
	distinct := true
	var cells []*Term
	for c := range st.mem {
		if c.Op == "mapcell" && c.Args[0] == m {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	for _, c := range cells {
		if st.keysEqual(c.Args[1], k) && st.mem[c].Op != "mapmaybe" {
			if st.mem[c].Op == "mapdel" {
				return Zero(et), False
			}
			return st.mem[c], True
		}
		if !st.keysDistinct(c.Args[1], k) {
			distinct = false
		}
	}
	if m.Op == "mkmap" && distinct && st.mapStamp(m) == 0 {
		return Zero(et), False
	}
	s := st.mapStamp(m)
	if !distinct {
		s = freshID()
	}
	return mk(Term{Op: "mapget", Args: []*Term{m, k}, K: s, T: et}), mk(Term{Op: "mapok", Args: []*Term{m, k}, K: s, T: types.Typ[types.Bool]})
}

// splitKey decides whether a key of a known map equals each key in use; the
// states to continue with, nil if all is decided.
func (it *Interp) splitKey(st *State, m, k *Term, pos token.Pos) []*State {
	if m.Op != "mkmap" {
		return nil
	}
	var cells []*Term
	for c := range st.mem {
		if c.Op == "mapcell" && c.Args[0] == m {
			cells = append(cells, c)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	for _, c := range cells {
		e := Eq(c.Args[1], k)
		if _, known := st.Decide(e); known {
			continue
		}
		outs := []*State{}
		for _, b := range []bool{true, false} {
			n := st.clone()
			n.Conds = append(n.Conds, CondFact{e, b, pos})
			if n.Assume(e, b) {
				outs = append(outs, n)
			}
		}
		return outs
	}
	return nil
}

func (it *Interp) lookup(st *State, in *ssa.Lookup) ([]*State, bool) {
	x, k := it.val(st, in.X), it.val(st, in.Index)
	f := st.top()
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		it.bound(st, k, StrLen(x), in.Pos(), "string index out of range")
		it.set(st, in, StrIndex(x, k))
		f.idx++
		return nil, false
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if outs := it.splitKey(st, x, k, in.Pos()); outs != nil {
		return outs, true
	}
	v, ok := st.MapLoad(x, k, mt.Elem())
	st.event(Event{Kind: "maplookup", Recv: x, Args: []*Term{k}, Res: v, Pos: in.Pos(), In: f.fn, Data: ok})
	if in.CommaOk {
		it.set(st, in, Op("tuple", v, ok))
		f.idx++
		return nil, false
	}
	if dv, known := st.Decide(ok); known {
		if !dv {
			v = Zero(mt.Elem())
		}
		it.set(st, in, v)
		f.idx++
		return nil, false
	}
	// absent keys give the zero value
	var outs []*State
	for _, b := range []bool{true, false} {
		n := st.clone()
		n.Conds = append(n.Conds, CondFact{ok, b, in.Pos()})
		if !n.Assume(ok, b) {
			continue
		}
		if b {
			it.set(n, in, v)
		} else {
			it.set(n, in, Zero(mt.Elem()))
		}
		n.top().idx++
		outs = append(outs, n)
	}
	return outs, true
}

func (it *Interp) next(st *State, in *ssa.Next) ([]*State, bool) {
	f := st.top()
	r := it.val(st, in.Iter)
	if r.Op != "range" {
		it.problem("range iterator in %v", f.fn)
		it.set(st, in, Sym("next", in.Type()))
		f.idx++
		return nil, false
	}
	x := r.Args[0]
	pos := Field(r, 0, "pos", intT)
	p, isC := st.mem[pos], false
	n := int64(0)
	if p != nil {
		n, isC = p.Int64()
	}
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		if s, ok := x.StrVal(); ok && isC {
			if int(n) >= len(s) {
				it.set(st, in, Op("tuple", False, Int(0), Int(0)))
			} else {
				for _, ru := range s[n:] {
					it.set(st, in, Op("tuple", True, Int(n), Int(int64(ru))))
					st.writes = append(st.writes, pos)
					st.mem[pos] = Int(n + int64(len(string(ru))))
					break
				}
			}
			f.idx++
			return nil, false
		}
		it.set(st, in, Op("tuple", Sym("more", types.Typ[types.Bool]), Sym("ri", intT), Sym("rune", types.Typ[types.Rune])))
		f.idx++
		return nil, false
	}
	if x.Op == "mkmap" && isC && st.mapStamp(x) == 0 {
		var cells []*Term
		for c := range st.mem {
			if c.Op == "mapcell" && c.Args[0] == x && st.mem[c].Op != "mapdel" {
				cells = append(cells, c)
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
		if int(n) < len(cells) {
			it.set(st, in, Op("tuple", True, cells[n].Args[1], st.mem[cells[n]]))
			st.writes = append(st.writes, pos)
			st.mem[pos] = Int(n + 1)
		} else {
			it.set(st, in, Op("tuple", False, Zero(tt.At(1).Type()), Zero(tt.At(2).Type())))
		}
		f.idx++
		return nil, false
	}
	st.writes = append(st.writes, pos)
	more := Sym("more", types.Typ[types.Bool])
	mt, _ := x.T, 0
	_ = mt
	var kt, vt types.Type = tt.At(1).Type(), tt.At(2).Type()
	if m, ok := r.T.Underlying().(*types.Map); ok {
		kt, vt = m.Key(), m.Elem()
	}
	k := Sym("key", kt)
	v := mk(Term{Op: "mapget", Args: []*Term{x, k}, K: st.mapStamp(x), T: vt})
	st.event(Event{Kind: "next", Recv: x, Args: []*Term{k, v}, Res: more, Pos: in.Pos(), In: f.fn})
	it.set(st, in, Op("tuple", more, k, v))
	f.idx++
	return nil, false
}

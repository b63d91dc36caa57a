package sev

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a value: bool, int64, float64, Str, Bytes, *Cell (pointer), *Agg
// (struct or array), Slice, *Map, *Closure, Iface, Tuple, *Obj or Nil.
type Val any

type nilT struct{}

// Nil is the nil of every type.
var Nil = nilT{}

type (
	// Cell is a variable; pointers are cells.
	Cell struct{ v Val }
	// Agg is a struct or array value.
	Agg struct {
		cells []*Cell
		ext   Val // state of a library object kept in this value
	}
	// Slice is a slice other than text bytes.
	Slice struct{ c []*Cell }
	// Bytes is a byte slice holding text.
	Bytes struct{ S Str }
	// Closure is a function value.
	Closure struct {
		fn   *ssa.Function
		bind []Val
		nat  func(args []Val) Val
	}
	// Iface is a non-nil interface value.
	Iface struct {
		T types.Type
		V Val
	}
	// Tuple is a multiple result.
	Tuple []Val
	// Map is a map.
	Map struct {
		keys []Val
		m    map[string]*mapEnt
	}
	mapEnt struct{ k, v Val }
)

// Panic is a panic of the evaluated program.
type Panic struct {
	V       Val
	Runtime bool
	Pos     token.Pos
	Text    string
}

// Emit is a formatted write.
type Emit struct {
	Text Str
	Pos  token.Pos
}

// Exit is a call of os.Exit.
type Exit struct{ Code int64 }

// Undecided stops an evaluation that cannot go on.
type Undecided struct{ What string }

// Machine is one evaluation.
type Machine struct {
	Prog    *ssa.Program
	InRepo  func(*ssa.Function) bool
	Choices []int // outcomes of nondeterministic choices so far
	width   []int // number of alternatives of each choice made
	pos     int
	Steps   int
	MaxStep int
	depth   int
	globals map[*ssa.Global]*Cell
	Special map[string]bool   // literal texts that atoms were compared with
	Pairs   map[[2]*Atom]bool // atoms that were compared with each other
	keys    map[*Atom]bool    // atoms that were map keys
	Looked  int               // times the text of an atom was looked into
	Funcs   map[*ssa.Function]bool
	Flags   map[string]Val // values of command line flags
	FS      *FS
	Assign  map[string]string // texts of atoms
	flags   map[string]*Cell
	inited  map[*ssa.Package]bool
	Emits   []Emit // formatted writes
	callers []*frame
	Env     int // the circumstances of the process: order of maps, time, process id, ...
	envs    int // times they were asked for
}

// salt is a number that depends on the circumstances.
func (m *Machine) salt() int64 {
	m.envs++
	return int64(m.Env*7919 + m.envs*31*(m.Env+1))
}

func (m *Machine) undecided(f string, a ...any) {
	panic(Undecided{fmt.Sprintf(f, a...)})
}

// Choose picks one of n outcomes.
func (m *Machine) Choose(n int) int {
	if m.pos < len(m.Choices) {
		c := m.Choices[m.pos]
		m.pos++
		return c
	}
	m.Choices = append(m.Choices, 0)
	m.width = append(m.width, n)
	m.pos++
	return 0
}

// Next prepares the choices of the next path; false when all are done.
func Next(choices, width []int) ([]int, []int, bool) {
	for i := len(choices) - 1; i >= 0; i-- {
		if choices[i]+1 < width[i] {
			c := append([]int{}, choices[:i+1]...)
			c[i]++
			return c, append([]int{}, width[:i+1]...), true
		}
	}
	return nil, nil, false
}

// Result is the outcome of a path.
type Result struct {
	Ret       Val
	Panic     *Panic
	Exit      *Exit
	Undecided string
	M         *Machine
}

// Failed: the process exits with a status other than 0.
func (r *Result) Failed() bool {
	return r.Panic != nil || r.Exit != nil && r.Exit.Code != 0
}

// Paths evaluates f on every sequence of choices.
func Paths(mk func() *Machine, f func(m *Machine) Val, max int, each func(*Result)) bool {
	var ch, w []int
	for n := 0; ; n++ {
		if n >= max {
			return false
		}
		m := mk()
		m.Choices, m.width = ch, w
		r := &Result{M: m}
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case *Panic:
					r.Panic = x
				case Exit:
					r.Exit = &x
				case Undecided:
					r.Undecided = x.What
				default:
					panic(x)
				}
			}()
			r.Ret = f(m)
		}()
		each(r)
		var more bool
		ch, w, more = Next(m.Choices[:m.pos], m.width[:m.pos])
		if !more {
			return true
		}
	}
}

// ---- values ----

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		}
		return Nil
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.cells = append(a.cells, &Cell{zero(u.Field(i).Type())})
		}
		return a
	case *types.Array:
		a := &Agg{}
		for i := int64(0); i < u.Len(); i++ {
			a.cells = append(a.cells, &Cell{zero(u.Elem())})
		}
		return a
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, zero(u.At(i).Type()))
		}
		return r
	}
	return Nil
}

func copyVal(v Val) Val {
	if a, ok := v.(*Agg); ok {
		n := &Agg{ext: a.ext, cells: make([]*Cell, len(a.cells))}
		back := make([]Cell, len(a.cells))
		for i, c := range a.cells {
			back[i].v = copyVal(c.v)
			n.cells[i] = &back[i]
		}
		return n
	}
	return v
}

func (c *Cell) load() Val { return copyVal(c.v) }

func (c *Cell) store(v Val) {
	if a, ok := v.(*Agg); ok {
		if o, ok := c.v.(*Agg); ok && len(o.cells) == len(a.cells) {
			for i := range o.cells {
				o.cells[i].store(a.cells[i].v)
			}
			o.ext = a.ext
			return
		}
		c.v = copyVal(a)
		return
	}
	c.v = v
}

func isNil(v Val) bool { _, ok := v.(nilT); return ok || v == nil }

// rt raises a run-time panic.
func (m *Machine) rt(pos token.Pos, f string, a ...any) {
	panic(&Panic{V: Iface{types.Typ[types.String], Lit(fmt.Sprintf(f, a...))}, Runtime: true, Pos: pos, Text: "runtime error: " + fmt.Sprintf(f, a...)})
}

func (m *Machine) str(v Val) Str {
	switch v := v.(type) {
	case Str:
		return v
	case Bytes:
		return v.S
	case Slice:
		var b []byte
		for _, c := range v.c {
			n, _ := c.v.(int64)
			b = append(b, byte(n))
		}
		return Lit(string(b))
	case nilT:
		return Str{}
	}
	m.undecided("a string was expected, not %T", v)
	return Str{}
}

// text looks into a string, atoms replaced by their representatives.
func (m *Machine) text(v Val) string {
	s := m.str(v)
	if t, ok := s.Const(); ok {
		return t
	}
	m.Looked++
	return s.Text(m.Assign)
}

// eqStr decides equality of two templates.
func (m *Machine) eqStr(a, b Str) bool {
	if a.Same(b) {
		return true
	}
	ca, ka := a.Const()
	cb, kb := b.Const()
	if ka && kb {
		return ca == cb
	}
	if ka || kb {
		c, s := ca, b
		if kb {
			c, s = cb, a
		}
		// a text of the class may be this one: decided apart
		if len(s.P) == 1 && s.P[0].A.Op == "" {
			if c == "" {
				return false
			}
			m.Special[c] = true
			return s.Text(m.Assign) == c
		}
		m.Looked++
		return s.Text(m.Assign) == c
	}
	m.pair(a, b)
	return a.Text(m.Assign) == b.Text(m.Assign)
}

// pair notes that two texts were compared.
func (m *Machine) pair(a, b Str) {
	if len(a.P) == 1 && len(b.P) == 1 {
		x, y := a.P[0].A, b.P[0].A
		if x != nil && y != nil && x != y && x.Op == "" && y.Op == "" {
			if x.Name > y.Name {
				x, y = y, x
			}
			m.Pairs[[2]*Atom{x, y}] = true
		}
	}
}

func (m *Machine) equal(a, b Val) bool {
	if isNil(a) || isNil(b) {
		if isNil(a) && isNil(b) {
			return true
		}
		return false
	}
	switch x := a.(type) {
	case Str:
		return m.eqStr(x, m.str(b))
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.T, y.T) && m.equal(x.V, y.V)
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.cells) != len(y.cells) {
			return false
		}
		for i := range x.cells {
			if !m.equal(x.cells[i].v, y.cells[i].v) {
				return false
			}
		}
		return true
	case Slice, Bytes, Tuple:
		m.undecided("comparison of %T", a)
	case *Closure:
		return a == b
	}
	return a == b
}

func (m *Machine) key(v Val) string {
	switch x := v.(type) {
	case Str:
		if len(x.P) == 1 && x.P[0].A != nil {
			for k := range m.keys {
				m.pair(x, AtomStr(k))
			}
			m.keys[x.P[0].A] = true
		}
		return "s" + x.Text(m.Assign)
	case Iface:
		return "i" + x.T.String() + ":" + m.key(x.V)
	case *Agg:
		r := "{"
		for _, c := range x.cells {
			r += m.key(c.v) + ","
		}
		return r + "}"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

// ---- execution ----

type frame struct {
	fn     *ssa.Function
	idx    map[ssa.Value]int
	env    []Val
	defers []func()
	panic  *Panic
	rec    bool
	result Val
}

// numbering maps the values of a function to places in frames.
var numbering sync.Map // *ssa.Function: map[ssa.Value]int

func newFrame(fn *ssa.Function) *frame {
	x, ok := numbering.Load(fn)
	if !ok {
		n := map[ssa.Value]int{}
		for _, p := range fn.Params {
			n[p] = len(n)
		}
		for _, p := range fn.FreeVars {
			n[p] = len(n)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					n[v] = len(n)
				}
			}
		}
		x, _ = numbering.LoadOrStore(fn, n)
	}
	idx := x.(map[ssa.Value]int)
	return &frame{fn: fn, idx: idx, env: make([]Val, len(idx))}
}

func (f *frame) set(v ssa.Value, x Val) { f.env[f.idx[v]] = x }

// Call evaluates fn.
func (m *Machine) Call(fn *ssa.Function, args []Val, bind []Val, pos token.Pos) Val {
	if !m.InRepo(fn) {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil {
			return Tuple{} // packages of the standard library are initialised on demand
		}
		if v, ok := m.external(fn, args, pos); ok {
			return v
		}
		if !interpreted(fn) {
			m.undecided("call of %v", fn)
		}
	}
	if fn.Blocks == nil {
		m.undecided("call of %v", fn)
	}
	if m.Funcs != nil {
		m.Funcs[fn] = true
	}
	m.depth++
	if m.depth > 2000 {
		m.undecided("recursion too deep in %v", fn)
	}
	defer func() { m.depth-- }()
	f := newFrame(fn)
	for i, p := range fn.Params {
		f.set(p, args[i])
	}
	for i, p := range fn.FreeVars {
		f.set(p, bind[i])
	}
	return m.runFrame(f)
}

// Call1 evaluates a function without parameters, whatever its package.
func (m *Machine) Call1(fn *ssa.Function) Val {
	return m.runFrame(newFrame(fn))
}

func (m *Machine) runFrame(f *frame) (res Val) {
	var pan *Panic
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case *Panic:
				pan = x
			default:
				panic(x)
			}
		}()
		res = m.blocks(f, f.fn.Blocks[0])
	}()
	if pan == nil {
		return res
	}
	f.panic = pan
	m.runDefers(f)
	if f.panic != nil {
		panic(f.panic)
	}
	if f.fn.Recover != nil {
		return m.blocks(f, f.fn.Recover)
	}
	return zero(f.fn.Signature.Results())
}

// runDefers runs deferred calls; a recovered panic is cleared.
func (m *Machine) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case *Panic:
					f.panic = x
				default:
					panic(x)
				}
			}()
			d()
		}()
	}
}

func (m *Machine) blocks(f *frame, b *ssa.BasicBlock) Val {
	var prev *ssa.BasicBlock
	for {
		// phis read their operands at once
		var phis []Val
		n := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, e := range b.Preds {
				if e == prev {
					phis = append(phis, m.val(f, p.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			f.set(b.Instrs[i].(*ssa.Phi), phis[i])
		}
		next := -1
		for _, in := range b.Instrs[n:] {
			m.Steps++
			if m.Steps > m.MaxStep {
				m.undecided("evaluation takes too long in %v", f.fn)
			}
			switch in := in.(type) {
			case *ssa.Jump:
				next = 0
			case *ssa.If:
				c, ok := m.val(f, in.Cond).(bool)
				if !ok {
					m.undecided("condition in %v", f.fn)
				}
				next = 1
				if c {
					next = 0
				}
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					return Tuple{}
				case 1:
					return m.val(f, in.Results[0])
				}
				var r Tuple
				for _, x := range in.Results {
					r = append(r, m.val(f, x))
				}
				return r
			case *ssa.Panic:
				v := m.val(f, in.X)
				panic(&Panic{V: v, Pos: in.Pos(), Text: m.show(v)})
			case *ssa.RunDefers:
				m.runDefers(f)
				if f.panic != nil {
					p := f.panic
					f.panic = nil
					panic(p)
				}
			default:
				m.exec(f, in)
			}
		}
		prev = b
		b = b.Succs[next]
	}
}

func (m *Machine) show(v Val) string {
	switch x := v.(type) {
	case Iface:
		return m.show(x.V)
	case Str:
		return x.Text(m.Assign)
	case *Agg:
		if e, ok := x.ext.(errExt); ok {
			return e.msg.Text(m.Assign)
		}
	case *Cell:
		return "&" + m.show(x.v)
	}
	return fmt.Sprint(v)
}

func (m *Machine) val(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	var x Val
	if i, ok := f.idx[v]; ok {
		x = f.env[i]
	}
	if x == nil {
		m.undecided("no value for %v in %v", v, f.fn)
	}
	return x
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return Lit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			x, _ := constant.Float64Val(c.Value)
			return x
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return n
		}
		n, _ := constant.Uint64Val(c.Value)
		return int64(n)
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			n, _ := constant.Int64Val(constant.ToInt(c.Value))
			return n
		}
		x, _ := constant.Float64Val(c.Value)
		return x
	}
	return Nil
}

func (m *Machine) global(g *ssa.Global) *Cell {
	c := m.globals[g]
	if c == nil {
		c = &Cell{zero(g.Type().(*types.Pointer).Elem())}
		if v := m.externalGlobal(g); v != nil {
			c.v = v
		}
		m.globals[g] = c
		if p := g.Pkg; p != nil {
			if f := p.Func("init"); f != nil && !m.InRepo(f) && m.interpretedPkg(p) && !m.inited[p] {
				m.inited[p] = true
				m.Call1(f)
			}
		}
	}
	return c
}

func (m *Machine) cell(v Val, pos token.Pos) *Cell {
	c, ok := v.(*Cell)
	if !ok {
		if isNil(v) {
			m.rt(pos, "invalid memory address or nil pointer dereference")
		}
		m.undecided("pointer to %T", v)
	}
	return c
}

func (m *Machine) exec(f *frame, in ssa.Instruction) {
	set := func(v Val) { f.set(in.(ssa.Value), v) }
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(&Cell{zero(in.Type().(*types.Pointer).Elem())})
	case *ssa.Store:
		m.cell(m.val(f, in.Addr), in.Pos()).store(m.val(f, in.Val))
	case *ssa.FieldAddr:
		c := m.cell(m.val(f, in.X), in.Pos())
		a, ok := c.v.(*Agg)
		if !ok {
			m.undecided("field of %T", c.v)
		}
		set(a.cells[in.Field])
	case *ssa.Field:
		set(copyVal(m.val(f, in.X).(*Agg).cells[in.Field].v))
	case *ssa.IndexAddr:
		x, i := m.val(f, in.X), m.val(f, in.Index).(int64)
		var cs []*Cell
		switch x := x.(type) {
		case Slice:
			cs = x.c
		case *Cell:
			cs = x.v.(*Agg).cells
		case Bytes:
			t := m.text(x)
			if i < 0 || i >= int64(len(t)) {
				m.rt(in.Pos(), "index out of range [%d] with length %d", i, len(t))
			}
			if in.Referrers() != nil {
				for _, r := range *in.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(in) {
						m.undecided("bytes of a text are changed in place in %v", f.fn)
					}
				}
			}
			set(&Cell{int64(t[i])})
			return
		case nilT:
		default:
			m.undecided("index of %T", x)
		}
		if i < 0 || i >= int64(len(cs)) {
			m.rt(in.Pos(), "index out of range [%d] with length %d", i, len(cs))
		}
		set(cs[i])
	case *ssa.Index:
		x, i := m.val(f, in.X), m.val(f, in.Index).(int64)
		if a, ok := x.(*Agg); ok {
			if i < 0 || i >= int64(len(a.cells)) {
				m.rt(in.Pos(), "index out of range [%d] with length %d", i, len(a.cells))
			}
			set(copyVal(a.cells[i].v))
			return
		}
		set(m.strIndex(x, i, in.Pos()))
	case *ssa.Lookup:
		x, k := m.val(f, in.X), m.val(f, in.Index)
		if s, ok := x.(Str); ok {
			set(m.strIndex(s, k.(int64), in.Pos()))
			return
		}
		var v Val
		found := false
		if mp, ok := x.(*Map); ok {
			if s, isStr := k.(Str); isStr {
				if _, c := s.Const(); !c {
					for _, e := range mp.m {
						if t, ok := e.k.(Str); ok {
							m.eqStr(s, t) // the text may be special
						}
					}
				}
			}
			if e := mp.m[m.key(k)]; e != nil {
				v, found = copyVal(e.v), true
			} else if s, isStr := k.(Str); isStr {
				if _, c := s.Const(); !c {
					if e := mp.m[m.key(Lit(s.Text(m.Assign)))]; e != nil {
						v, found = copyVal(e.v), true
					}
				}
			}
		}
		if !found {
			t := in.Type()
			if in.CommaOk {
				t = t.(*types.Tuple).At(0).Type()
			}
			v = zero(t)
		}
		if in.CommaOk {
			set(Tuple{v, found})
		} else {
			set(v)
		}
	case *ssa.MapUpdate:
		mp, ok := m.val(f, in.Map).(*Map)
		if !ok {
			m.rt(in.Pos(), "assignment to entry in nil map")
		}
		k := m.val(f, in.Key)
		ks := m.key(k)
		if e := mp.m[ks]; e != nil {
			e.v = m.val(f, in.Value)
		} else {
			mp.m[ks] = &mapEnt{k, m.val(f, in.Value)}
			mp.keys = append(mp.keys, k)
		}
	case *ssa.MakeMap:
		set(&Map{m: map[string]*mapEnt{}})
	case *ssa.MakeSlice:
		n := m.val(f, in.Len).(int64)
		cp := m.val(f, in.Cap).(int64)
		if n < 0 || cp < n || cp > 1<<20 {
			m.rt(in.Pos(), "makeslice: len out of range")
		}
		cs := make([]*Cell, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range cs {
			cs[i] = &Cell{zero(et)}
		}
		set(Slice{cs[:n]})
	case *ssa.Slice:
		set(m.slice(f, in))
	case *ssa.UnOp:
		set(m.unop(f, in))
	case *ssa.BinOp:
		set(m.binop(in.Op, m.val(f, in.X), m.val(f, in.Y), in.X.Type(), in.Pos()))
	case *ssa.ChangeType:
		set(m.val(f, in.X))
	case *ssa.Convert:
		set(m.convert(f, m.val(f, in.X), in.X.Type(), in.Type()))
	case *ssa.ChangeInterface:
		set(m.val(f, in.X))
	case *ssa.MakeInterface:
		set(Iface{in.X.Type(), m.val(f, in.X)})
	case *ssa.TypeAssert:
		set(m.assert(in, m.val(f, in.X)))
	case *ssa.Extract:
		set(m.val(f, in.Tuple).(Tuple)[in.Index])
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.bind = append(c.bind, m.val(f, b))
		}
		set(c)
	case *ssa.Call:
		set(m.doCall(f, in.Common(), in.Pos()))
	case *ssa.Defer:
		fn, args := m.prepare(f, in.Common())
		pos := in.Pos()
		f.defers = append(f.defers, func() { m.apply(f, fn, args, pos) })
	case *ssa.Range:
		set(m.rangeOf(m.val(f, in.X)))
	case *ssa.Next:
		set(m.val(f, in.Iter).(*iter).next(in))
	default:
		m.undecided("%T in %v", in, f.fn)
	}
}

type iter struct {
	ks, vs []Val
	i      int
}

func (it *iter) next(in *ssa.Next) Val {
	if it.i >= len(it.ks) {
		t := in.Type().(*types.Tuple)
		return Tuple{false, zeroOrNil(t.At(1).Type()), zeroOrNil(t.At(2).Type())}
	}
	it.i++
	return Tuple{true, it.ks[it.i-1], it.vs[it.i-1]}
}

func zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Nil
	}
	return zero(t)
}

func (m *Machine) rangeOf(x Val) Val {
	it := &iter{}
	switch x := x.(type) {
	case *Map:
		for _, k := range x.keys {
			if e := x.m[m.key(k)]; e != nil {
				it.ks, it.vs = append(it.ks, k), append(it.vs, e.v)
			}
		}
		// any order is possible
		n := len(it.ks)
		switch {
		case n < 2:
		case m.Env == 1: // backwards
			for i := 0; i < n/2; i++ {
				it.ks[i], it.ks[n-1-i] = it.ks[n-1-i], it.ks[i]
				it.vs[i], it.vs[n-1-i] = it.vs[n-1-i], it.vs[i]
			}
		case m.Env > 1: // from another start each time
			k := int(m.salt()) % n
			it.ks = append(append([]Val{}, it.ks[k:]...), it.ks[:k]...)
			it.vs = append(append([]Val{}, it.vs[k:]...), it.vs[:k]...)
		}
	case Str:
		for i, r := range m.text(x) {
			it.ks, it.vs = append(it.ks, int64(i)), append(it.vs, int64(r))
		}
	}
	return it
}

func (m *Machine) strIndex(x Val, i int64, pos token.Pos) Val {
	t := m.text(x)
	if i < 0 || i >= int64(len(t)) {
		m.rt(pos, "index out of range [%d] with length %d", i, len(t))
	}
	return int64(t[i])
}

func (m *Machine) slice(f *frame, in *ssa.Slice) Val {
	x := m.val(f, in.X)
	get := func(v ssa.Value, d int64) int64 {
		if v == nil {
			return d
		}
		return m.val(f, v).(int64)
	}
	lo := get(in.Low, 0)
	switch x := x.(type) {
	case Str, Bytes:
		s := m.str(x)
		hi := get(in.High, -1)
		r, ok := s.slice1(int(lo), int(hi))
		if !ok {
			t := m.text(s)
			if hi < 0 {
				hi = int64(len(t))
			}
			if lo < 0 || lo > hi || hi > int64(len(t)) {
				m.rt(in.Pos(), "slice bounds out of range [%d:%d] with length %d", lo, hi, len(t))
			}
			r = Lit(t[lo:hi])
		}
		if _, b := x.(Bytes); b {
			return Bytes{r}
		}
		return r
	case nilT:
		return Nil
	case *Cell:
		a := x.v.(*Agg)
		hi := get(in.High, int64(len(a.cells)))
		if lo < 0 || lo > hi || hi > int64(len(a.cells)) {
			m.rt(in.Pos(), "slice bounds out of range")
		}
		return Slice{a.cells[lo:hi]}
	case Slice:
		hi := get(in.High, int64(len(x.c)))
		mx := get(in.Max, int64(cap(x.c)))
		if lo < 0 || lo > hi || hi > mx || mx > int64(cap(x.c)) {
			m.rt(in.Pos(), "slice bounds out of range")
		}
		return Slice{x.c[lo:hi:mx]}
	}
	m.undecided("slice of %T", x)
	return nil
}

// slice1 is slice with bounds checks.
func (s Str) slice1(lo, hi int) (Str, bool) {
	if t, ok := s.Const(); ok {
		if hi < 0 {
			hi = len(t)
		}
		if lo < 0 || lo > hi || hi > len(t) {
			return Str{}, false
		}
	}
	return s.slice(lo, hi)
}

func (m *Machine) unop(f *frame, in *ssa.UnOp) Val {
	x := m.val(f, in.X)
	switch in.Op {
	case token.MUL:
		return m.cell(x, in.Pos()).load()
	case token.NOT:
		return !x.(bool)
	case token.SUB:
		if v, ok := x.(float64); ok {
			return -v
		}
		return wrapInt(-x.(int64), in.Type())
	case token.XOR:
		return wrapInt(^x.(int64), in.Type())
	}
	m.undecided("operator %v", in.Op)
	return nil
}

func wrapInt(n int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func (m *Machine) binop(op token.Token, x, y Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return !m.equal(x, y)
	}
	switch a := x.(type) {
	case Str:
		b := m.str(y)
		switch op {
		case token.ADD:
			return Cat(a, b)
		case token.LSS:
			return m.text(a) < m.text(b)
		case token.LEQ:
			return m.text(a) <= m.text(b)
		case token.GTR:
			return m.text(a) > m.text(b)
		case token.GEQ:
			return m.text(a) >= m.text(b)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case int64:
		b, ok := y.(int64)
		if !ok {
			break
		}
		uns := false
		if bt, ok := t.Underlying().(*types.Basic); ok {
			uns = bt.Info()&types.IsUnsigned != 0
		}
		w := func(n int64) Val { return wrapInt(n, t) }
		switch op {
		case token.ADD:
			return w(a + b)
		case token.SUB:
			return w(a - b)
		case token.MUL:
			return w(a * b)
		case token.QUO, token.REM:
			if b == 0 {
				m.rt(pos, "integer divide by zero")
			}
			switch {
			case op == token.QUO && uns:
				return w(int64(uint64(a) / uint64(b)))
			case op == token.QUO:
				return w(a / b)
			case uns:
				return w(int64(uint64(a) % uint64(b)))
			}
			return w(a % b)
		case token.AND:
			return w(a & b)
		case token.OR:
			return w(a | b)
		case token.XOR:
			return w(a ^ b)
		case token.AND_NOT:
			return w(a &^ b)
		case token.SHL:
			if uint64(b) > 63 {
				return int64(0)
			}
			return w(a << uint(b))
		case token.SHR:
			if uint64(b) > 63 {
				if a < 0 && !uns {
					return int64(-1)
				}
				return int64(0)
			}
			if uns {
				return w(int64(uint64(a) >> uint(b)))
			}
			return w(a >> uint(b))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			lt, eq := a < b, a == b
			if uns {
				lt = uint64(a) < uint64(b)
			}
			switch op {
			case token.LSS:
				return lt
			case token.LEQ:
				return lt || eq
			case token.GTR:
				return !lt && !eq
			}
			return !lt
		}
	}
	m.undecided("%v of %T and %T", op, x, y)
	return nil
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) convert(f *frame, x Val, from, to types.Type) Val {
	tb, _ := to.Underlying().(*types.Basic)
	switch v := x.(type) {
	case Str:
		if tb != nil {
			return v
		}
		if isBytes(to) {
			if !m.bytesMutated(f) {
				return Bytes{v}
			}
			var cs []*Cell
			for _, b := range []byte(m.text(v)) {
				cs = append(cs, &Cell{int64(b)})
			}
			return Slice{cs}
		}
		var cs []*Cell
		for _, r := range m.text(v) {
			cs = append(cs, &Cell{int64(r)})
		}
		return Slice{cs}
	case Bytes:
		if tb != nil {
			return v.S
		}
		return v
	case Slice, nilT:
		if tb != nil && tb.Info()&types.IsString != 0 {
			if isBytes(from) {
				return m.str(v)
			}
			var r []rune
			if s, ok := v.(Slice); ok {
				for _, c := range s.c {
					r = append(r, rune(c.v.(int64)))
				}
			}
			return Lit(string(r))
		}
		return v
	case int64:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return Lit(string(rune(v)))
		}
		if tb != nil && tb.Info()&types.IsFloat != 0 {
			return float64(v)
		}
		return wrapInt(v, to)
	case float64:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			return wrapInt(int64(v), to)
		}
		return v
	}
	return x
}

// bytesMutated: the function changes bytes of a slice in place.
func (m *Machine) bytesMutated(f *frame) bool {
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isBytes(ia.X.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) assert(in *ssa.TypeAssert, x Val) Val {
	i, isI := x.(Iface)
	ok := false
	if isI {
		if it, k := in.AssertedType.Underlying().(*types.Interface); k {
			ok = types.Implements(i.T, it)
		} else {
			ok = types.Identical(i.T, in.AssertedType)
		}
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	var v Val
	if ok {
		v = x
		if !toIface {
			v = i.V
		}
	} else {
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		m.rt(in.Pos(), "interface conversion")
	}
	return v
}

// prepare evaluates the function and arguments of a call.
func (m *Machine) prepare(f *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		r := m.val(f, c.Value)
		for _, a := range c.Args {
			args = append(args, m.val(f, a))
		}
		return &bound{r, c.Method}, args
	}
	fn := m.val(f, c.Value)
	for _, a := range c.Args {
		args = append(args, m.val(f, a))
	}
	return fn, args
}

type bound struct {
	recv Val
	meth *types.Func
}

func (m *Machine) doCall(f *frame, c *ssa.CallCommon, pos token.Pos) Val {
	fn, args := m.prepare(f, c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.builtin(f, b, args, c, pos)
	}
	return m.apply(f, fn, args, pos)
}

func (m *Machine) apply(f *frame, fn Val, args []Val, pos token.Pos) Val {
	switch x := fn.(type) {
	case *Closure:
		if x.nat != nil {
			return x.nat(args)
		}
		if f != nil {
			m.callers = append(m.callers, f)
			defer func() { m.callers = m.callers[:len(m.callers)-1] }()
		}
		return m.Call(x.fn, args, x.bind, pos)
	case *bound:
		return m.Invoke(x.recv, x.meth.Name(), x.meth.Pkg(), args, pos)
	case *ssa.Builtin:
		return m.builtin(f, x, args, nil, pos)
	case nilT:
		m.rt(pos, "invalid memory address or nil pointer dereference")
	}
	m.undecided("call of %T", fn)
	return nil
}

// Invoke calls a method of an interface value.
func (m *Machine) Invoke(recv Val, name string, pkg *types.Package, args []Val, pos token.Pos) Val {
	i, ok := recv.(Iface)
	if !ok {
		m.rt(pos, "invalid memory address or nil pointer dereference")
	}
	args = append([]Val{i.V}, args...)
	if fn := m.Prog.LookupMethod(i.T, pkg, name); fn != nil {
		return m.Call(fn, args, nil, pos)
	}
	m.undecided("method %s of %v", name, i.T)
	return nil
}

func (m *Machine) builtin(f *frame, b *ssa.Builtin, args []Val, c *ssa.CallCommon, pos token.Pos) Val {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Bytes:
			return int64(len(x.S.Text(m.Assign)))
		case Str:
			return int64(len(m.text(x)))
		case Slice:
			return int64(len(x.c))
		case *Map:
			return int64(len(x.m))
		case *Agg:
			return int64(len(x.cells))
		case *Cell:
			return int64(len(x.v.(*Agg).cells))
		case nilT:
			return int64(0)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.c))
		case Bytes:
			return int64(len(m.text(x)))
		case nilT:
			return int64(0)
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		_, bx := args[0].(Bytes)
		_, by := args[1].(Bytes)
		_, sy := args[1].(Str)
		if bx || by || sy {
			return Bytes{Cat(m.str(args[0]), m.str(args[1]))}
		}
		var old, add []*Cell
		if s, ok := args[0].(Slice); ok {
			old = s.c
		}
		if s, ok := args[1].(Slice); ok {
			add = s.c
		}
		n := len(old) + len(add)
		var vals []Val
		for _, c := range add {
			vals = append(vals, copyVal(c.v))
		}
		if n > cap(old) {
			cp := 2 * cap(old)
			if cp < n {
				cp = n
			}
			cs := make([]*Cell, cp)
			for i := range cs {
				cs[i] = &Cell{}
				if i < len(old) {
					cs[i].v = copyVal(old[i].v)
				}
			}
			old = cs[:len(old)]
		}
		r := old[:n]
		for i, v := range vals {
			if r[len(old)+i] == nil {
				r[len(old)+i] = &Cell{}
			}
			r[len(old)+i].v = v
		}
		if len(r) == 0 {
			return args[0]
		}
		return Slice{r}
	case "copy":
		s, ok := args[0].(Slice)
		if !ok {
			m.undecided("copy to %T", args[0])
		}
		if y, ok := args[1].(Slice); ok {
			n := len(s.c)
			if len(y.c) < n {
				n = len(y.c)
			}
			for i := 0; i < n; i++ {
				s.c[i].store(copyVal(y.c[i].v))
			}
			return int64(n)
		}
		t := m.text(args[1])
		n := len(s.c)
		if len(t) < n {
			n = len(t)
		}
		for i := 0; i < n; i++ {
			s.c[i].v = int64(t[i])
		}
		return int64(n)
	case "delete":
		if mp, ok := args[0].(*Map); ok {
			delete(mp.m, m.key(args[1]))
		}
		return Tuple{}
	case "recover":
		// the caller's caller is the panicking frame
		if n := len(m.callers); n > 0 {
			p := m.callers[n-1]
			if p.panic != nil {
				v := p.panic.V
				p.panic = nil
				return v
			}
		}
		return Nil
	case "print", "println":
		return Tuple{}
	case "ssa:wrapnilchk":
		if isNil(args[0]) {
			m.rt(pos, "value method called using nil pointer")
		}
		return args[0]
	}
	m.undecided("builtin %s", b.Name())
	return nil
}

// Forget drops what is not needed once an evaluation is done.
func (m *Machine) Forget() {
	m.globals, m.flags, m.inited, m.callers = nil, nil, nil, nil
}

package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Event is something observable that happens on a path.
type Event struct {
	Kind   string // call, invoke, go, store, emit, mapupdate, mapdelete, loophead, loopback, send, defer, copy, ...
	Name   string // callee
	Fn     *types.Func
	Recv   *Term // receiver of invoke
	Args   []*Term
	Res    *Term
	Pos    token.Pos
	In     *ssa.Function
	Data   any
	NF     int // number of branch conditions assumed before the event
	Dep    int // call depth
	Thread int
}

func (e Event) String() string { return fmt.Sprintf("%s %s%v", e.Kind, e.Name, e.Args) }

// CondFact is a branch condition assumed on a path.
type CondFact struct {
	Cond *Term
	Val  bool
	Pos  token.Pos
}

// Oblig is a potential run-time panic and whether it is excluded.
type Oblig struct {
	Kind string
	Pos  token.Pos
	In   *ssa.Function
	OK   bool
	What string
	Data any
}

type havoc struct {
	prefix *Term      // nil: everything
	elem   types.Type // every scalar of this type, if not nil
	stamp  int64
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	in   *ssa.Function
	pos  token.Pos
}

type frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*Term
	defers []deferred
	call   ssa.Instruction // instruction in the caller waiting for the result (nil for root, deferred)
	isDef  bool
	visits map[*ssa.BasicBlock]int
	cut    map[*ssa.BasicBlock]int // loops being cut at this header -> loop id
	// panicking state while running defers
	panicking bool
	recovered bool
	ret       *Term
	running   bool // running deferred calls because of return or panic
	hook      func(st *State, res *Term)
}

// State is one abstract path in progress.
type State struct {
	mem    map[*Term]*Term
	havocs []havoc
	facts  []cons
	bools  map[*Term]bool
	eqmap  map[*Term]*Term // atom -> constant
	neqs   []*Term         // equations of structs that do not hold
	Conds  []CondFact
	Events []Event
	Obligs []Oblig
	frames []*frame
	loops  []int
	writes []*Term // addresses written (for loop havoc inference)
	havW   []*Term
	kept   []*Term        // writes of the value that was there already
	Tag    map[string]any // rule-private data
	Exit   string         // return, panic, loopback, exit, thread-end
	Ret    *Term
	PanicV *Term
	steps  int
	Thread int
	dead   bool
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, bools: map[*Term]bool{}, eqmap: map[*Term]*Term{}, Tag: map[string]any{}}
}

func (st *State) clone() *State {
	n := *st
	n.mem = make(map[*Term]*Term, len(st.mem))
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.bools = make(map[*Term]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.eqmap = make(map[*Term]*Term, len(st.eqmap))
	for k, v := range st.eqmap {
		n.eqmap[k] = v
	}
	n.Tag = make(map[string]any, len(st.Tag))
	for k, v := range st.Tag {
		n.Tag[k] = v
	}
	n.havocs = st.havocs[:len(st.havocs):len(st.havocs)]
	n.facts = st.facts[:len(st.facts):len(st.facts)]
	n.neqs = st.neqs[:len(st.neqs):len(st.neqs)]
	n.Conds = st.Conds[:len(st.Conds):len(st.Conds)]
	n.Events = st.Events[:len(st.Events):len(st.Events)]
	n.Obligs = st.Obligs[:len(st.Obligs):len(st.Obligs)]
	n.writes = st.writes[:len(st.writes):len(st.writes)]
	n.havW = st.havW[:len(st.havW):len(st.havW)]
	n.kept = st.kept[:len(st.kept):len(st.kept)]
	n.loops = st.loops[:len(st.loops):len(st.loops)]
	n.frames = make([]*frame, len(st.frames))
	for i, f := range st.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		c.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			c.visits[k] = v
		}
		c.cut = make(map[*ssa.BasicBlock]int, len(f.cut))
		for k, v := range f.cut {
			c.cut[k] = v
		}
		n.frames[i] = &c
	}
	return &n
}

func (st *State) top() *frame { return st.frames[len(st.frames)-1] }

// ---- addresses ----

func Field(base *Term, i int, name string, t types.Type) *Term {
	return mk(Term{Op: "fa", Args: []*Term{base}, K: int64(i), N: name, T: t})
}
func Index(base, i *Term) *Term { return mk(Term{Op: "ia", Args: []*Term{base, i}}) }

// Region is the backing store of a slice value.
func Region(s *Term) *Term {
	if s.Op == "slice" {
		return s.Args[0]
	}
	return mk(Term{Op: "rgn", Args: []*Term{s}})
}

// SliceParts decomposes a slice value.
func SliceParts(s *Term) (region, off, ln, cp *Term) {
	switch s.Op {
	case "slice":
		return s.Args[0], s.Args[1], s.Args[2], s.Args[3]
	case "nil":
		return Nil, Int(0), Int(0), Int(0)
	}
	return Region(s), Int(0), Len(s), Cap(s)
}

var intT types.Type = types.Typ[types.Int]

// Len is the length of a slice value.
func Len(s *Term) *Term {
	switch s.Op {
	case "slice":
		return s.Args[2]
	case "nil":
		return Int(0)
	}
	return mk(Term{Op: "len", Args: []*Term{s}, T: intT})
}

// StrLen is the length of a string value.
func StrLen(s *Term) *Term {
	if v, ok := s.StrVal(); ok {
		return Int(int64(len(v)))
	}
	switch s.Op {
	case "strof", "cat": // content of pieces
		l := Int(0)
		for _, p := range s.Args {
			l = Add(l, pieceLen(p))
		}
		return l
	}
	return mk(Term{Op: "strlen", Args: []*Term{s}, T: intT})
}

func pieceLen(p *Term) *Term {
	switch p.Op {
	case "blob":
		return p.Args[2]
	case "zeros":
		return p.Args[0]
	case "strbytes":
		return StrLen(p.Args[0])
	}
	if isStringTerm(p) {
		return StrLen(p)
	}
	return Int(1)
}

func Cap(s *Term) *Term {
	switch s.Op {
	case "slice":
		return s.Args[3]
	case "nil":
		return Int(0)
	}
	return mk(Term{Op: "cap", Args: []*Term{s}, T: intT})
}

// MkSlice builds a slice value, collapsing full slices of a value.
func MkSlice(region, off, ln, cp *Term) *Term {
	if region.Op == "nil" {
		return Nil
	}
	if region.Op == "rgn" {
		s := region.Args[0]
		if off == Int(0) && ln == Len(s) && cp == Cap(s) {
			return s
		}
	}
	return mk(Term{Op: "slice", Args: []*Term{region, off, ln, cp}})
}

// derives reports whether address/value a is obtained from p.
func derives(a, p *Term) bool {
	if a == p {
		return true
	}
	switch a.Op {
	case "fa", "sel", "rgn", "slice", "assert":
		return derives(a.Args[0], p)
	case "ia":
		return derives(a.Args[0], p)
	}
	return false
}

// covers reports whether location prefix p contains address a.
func covers(p, a *Term) bool {
	for {
		if a == p {
			return true
		}
		if (a.Op == "fa" || a.Op == "ia") && len(a.Args) > 0 {
			a = a.Args[0]
			continue
		}
		return false
	}
}

// known: memory whose contents are known from the start, zero unless stored.
func known(root *Term) bool {
	return root.Op == "alloc" || root.Op == "global" && root.K == 1
}

// Root strips field and index steps.
func Root(a *Term) *Term {
	for a.Op == "fa" || a.Op == "ia" {
		a = a.Args[0]
	}
	return a
}

func (st *State) stampOf(a *Term) int64 {
	var s int64
	for _, h := range st.havocs {
		if h.elem != nil {
			if mayHold(a, h.elem) {
				s = h.stamp
			}
			continue
		}
		if h.prefix == nil || covers(h.prefix, a) {
			s = h.stamp
		}
	}
	return s
}

// cellType is the type of what is stored at address a, nil if unknown.
func cellType(a *Term) types.Type {
	switch a.Op {
	case "fa":
		if a.N == "$segs" {
			return elemType(a.Args[0])
		}
		return a.T
	case "ia":
		return elemType(a.Args[0])
	case "alloc", "global":
		if p, ok := underlying(a.T).(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return nil
}

// elemType is the element type of a region or array at address a.
func elemType(a *Term) types.Type {
	if a.Op == "rgn" {
		if s, ok := underlying(a.Args[0].T).(*types.Slice); ok {
			return s.Elem()
		}
		return nil
	}
	if t := cellType(a); t != nil {
		if s, ok := t.Underlying().(*types.Array); ok {
			return s.Elem()
		}
	}
	return nil
}

func underlying(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// mayHold: a scalar of type t may be stored at a or inside what is there.
func mayHold(a *Term, t types.Type) bool {
	if a.Op == "mapcell" {
		return false // map entries have no address
	}
	var holds func(c types.Type) bool
	holds = func(c types.Type) bool {
		switch u := c.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if holds(u.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Array:
			return holds(u.Elem())
		case *types.Interface, *types.TypeParam:
			return types.IsInterface(t) && types.Identical(u, t.Underlying())
		}
		return types.Identical(c.Underlying(), t.Underlying())
	}
	c := cellType(a)
	if c == nil {
		if a.Op == "rgn" {
			if e := elemType(a); e != nil {
				return holds(e)
			}
		}
		return true
	}
	return holds(c)
}

// HavocElems forgets every stored scalar of type t.
func (st *State) HavocElems(t types.Type) {
	st.havW = append(st.havW, Region(Sym("any", types.NewSlice(t))))
	for k := range st.mem {
		if mayHold(k, t) {
			delete(st.mem, k)
		}
	}
	st.havocs = append(st.havocs[:len(st.havocs):len(st.havocs)], havoc{elem: t, stamp: freshID()})
}

// Zero is the zero value of a type.
func Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Const(constant.MakeInt64(0))
		}
		return Nil
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, Zero(u.Field(i).Type()))
		}
		return Op("struct", as...)
	case *types.Array:
		if u.Len() <= 64 {
			var as []*Term
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, Zero(u.Elem()))
			}
			return Op("array", as...)
		}
		return Op("zeroarr")
	}
	return Nil
}

// Load reads a value of type t at address a.
func (st *State) Load(a *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if v, ok := st.mem[a]; ok && v.Op != "struct" {
			return v
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, st.Load(Field(a, i, u.Field(i).Name(), u.Field(i).Type()), u.Field(i).Type()))
		}
		return Op("struct", as...)
	case *types.Array:
		if u.Len() <= 64 {
			var as []*Term
			for i := int64(0); i < u.Len(); i++ {
				as = append(as, st.Load(Index(a, Int(i)), u.Elem()))
			}
			return Op("array", as...)
		}
	}
	if v, ok := st.mem[a]; ok {
		return v
	}
	if a.Op == "ia" {
		if v, ok := st.loadSeg(a, t); ok {
			return v
		}
	}
	s := st.stampOf(a)
	if s == 0 {
		if known(Root(a)) {
			return Zero(t)
		}
	}
	return mk(Term{Op: "sel", Args: []*Term{a}, K: s, T: t})
}

// Store writes a value of type t at address a.
func (st *State) Store(a *Term, v *Term, t types.Type) {
	if isScalar(t) {
		if old := st.Load(a, t); old == v || st.Norm(old) == st.Norm(v) {
			st.kept = append(st.kept, a)
		}
	}
	st.writes = append(st.writes, a)
	st.store(a, v, t)
}

func (st *State) store(a *Term, v *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			st.store(Field(a, i, f.Name(), f.Type()), fieldOf(v, i, f.Name(), f.Type()), f.Type())
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				st.store(Index(a, Int(i)), elemOf(v, i, u.Elem()), u.Elem())
			}
			return
		}
	}
	if a.Op == "ia" {
		base := a.Args[0]
		_, c := a.Args[1].Int64()
		for k := range st.mem {
			x := k
			for x.Op == "fa" || x.Op == "ia" {
				if x.Op == "ia" && x.Args[0] == base && x != a {
					_, kc := x.Args[1].Int64()
					if !(c && kc) {
						delete(st.mem, k)
					}
					break
				}
				x = x.Args[0]
			}
		}
		if !c {
			if sg := st.mem[segKey(base)]; sg != nil || known(base) {
				if isScalar(t) {
					st.addSeg(base, a.Args[1], Int(1), v)
					return
				}
			}
			delete(st.mem, segKey(base))
			st.havocs = append(st.havocs[:len(st.havocs):len(st.havocs)], havoc{prefix: base, stamp: freshID()})
		}
	}
	st.mem[a] = v
}

func fieldOf(v *Term, i int, name string, t types.Type) *Term {
	if v.Op == "struct" && i < len(v.Args) {
		return v.Args[i]
	}
	return OpN("fld", fmt.Sprint(i), t, v)
}

func elemOf(v *Term, i int64, t types.Type) *Term {
	if v.Op == "array" && int(i) < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == "zeroarr" {
		return Zero(t)
	}
	return OpT("elem", t, v, Int(i))
}

// Havoc forgets everything stored under prefix.
func (st *State) Havoc(prefix *Term) {
	st.havW = append(st.havW, prefix)
	for k := range st.mem {
		if covers(prefix, k) {
			delete(st.mem, k)
		}
	}
	st.havocs = append(st.havocs[:len(st.havocs):len(st.havocs)], havoc{prefix: prefix, stamp: freshID()})
}

// HavocReach forgets everything reachable from v.
func (st *State) HavocReach(v *Term) {
	seen := map[*Term]bool{}
	var visit func(v *Term)
	visit = func(v *Term) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case "alloc", "fa", "ia", "global":
			for k, w := range st.mem {
				if covers(v, k) {
					visit(w)
				}
			}
			st.Havoc(v)
		case "mkmap":
			st.Havoc(v)
			for k := range st.mem {
				if k.Op == "mapcell" && k.Args[0] == v {
					delete(st.mem, k)
				}
			}
		case "slice":
			visit(v.Args[0])
		case "rgn":
			st.Havoc(v)
		case "iface", "struct", "array", "tuple", "closure":
			for _, a := range v.Args {
				visit(a)
			}
		case "sym", "sel", "nonnil", "assert":
			// an unknown pointer or slice: forget what was learned below it
			for k, w := range st.mem {
				if derives(k, v) {
					visit(w)
				}
			}
			for k := range st.mem {
				if derives(k, v) {
					delete(st.mem, k)
				}
			}
			if v.T != nil {
				switch v.T.Underlying().(type) {
				case *types.Pointer:
					st.Havoc(v)
				case *types.Slice:
					st.Havoc(Region(v))
				}
			}
		}
	}
	visit(v)
}

// ---- branch facts ----

// Decide evaluates a boolean term on this path.
func (st *State) Decide(c *Term) (val, known bool) {
	if b, ok := c.BoolVal(); ok {
		return b, true
	}
	if b, ok := st.bools[c]; ok {
		return b, true
	}
	switch c.Op {
	case "not":
		v, k := st.Decide(c.Args[0])
		return !v, k
	case "eq":
		a, b := st.subst(c.Args[0]), st.subst(c.Args[1])
		if a != c.Args[0] || b != c.Args[1] {
			return st.Decide(Eq(a, b))
		}
		if open, dist, ok := st.structEq(a, b); ok {
			if dist {
				return false, true
			}
			if len(open) == 0 {
				return true, true
			}
			return false, false
		}
		if st.bothInt(a, b) {
			d := toLin(st.Norm(a)).add(toLin(st.Norm(b)), -1)
			nd := linForm{map[*Term]int64{}, 0, true}.add(d, -1)
			if len(d.atoms) == 0 && d.ok {
				return d.k == 0, true
			}
			d1 := d
			d1.k--
			nd1 := nd
			nd1.k--
			if st.provesGE(d1) || st.provesGE(nd1) {
				return false, true
			}
			if st.provesGE(d) && st.provesGE(nd) {
				return true, true
			}
		}
	case "lt":
		a, b := st.Norm(st.subst(c.Args[0])), st.Norm(st.subst(c.Args[1]))
		d := toLin(b).add(toLin(a), -1) // b-a
		d1 := d
		d1.k--
		if st.provesGE(d1) {
			return true, true
		}
		if st.provesGE(linForm{map[*Term]int64{}, 0, true}.add(d, -1)) {
			return false, true
		}
	}
	return false, false
}

func (st *State) bothInt(a, b *Term) bool {
	if !isIntLike(a) || !isIntLike(b) {
		return false
	}
	if a.Op == "sym" || a.Op == "sel" {
		if a.T == nil {
			return false
		}
	}
	return true
}

func (st *State) subst(t *Term) *Term {
	if v, ok := st.eqmap[t]; ok {
		return v
	}
	return t
}

// structEq compares two structs field by field: the equations that are open,
// and whether fields are known to differ.
func (st *State) structEq(a, b *Term) (open []*Term, distinct, ok bool) {
	if a.Op != "struct" || b.Op != "struct" || len(a.Args) != len(b.Args) {
		return nil, false, false
	}
	for i := range a.Args {
		if a.Args[i] == b.Args[i] {
			continue
		}
		e := Eq(a.Args[i], b.Args[i])
		v, known := st.Decide(e)
		switch {
		case !known:
			open = append(open, e)
		case !v:
			return nil, true, true
		}
	}
	return open, false, true
}

// Assume adds a branch fact; it returns false if that is contradictory.
func (st *State) Assume(c *Term, v bool) bool {
	if !st.assume(c, v) {
		return false
	}
	for _, e := range st.neqs {
		open, distinct, _ := st.structEq(e.Args[0], e.Args[1])
		if !distinct && len(open) == 0 {
			return false
		}
		if !distinct && len(open) == 1 && !st.assume(open[0], false) {
			return false
		}
	}
	return true
}

func (st *State) assume(c *Term, v bool) bool {
	if b, k := st.Decide(c); k {
		return b == v
	}
	if c.Op == "not" {
		return st.Assume(c.Args[0], !v)
	}
	st.bools[c] = v
	switch c.Op {
	case "eq":
		a, b := c.Args[0], c.Args[1]
		if open, _, ok := st.structEq(a, b); ok {
			if !v {
				st.neqs = append(st.neqs, c)
			} else {
				for _, e := range open {
					if !st.assume(e, true) {
						return false
					}
				}
			}
			return true
		}
		if v {
			if b.IsConst() || b.IsNil() {
				st.eqmap[a] = b
			} else if a.IsConst() || a.IsNil() {
				st.eqmap[b] = a
			}
			if st.bothInt(a, b) {
				d := toLin(st.Norm(a)).add(toLin(st.Norm(b)), -1)
				st.addGE(d)
				st.addGE(linForm{map[*Term]int64{}, 0, true}.add(d, -1))
				return st.feasible() && st.unequalOK()
			}
		} else if st.bothInt(a, b) {
			// x != k sharpens x >= k and x <= k
			d := toLin(st.Norm(a)).add(toLin(st.Norm(b)), -1)
			nd := linForm{map[*Term]int64{}, 0, true}.add(d, -1)
			if st.provesGE(d) {
				d.k--
				st.addGE(d)
			} else if st.provesGE(nd) {
				nd.k--
				st.addGE(nd)
			}
		}
	case "lt":
		a, b := st.Norm(c.Args[0]), st.Norm(c.Args[1])
		d := toLin(b).add(toLin(a), -1)
		if v {
			d.k--
			st.addGE(d)
		} else {
			st.addGE(linForm{map[*Term]int64{}, 0, true}.add(d, -1))
		}
		return st.feasible()
	}
	return true
}

// unequalOK: no two integers known to differ are known to be equal.
func (st *State) unequalOK() bool {
	var near map[*Term]bool
	for c, v := range st.bools {
		if v || c.Op != "eq" {
			continue
		}
		if near == nil {
			_, near = st.connected([]cons{st.facts[len(st.facts)-1]})
		}
		d := toLin(st.Norm(c.Args[0])).add(toLin(st.Norm(c.Args[1])), -1)
		hit := d.ok && len(d.atoms) == 0 && d.k == 0
		for a := range d.atoms {
			hit = hit || near[a]
		}
		if hit && st.bothInt(c.Args[0], c.Args[1]) && st.ProvesEq(c.Args[0], c.Args[1]) {
			return false
		}
	}
	return true
}

// Eq compares two values.
func Eq(a, b *Term) *Term {
	if a == b {
		switch a.Op {
		case "sym", "sel", "const", "nil", "lin", "alloc", "fa", "ia", "global", "iface", "nonnil", "len":
			return True
		}
	}
	if a.IsConst() && b.IsConst() {
		if a.C.Kind() == b.C.Kind() {
			return Bool(constant.Compare(a.C, token.EQL, b.C))
		}
		return False
	}
	if a.IsNil() || b.IsNil() {
		x := a
		if a.IsNil() {
			x = b
		}
		switch x.Op {
		case "nonnil", "alloc", "fa", "ia", "global", "closure", "iface", "slice", "mkmap", "func", "struct":
			return False
		}
		return mk(Term{Op: "eq", Args: []*Term{x, Nil}})
	}
	// comparison of a boolean with a constant
	if v, ok := b.BoolVal(); ok {
		if v {
			return a
		}
		return Not(a)
	}
	if v, ok := a.BoolVal(); ok {
		if v {
			return b
		}
		return Not(b)
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) {
		all := true
		for i := range a.Args {
			e := Eq(a.Args[i], b.Args[i])
			if v, ok := e.BoolVal(); ok {
				if !v {
					return False
				}
			} else {
				all = false
			}
		}
		if all {
			return True
		}
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return False
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	if a.IsConst() {
		a, b = b, a
	}
	return mk(Term{Op: "eq", Args: []*Term{a, b}})
}

// Lt is a < b.
func Lt(a, b *Term) *Term {
	x, ok1 := a.Int64()
	y, ok2 := b.Int64()
	if ok1 && ok2 {
		return Bool(x < y)
	}
	if sa, ok := a.StrVal(); ok {
		if sb, ok := b.StrVal(); ok {
			return Bool(sa < sb)
		}
	}
	if a == b {
		return False
	}
	return mk(Term{Op: "lt", Args: []*Term{a, b}})
}

// ResetTrace forgets events, obligations and conditions recorded so far.
func (st *State) ResetTrace() {
	st.Events, st.Obligs, st.Conds = nil, nil, nil
	st.writes, st.havW = nil, nil
}

// Clone copies the state.
func (st *State) Clone() *State { return st.clone() }

// AddGE assumes a >= b.
func (st *State) AddGE(a, b *Term) bool {
	st.addGE(toLin(st.Norm(a)).add(toLin(st.Norm(b)), -1))
	return st.feasible()
}

// Feasible reports whether the facts are not visibly contradictory.
func (st *State) Feasible() bool {
	if len(st.facts) == 0 {
		return true
	}
	var cs []cons
	cs = append(cs, st.facts...)
	return !infeasible(st.relevant(cs))
}

// SetMem stores a value without recording a write.
func (st *State) SetMem(a, v *Term, t types.Type) { st.store(a, v, t) }

// EqTo returns the constant t is known to equal, or t.
func (st *State) EqTo(t *Term) *Term { return st.subst(t) }

// WritePieces stores bytes at off in region.
func (st *State) WritePieces(region, off *Term, pieces []*Term) {
	st.writePieces(region, off, pieces, byteT)
}

// ByteOf is byte k of x.
func (st *State) ByteOf(x *Term, k int) *Term { return st.byteOf(st.Norm(x), k) }

// NewAlloc is a fresh object of type t.
func NewAlloc(name string, t types.Type) *Term {
	return mk(Term{Op: "alloc", N: name, K: freshID(), T: types.NewPointer(t)})
}

// BE joins bytes, most significant first.
func (st *State) BE(bs ...*Term) *Term {
	l := linForm{map[*Term]int64{}, 0, true}
	for i, b := range bs {
		l = l.add(toLin(b), int64(1)<<uint(8*(len(bs)-1-i)))
	}
	return st.joinBytes(l).term()
}

// Writes lists the locations written since the last reset.
// WritesSince lists the locations written since a loop was entered.
func (st *State) WritesSince(li LoopInfo) []*Term {
	if len(st.writes) < li.writes || len(st.havW) < li.havW {
		return st.Writes()
	}
	return append(append([]*Term{}, st.writes[li.writes:]...), st.havW[li.havW:]...)
}

func (st *State) Writes() []*Term { return append(append([]*Term{}, st.writes...), st.havW...) }

// Changes lists the writes that do not just repeat the value that is there.
func (st *State) Changes() []*Term {
	kept := map[*Term]int{}
	for _, a := range st.kept {
		kept[a]++
	}
	var r []*Term
	for _, a := range st.Writes() {
		if kept[a] > 0 {
			kept[a]--
			continue
		}
		r = append(r, a)
	}
	return r
}

// Derives reports whether a is obtained from p by field, index, load and
// slicing steps.
func Derives(a, p *Term) bool { return derives(a, p) }

// Covers reports whether location p contains address a.
func Covers(p, a *Term) bool { return covers(p, a) }

// Reach lists the objects reachable from v through memory as known on this
// path.
func (st *State) Reach(vs ...*Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var visit func(v *Term)
	visit = func(v *Term) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.Op {
		case "fa", "ia":
			visit(Root(v))
		}
		for _, a := range v.Args {
			switch v.Op {
			case "eq", "lt", "lin", "len", "cap", "strlen":
			default:
				visit(a)
			}
		}
		for k, w := range st.mem {
			if (k.Op == "fa" || k.Op == "ia") && Root(k) == v || k == v || k.Op == "mapcell" && k.Args[0] == v {
				visit(w)
			}
		}
	}
	for _, v := range vs {
		visit(v)
	}
	return seen
}

// FreshID returns a new number, larger than those of all earlier objects.
func FreshID() int64 { return freshID() }

// Stored lists what memory is known to hold.
func (st *State) Stored() map[*Term]*Term { return st.mem }

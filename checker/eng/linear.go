package eng

import (
	"encoding/binary"
	"go/types"
	"slices"
)

// A constraint is Σ coef*atom + k >= 0.
type cons struct {
	m map[*Term]int64
	k int64
}

// atomFacts returns constraints that hold of the atom by construction.
func atomFacts(a *Term) []cons {
	var r []cons
	ge := func(l linForm) {
		if l.ok {
			r = append(r, cons{l.atoms, l.k})
		}
	}
	self := linForm{map[*Term]int64{a: 1}, 0, true}
	switch a.Op {
	case "len", "cap", "strlen":
		ge(self)
		if a.Op == "cap" {
			// cap(s) >= len(s)
			ge(self.add(toLin(OpT("len", a.T, a.Args[0])), -1))
		}
		return r
	case "fdiv":
		if n, ok := a.Args[1].Int64(); ok {
			x := toLin(a.Args[0])
			ge(x.add(self, -n)) // x - n*d >= 0
			h := linForm{map[*Term]int64{a: n}, n - 1, true}
			ge(h.add(x, -1)) // n*d + n-1 - x >= 0
		}
		return r
	case "rem":
		if n, ok := a.Args[1].Int64(); ok && n > 0 {
			ge(linForm{map[*Term]int64{a: -1}, n - 1, true}) // a <= n-1
			ge(self.add(linForm{nil, n - 1, true}, 1))       // a >= -(n-1)
		}
	case "byteof", "byte":
		ge(self)
		ge(linForm{map[*Term]int64{a: -1}, 255, true})
		return r
	}
	lo, hi, hl, hh, ok := intRange(a.T)
	if ok {
		if hl {
			ge(linForm{map[*Term]int64{a: 1}, -lo, true})
		}
		if hh {
			ge(linForm{map[*Term]int64{a: -1}, hi, true})
		}
	}
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func tighten(c cons) cons {
	g := int64(0)
	for _, v := range c.m {
		g = gcd(g, v)
	}
	if g > 1 {
		m := map[*Term]int64{}
		for a, v := range c.m {
			m[a] = v / g
		}
		return cons{m, floorDiv(c.k, g)}
	}
	return c
}

// infeasible decides (incompletely) that no integers satisfy all constraints,
// by Fourier-Motzkin elimination with integer tightening.
func infeasible(cs []cons) bool {
	for i := range cs {
		cs[i] = tighten(cs[i])
	}
	for round := 0; round < 40; round++ {
		// constant contradictions
		var rest []cons
		for _, c := range cs {
			if len(c.m) == 0 {
				if c.k < 0 {
					return true
				}
				continue
			}
			rest = append(rest, c)
		}
		cs = rest
		if len(cs) == 0 {
			return false
		}
		if round == 0 && opposed(cs) {
			return true
		}
		// choose the atom with the fewest combinations
		pos := map[*Term]int{}
		neg := map[*Term]int{}
		for _, c := range cs {
			for a, v := range c.m {
				if v > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *Term
		bestN := 1 << 30
		seen := map[*Term]bool{}
		for _, c := range cs {
			for a := range c.m {
				if seen[a] {
					continue
				}
				seen[a] = true
				n := pos[a]*neg[a] - pos[a] - neg[a]
				if n < bestN || (n == bestN && a.ID < best.ID) {
					best, bestN = a, n
				}
			}
		}
		var ps, ns, out []cons
		for _, c := range cs {
			v := c.m[best]
			switch {
			case v > 0:
				ps = append(ps, c)
			case v < 0:
				ns = append(ns, c)
			default:
				out = append(out, c)
			}
		}
		if len(ps)*len(ns) > 4000 {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				a, b := p.m[best], -n.m[best]
				g := gcd(a, b)
				a, b = a/g, b/g
				m := map[*Term]int64{}
				ovf := false
				mul := func(x, y int64) int64 {
					if x != 0 && (y > big/abs(x) || y < -big/abs(x)) {
						ovf = true
						return 0
					}
					return x * y
				}
				for t, v := range p.m {
					m[t] += mul(v, b)
				}
				for t, v := range n.m {
					m[t] += mul(v, a)
				}
				for t, v := range m {
					if v == 0 {
						delete(m, t)
					}
				}
				k := mul(p.k, b) + mul(n.k, a)
				if ovf {
					continue
				}
				delete(m, best)
				out = append(out, tighten(cons{m, k}))
			}
		}
		if len(out) > 6000 {
			return false
		}
		cs = dedup(out)
	}
	return false
}

// opposed finds two constraints that contradict each other directly.
func opposed(cs []cons) bool {
	low := map[string]int64{} // sum >= -k
	for _, c := range cs {
		t := consKey(c.m, 1)
		if k, ok := low[t]; !ok || c.k < k {
			low[t] = c.k
		}
	}
	for _, c := range cs {
		if k, ok := low[consKey(c.m, -1)]; ok && c.k+k < 0 {
			return true
		}
	}
	return false
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func dedup(cs []cons) []cons {
	best := make(map[string]int, len(cs))
	out := cs[:0:0]
	for _, c := range cs {
		key := consKey(c.m, 1)
		if i, ok := best[key]; ok {
			if c.k < out[i].k {
				out[i] = c
			}
			continue
		}
		best[key] = len(out)
		out = append(out, c)
	}
	return out
}

// consKey identifies a sum of atoms, times sign.
func consKey(m map[*Term]int64, sign int64) string {
	var buf [12]*Term
	as := buf[:0]
	for a := range m {
		as = append(as, a)
	}
	slices.SortFunc(as, func(a, b *Term) int { return a.ID - b.ID })
	var kb [200]byte
	k := kb[:0]
	for _, a := range as {
		k = binary.AppendVarint(k, int64(a.ID))
		k = binary.AppendVarint(k, sign*m[a])
	}
	return string(k)
}

// provesGE reports whether facts imply l >= 0.
func (st *State) provesGE(l linForm) bool {
	if !l.ok {
		return false
	}
	if len(l.atoms) == 0 {
		return l.k >= 0
	}
	neg := linForm{map[*Term]int64{}, 0, true}.add(l, -1)
	neg.k-- // -l-1 >= 0
	cs := []cons{{neg.atoms, neg.k}}
	return infeasible(st.relevant(cs))
}

// relevant extends the constraints with all facts about connected atoms.
func (st *State) relevant(cs []cons) []cons {
	cs, _ = st.connected(cs)
	return cs
}

// connected also returns the atoms reached.
func (st *State) connected(cs []cons) ([]cons, map[*Term]bool) {
	seen := map[*Term]bool{}
	var work []*Term
	addAtoms := func(m map[*Term]int64) {
		for a := range m {
			if !seen[a] {
				seen[a] = true
				work = append(work, a)
			}
		}
	}
	for _, c := range cs {
		addAtoms(c.m)
	}
	used := make([]bool, len(st.facts))
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for _, f := range atomFacts(a) {
			cs = append(cs, f)
			addAtoms(f.m)
		}
		for i, f := range st.facts {
			if used[i] {
				continue
			}
			if mentions(f.m, a) {
				used[i] = true
				cs = append(cs, f)
				addAtoms(f.m)
			}
		}
	}
	return cs, seen
}

// mentions: the constraint is about atom a, directly or through a quotient.
func mentions(m map[*Term]int64, a *Term) bool {
	if _, ok := m[a]; ok {
		return true
	}
	for t := range m {
		if t.Op == "fdiv" {
			if _, ok := toLin(t.Args[0]).atoms[a]; ok {
				return true
			}
		}
	}
	return false
}

// ProvesGE reports whether a >= b on this path.
func (st *State) ProvesGE(a, b *Term) bool {
	return st.provesGE(toLin(st.Norm(a)).add(toLin(st.Norm(b)), -1))
}

// ProvesEq reports whether a == b on this path.
func (st *State) ProvesEq(a, b *Term) bool {
	if a == b {
		return true
	}
	a, b = st.Norm(a), st.Norm(b)
	if a == b {
		return true
	}
	if v, ok := st.eqmap[a]; ok && v == b {
		return true
	}
	if v, ok := st.eqmap[b]; ok && v == a {
		return true
	}
	d := toLin(a).add(toLin(b), -1)
	if !isIntLike(a) || !isIntLike(b) {
		return false
	}
	return st.provesGE(d) && st.provesGE(linForm{map[*Term]int64{}, 0, true}.add(d, -1))
}

func isIntLike(t *Term) bool {
	switch t.Op {
	case "nil", "nonnil", "alloc", "fa", "ia", "iface", "closure", "struct", "array", "global":
		return false
	case "const":
		_, ok := t.Int64()
		return ok
	}
	if t.T != nil {
		if b, ok := t.T.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsInteger != 0
		}
		return false
	}
	return true
}

func (st *State) addGE(l linForm) {
	if !l.ok {
		return
	}
	st.facts = append(st.facts[:len(st.facts):len(st.facts)], cons{l.atoms, l.k})
}

// feasible reports whether the linear facts are not contradictory.
func (st *State) feasible() bool {
	if len(st.facts) == 0 {
		return true
	}
	// contradiction around the most recent fact
	last := st.facts[len(st.facts)-1]
	return !infeasible(st.relevant([]cons{last}))
}

// Norm re-simplifies a term with the facts of the current path.
func (st *State) Norm(t *Term) *Term {
	switch t.Op {
	case "conv":
		x := st.Norm(t.Args[0])
		return st.convert(x, t.N, t.Obj.(types.Type))
	case "fdiv":
		n, _ := t.Args[1].Int64()
		x := st.Norm(t.Args[0])
		return st.fdiv(x, n)
	case "byteof":
		return st.byteOf(st.Norm(t.Args[0]), int(t.K))
	case "lin":
		r := linForm{map[*Term]int64{}, t.K, true}
		for i, a := range t.Args {
			r = r.add(toLin(st.Norm(a)), t.Coefs[i])
		}
		if !r.ok {
			return t
		}
		return st.joinBytes(r).term()
	}
	if v, ok := st.eqmap[t]; ok {
		if _, isInt := v.Int64(); isInt {
			return v
		}
	}
	return t
}

// fdiv is floor division by a positive constant.
func (st *State) fdiv(x *Term, n int64) *Term {
	if n == 1 {
		return x
	}
	if v, ok := x.Int64(); ok {
		return Int(floorDiv(v, n))
	}
	l := toLin(x)
	a := linForm{map[*Term]int64{}, 0, true}
	b := linForm{map[*Term]int64{}, 0, true}
	for t, c := range l.atoms {
		if c%n == 0 {
			a.atoms[t] = c / n
		} else {
			b.atoms[t] = c
		}
	}
	a.k = floorDiv(l.k, n)
	b.k = l.k - n*a.k
	if len(b.atoms) == 0 {
		return a.term()
	}
	// b in [k*n, (k+1)*n-1] for some small k
	for _, k := range []int64{0, -1, 1} {
		lo := b
		lo.k -= k * n
		hi := linForm{map[*Term]int64{}, 0, true}.add(b, -1)
		hi.k += (k+1)*n - 1
		if st.provesGE(lo) && st.provesGE(hi) {
			a.k += k
			return a.term()
		}
	}
	// floor(floor(x/m)/n) = floor(x/(m*n))
	if x.Op == "fdiv" {
		m, _ := x.Args[1].Int64()
		if m < big/n {
			return st.fdiv(x.Args[0], m*n)
		}
	}
	if len(a.atoms) > 0 {
		a.atoms[mk(Term{Op: "fdiv", Args: []*Term{b.term(), Int(n)}, T: intT})] = 1
		return a.term()
	}
	return mk(Term{Op: "fdiv", Args: []*Term{x, Int(n)}, T: intT})
}

// fmod is x modulo a positive constant, in [0, n).
func (st *State) fmod(x *Term, n int64) *Term {
	// conversions to at least log2(n) bits do not change the low bits
	for x.Op == "conv" && n&(n-1) == 0 {
		bs := bitSize(x.Obj.(types.Type))
		if bs < 63 && n > int64(1)<<uint(bs) {
			break
		}
		x = x.Args[0]
	}
	return Sub(x, MulC(st.fdiv(x, n), n))
}

// FMod is x modulo n.
func (st *State) FMod(x *Term, n int64) *Term { return st.fmod(x, n) }

// byteOf is byte k (0 = least significant) of x.
func (st *State) byteOf(x *Term, k int) *Term {
	for {
		if x.Op == "conv" && bitSize(x.Obj.(types.Type)) >= 8*(k+1) {
			x = x.Args[0]
			continue
		}
		if x.Op == "fdiv" {
			n, _ := x.Args[1].Int64()
			if d := log256(n); d > 0 {
				k += d
				x = x.Args[0]
				continue
			}
		}
		break
	}
	if v, ok := x.Int64(); ok {
		return Int((v >> uint(8*k)) & 255)
	}
	// a sum of shifted bytes
	l := toLin(x)
	if l.ok && k < 7 {
		lim := int64(1) << uint(8*k)
		r := linForm{map[*Term]int64{}, 0, true}
		low := linForm{map[*Term]int64{}, 0, true}
		for t, c := range l.atoms {
			if c%lim == 0 {
				if (c/lim)%256 == 0 {
					continue
				}
				r.atoms[t] = c / lim
			} else {
				low.atoms[t] = c
			}
		}
		kk := floorDiv(l.k, lim)
		low.k = l.k - kk*lim
		r.k = ((kk % 256) + 256) % 256
		okLow := len(low.atoms) == 0
		if !okLow && (len(r.atoms) > 0 || len(low.atoms) < len(l.atoms)) {
			hi := linForm{map[*Term]int64{}, 0, true}.add(low, -1)
			hi.k += lim - 1
			okLow = st.provesGE(low) && st.provesGE(hi)
		}
		if okLow {
			hi := linForm{map[*Term]int64{}, 0, true}.add(r, -1)
			hi.k += 255
			if st.provesGE(r) && st.provesGE(hi) {
				return r.term()
			}
			if k > 0 {
				return mk(Term{Op: "byteof", Args: []*Term{r.term()}, K: 0, T: byteT})
			}
		}
		if k > 0 {
			hi := linForm{map[*Term]int64{}, 0, true}.add(l, -1)
			hi.k += lim - 1
			if st.provesGE(l) && st.provesGE(hi) {
				return Int(0)
			}
		}
	}
	return mk(Term{Op: "byteof", Args: []*Term{x}, K: int64(k), T: byteT})
}

func log256(n int64) int {
	k := 0
	for n > 1 && n%256 == 0 {
		n /= 256
		k++
	}
	if n != 1 {
		return 0
	}
	return k
}

// joinBytes recognises a value that has been taken apart into bytes.
func (st *State) joinBytes(l linForm) linForm {
	for a, c := range l.atoms {
		if a.Op != "byteof" || a.K != 0 {
			continue
		}
		x := a.Args[0]
		n := 1
		for n < 8 {
			b := mk(Term{Op: "byteof", Args: []*Term{x}, K: int64(n), T: byteT})
			if n >= 7 && c != 1 || n < 8 && l.atoms[b] != c<<uint(8*n) {
				break
			}
			n++
		}
		var ty types.Type
		switch n {
		case 2:
			ty = types.Typ[types.Uint16]
		case 4:
			ty = types.Typ[types.Uint32]
		case 8:
			ty = types.Typ[types.Uint64]
		default:
			continue
		}
		r := linForm{map[*Term]int64{}, l.k, l.ok}
		for b, v := range l.atoms {
			if b.Op == "byteof" && b.Args[0] == x && b.K < int64(n) {
				continue
			}
			r.atoms[b] = v
		}
		from := ""
		if n == 8 {
			from = "int64"
		}
		return st.joinBytes(r.add(toLin(st.convert(x, from, ty)), c))
	}
	return l
}

var byteT types.Type = types.Typ[types.Uint8]

// Convert converts an integer term from one type to another.
func (st *State) Convert(x *Term, from, to types.Type) *Term {
	n := ""
	if b, ok := from.Underlying().(*types.Basic); ok {
		n = b.Name()
	}
	return st.convert(x, n, to.Underlying())
}

func (st *State) convert(x *Term, from string, to types.Type) *Term {
	if n, ok := x.Int64(); ok {
		if n >= 0 || !(isUnsigned(to) && bitSize(to) == 64) {
			return Int(wrapConst(n, to))
		}
	}
	if bitSize(to) == 8 && isUnsigned(to) {
		b := st.byteOf(x, 0)
		return b
	}
	lo, hi, hl, hh, ok := intRange(to)
	l := toLin(x)
	if !ok {
		// int, int64
		switch from {
		case "uint64", "uint", "uintptr":
			if !st.provesGE(linForm{map[*Term]int64{}, big, true}.add(l, -1)) {
				if x.Op == "conv" && bitSize(x.Obj.(types.Type)) == 64 && !isUnsigned(x.T) {
					return x
				}
				if x.Op == "conv" && bitSize(x.Obj.(types.Type)) == 64 && (x.N == "int64" || x.N == "int") {
					return x.Args[0]
				}
				return mk(Term{Op: "conv", N: from, Obj: to, Args: []*Term{x}, T: to})
			}
		}
		return x
	}
	if x.Op == "conv" && bitSize(x.Obj.(types.Type)) >= bitSize(to) {
		// truncation of a truncation or of a sign change keeps the low bits
		return st.convert(x.Args[0], x.N, to)
	}
	loOK := !hl || st.provesGE(l.add(linForm{nil, -lo, true}, 1))
	hiOK := !hh || st.provesGE(linForm{map[*Term]int64{}, hi, true}.add(l, -1))
	if loOK && hiOK {
		return x
	}
	return mk(Term{Op: "conv", N: from, Obj: to, Args: []*Term{x}, T: to})
}

// wrap brings the mathematical result of an operation on type t into range.
func (st *State) wrap(x *Term, t types.Type) *Term {
	n := ""
	if b, ok := t.Underlying().(*types.Basic); ok {
		n = b.Name()
		switch n {
		case "uint64", "uint", "uintptr":
			n = "int64"
		}
	}
	return st.convert(x, n, t.Underlying())
}

func wrapConst(n int64, ty types.Type) int64 {
	switch bitSize(ty) {
	case 8:
		if isUnsigned(ty) {
			return int64(uint8(n))
		}
		return int64(int8(n))
	case 16:
		if isUnsigned(ty) {
			return int64(uint16(n))
		}
		return int64(int16(n))
	case 32:
		if isUnsigned(ty) {
			return int64(uint32(n))
		}
		return int64(int32(n))
	}
	return n
}

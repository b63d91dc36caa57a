package eng

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contents of byte regions are lists of pieces: a byte value, blob(region,
// off, n)@stamp (bytes of an input), zeros(n), strbytes(s).

func segKey(region *Term) *Term { return Field(region, 9999, "$segs", nil) }

func isScalar(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func isStringTerm(p *Term) bool {
	if p.Op == "const" {
		return p.C.Kind() == constant.String
	}
	if p.Op == "cat" || p.Op == "strof" || p.Op == "substr" || p.Op == "cap" || p.Op == "upper" || p.Op == "fmtarg" {
		return true
	}
	if p.T != nil {
		if b, ok := p.T.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	return false
}

func (st *State) addSeg(region, off, n, piece *Term) {
	st.writes = append(st.writes, region)
	// cells that may be overwritten
	end := Add(off, n)
	for k := range st.mem {
		if k.Op == "ia" && k.Args[0] == region {
			i := k.Args[1]
			if st.ProvesGE(Sub(off, Int(1)), i) || st.ProvesGE(i, end) {
				continue
			}
			delete(st.mem, k)
		}
	}
	var old []*Term
	if s := st.mem[segKey(region)]; s != nil {
		old = s.Args
	}
	seg := Op("seg", off, n, piece)
	st.mem[segKey(region)] = Op("segs", append(old[:len(old):len(old)], seg)...)
}

// byteAt is the i-th byte of a piece.
func byteAt(piece, i *Term) *Term {
	switch piece.Op {
	case "blob":
		return mk(Term{Op: "sel", Args: []*Term{Index(piece.Args[0], Add(piece.Args[1], i))}, K: piece.K, T: byteT})
	case "zeros":
		return Int(0)
	case "strbytes":
		return StrIndex(piece.Args[0], i)
	}
	return piece
}

// subPiece is bytes [from, from+n) of a piece.
func subPiece(p, from, n *Term) *Term {
	switch p.Op {
	case "blob":
		return mk(Term{Op: "blob", Args: []*Term{p.Args[0], Add(p.Args[1], from), n}, K: p.K})
	case "zeros":
		return Op("zeros", n)
	case "strbytes":
		return Op("strbytes", Substr(p.Args[0], from, Add(from, n)))
	}
	return p
}

func (st *State) loadSeg(a *Term, t types.Type) (*Term, bool) {
	region, idx := a.Args[0], a.Args[1]
	s := st.mem[segKey(region)]
	if s == nil {
		return nil, false
	}
	// a cell with a provably equal index
	for i := len(s.Args) - 1; i >= 0; i-- {
		sg := s.Args[i]
		off, n, p := sg.Args[0], sg.Args[1], sg.Args[2]
		if st.ProvesGE(idx, off) && st.ProvesGE(Sub(Add(off, n), Int(1)), idx) {
			return byteAt(p, st.Norm(Sub(idx, off))), true
		}
		if st.ProvesGE(Sub(off, Int(1)), idx) || st.ProvesGE(idx, Add(off, n)) {
			continue
		}
		return Sym("elem", t), true
	}
	return nil, false
}

// writePieces stores pieces at off in region.
func (st *State) writePieces(region, off *Term, pieces []*Term, et types.Type) {
	for _, p := range pieces {
		n := pieceLen1(p)
		_, offC := off.Int64()
		if n == Int(1) && offC && p.Op != "blob" && p.Op != "strbytes" && p.Op != "zeros" {
			if p.Op == "elemval" {
				st.Store(Index(region, off), p.Args[0], et)
			} else {
				st.Store(Index(region, off), p, et)
			}
		} else if nn, ok := n.Int64(); ok && offC && nn <= 64 {
			for i := int64(0); i < nn; i++ {
				st.Store(Index(region, Add(off, Int(i))), byteAt(p, Int(i)), et)
			}
		} else {
			st.addSeg(region, off, n, p)
		}
		off = st.Norm(Add(off, n))
	}
}

func pieceLen1(p *Term) *Term {
	switch p.Op {
	case "blob":
		return p.Args[2]
	case "zeros":
		return p.Args[0]
	case "strbytes":
		return StrLen(p.Args[0])
	}
	return Int(1)
}

// Content lists the pieces of n bytes at off in region.
func (st *State) Content(region, off, n *Term) ([]*Term, bool) {
	if region.IsNil() || n == Int(0) {
		return nil, true
	}
	end := st.Norm(Add(off, n))
	pos := st.Norm(off)
	var out []*Term
	var cells []*Term
	for k := range st.mem {
		if k.Op == "ia" && k.Args[0] == region {
			cells = append(cells, k.Args[1])
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].ID < cells[j].ID })
	var segs []*Term
	if s := st.mem[segKey(region)]; s != nil {
		segs = s.Args
	}
	isAlloc := known(Root(region)) && st.stampOf(region) == 0
	for iter := 0; iter < 600; iter++ {
		if st.ProvesEq(pos, end) {
			return mergePieces(out), true
		}
		if !st.ProvesGE(end, Add(pos, Int(1))) {
			// possibly empty remainder: only fine for one symbolic piece
			if !st.ProvesGE(end, pos) {
				return nil, false
			}
		}
		if v, ok := st.mem[Index(region, pos)]; ok {
			out = append(out, v)
			pos = st.Norm(Add(pos, Int(1)))
			continue
		}
		found := false
		for i := len(segs) - 1; i >= 0 && !found; i-- {
			sg := segs[i]
			so, sn, sp := sg.Args[0], sg.Args[1], sg.Args[2]
			se := st.Norm(Add(so, sn))
			if st.ProvesGE(so, end) || st.ProvesGE(pos, se) {
				continue // outside
			}
			if st.ProvesGE(pos, so) && (st.ProvesGE(se, Add(pos, Int(1))) || st.ProvesEq(pos, so)) {
				stop := se
				if !st.ProvesGE(end, se) {
					if !st.ProvesGE(se, end) {
						return nil, false
					}
					stop = end
				}
				// later segments and cells inside
				for _, c := range cells {
					if st.ProvesGE(c, stop) || st.ProvesGE(Sub(pos, Int(1)), c) {
						continue
					}
					if st.ProvesGE(c, pos) && st.ProvesGE(Sub(stop, Int(1)), c) {
						stop = c
						continue
					}
					return nil, false
				}
				for j := i + 1; j < len(segs); j++ {
					o2 := segs[j].Args[0]
					e2 := Add(o2, segs[j].Args[1])
					if st.ProvesGE(o2, stop) || st.ProvesGE(pos, e2) {
						continue
					}
					if st.ProvesGE(o2, Add(pos, Int(1))) {
						stop = o2
						continue
					}
					return nil, false
				}
				ln := st.Norm(Sub(stop, pos))
				if pieceLen1(sp) == Int(1) && sp.Op != "blob" && sp.Op != "strbytes" {
					out = append(out, sp)
				} else {
					out = append(out, subPiece(sp, st.Norm(Sub(pos, so)), ln))
				}
				pos = st.Norm(stop)
				found = true
				break
			}
			if st.ProvesGE(so, pos) {
				continue // starts later, or the pieces before it are empty
			}
			return nil, false
		}
		if found {
			continue
		}
		// a gap: up to the next cell or segment
		stop := end
		starts := append([]*Term{}, cells...)
		for _, s := range segs {
			starts = append(starts, s.Args[0])
		}
		for _, c := range starts {
			if st.ProvesGE(c, stop) || st.ProvesGE(pos, c) {
				continue
			}
			if st.ProvesGE(c, pos) && st.ProvesGE(stop, c) {
				stop = c
				continue
			}
			return nil, false
		}
		ln := st.Norm(Sub(stop, pos))
		if isAlloc {
			if nn, ok := ln.Int64(); ok && nn <= 64 {
				for i := int64(0); i < nn; i++ {
					out = append(out, Int(0))
				}
			} else {
				out = append(out, Op("zeros", ln))
			}
		} else if nn, ok := ln.Int64(); ok && nn <= 8 {
			for i := int64(0); i < nn; i++ {
				out = append(out, mk(Term{Op: "sel", Args: []*Term{Index(region, st.Norm(Add(pos, Int(i))))}, K: st.stampOf(region), T: byteT}))
			}
		} else {
			out = append(out, mk(Term{Op: "blob", Args: []*Term{region, pos, ln}, K: st.stampOf(region)}))
		}
		pos = st.Norm(stop)
	}
	return nil, false
}

// SliceContent lists the pieces of a byte slice value.
func (st *State) SliceContent(s *Term) ([]*Term, bool) {
	r, o, n, _ := SliceParts(s)
	return st.Content(r, o, st.Norm(n))
}

func mergePieces(ps []*Term) []*Term {
	var out []*Term
	for _, p := range ps {
		if pieceLen1(p) == Int(0) {
			continue
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.Op == "blob" && p.Op == "blob" && l.Args[0] == p.Args[0] && l.K == p.K && Add(l.Args[1], l.Args[2]) == p.Args[1] {
				out[len(out)-1] = mk(Term{Op: "blob", Args: []*Term{l.Args[0], l.Args[1], Add(l.Args[2], p.Args[2])}, K: p.K})
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

// elements lists the elements of a non-byte slice of known length.
func (st *State) elements(s *Term, et types.Type) ([]*Term, bool) {
	r, o, n, _ := SliceParts(s)
	k, ok := n.Int64()
	if !ok || k > 4096 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < k; i++ {
		out = append(out, st.Load(Index(r, st.Norm(Add(o, Int(i)))), et))
	}
	return out, true
}

// Elements lists the elements of a slice of known length.
func (st *State) Elements(s *Term, et types.Type) ([]*Term, bool) { return st.elements(s, et) }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// NewSlice allocates a region holding the given pieces or elements.
func (st *State) NewSlice(name string, et types.Type, pieces []*Term, ln *Term) *Term {
	a := mk(Term{Op: "alloc", N: name, K: freshID(), T: types.NewPointer(types.NewArray(et, -1))})
	st.writePieces(a, Int(0), pieces, et)
	cp := Sym("cap", intT)
	st.addGE(toLin(cp).add(toLin(ln), -1))
	return MkSlice(a, Int(0), ln, cp)
}

func (it *Interp) appendCall(st *State, in *ssa.Call, args []*Term, isStr func(int) bool) ([]*State, bool) {
	f := st.top()
	et := in.Type().Underlying().(*types.Slice).Elem()
	base, add := args[0], args[1]
	var addLen *Term
	if isStr(1) {
		addLen = StrLen(add)
	} else {
		addLen = Len(add)
	}
	addLen = st.Norm(addLen)
	total := st.Norm(Add(Len(base), addLen))
	st.event(Event{Kind: "append", Args: []*Term{base, add, total}, Pos: in.Pos(), In: f.fn, Data: et})
	if addLen == Int(0) {
		it.set(st, in, base)
		f.idx++
		return nil, false
	}
	var res *Term
	if isByte(et) {
		bp, ok1 := st.SliceContent(base)
		var ap []*Term
		ok2 := true
		if isStr(1) {
			ap = []*Term{Op("strbytes", add)}
		} else {
			ap, ok2 = st.SliceContent(add)
		}
		if !ok1 || !ok2 {
			res = MkSlice(mk(Term{Op: "rgn", Args: []*Term{Sym("appended", in.Type())}}), Int(0), total, Sym("cap", intT))
		} else {
			res = st.NewSlice("append", et, append(append([]*Term{}, bp...), ap...), total)
		}
	} else {
		be, ok1 := st.elements(base, et)
		ae, ok2 := st.elements(add, et)
		if ok1 && ok2 {
			var ps []*Term
			for _, e := range append(append([]*Term{}, be...), ae...) {
				ps = append(ps, Op("elemval", e))
			}
			res = st.NewSlice("append", et, ps, total)
		} else {
			s := Sym("appended", in.Type())
			res = MkSlice(mk(Term{Op: "rgn", Args: []*Term{s}}), Int(0), total, Sym("cap", intT))
			if ok2 {
				// the appended elements keep their values
				for i, e := range ae {
					st.store(Index(Region(s), st.Norm(Add(Len(base), Int(int64(i))))), e, et)
				}
			}
		}
	}
	if res.Op == "slice" {
		st.Assume(Lt(res.Args[3], total), false)
	}
	st.Events[len(st.Events)-1].Res = res
	it.set(st, in, res)
	f.idx++
	return nil, false
}

func (it *Interp) copyCall(st *State, in *ssa.Call, dst, src *Term, str bool) ([]*State, bool) {
	var sl *Term
	if str {
		sl = StrLen(src)
	} else {
		sl = Len(src)
	}
	dl := Len(dst)
	var outs []*State
	short := Lt(sl, dl)
	for _, b := range []bool{false, true} {
		n := st.clone()
		if _, k := n.Decide(short); !k {
			n.Conds = append(n.Conds, CondFact{short, b, in.Pos()})
		}
		if !n.Assume(short, b) {
			continue
		}
		cnt := dl
		if b {
			cnt = sl
		}
		cnt = n.Norm(cnt)
		et := in.Call.Args[0].Type().Underlying().(*types.Slice).Elem()
		r, o, _, _ := SliceParts(dst)
		n.event(Event{Kind: "copy", Args: []*Term{dst, src, cnt}, Pos: in.Pos(), In: n.top().fn})
		if !r.IsNil() && cnt != Int(0) {
			if isByte(et) {
				var ps []*Term
				ok := true
				if str {
					ps = []*Term{subPiece(Op("strbytes", src), Int(0), cnt)}
				} else {
					sr, so, _, _ := SliceParts(src)
					ps, ok = n.Content(sr, so, cnt)
				}
				if ok {
					n.event(Event{Kind: "store", Args: []*Term{Index(r, o), cnt}, Pos: in.Pos(), In: n.top().fn})
					n.writePieces(r, n.Norm(o), ps, et)
				} else {
					n.Havoc(r)
				}
			} else if es, ok := n.elements(src, et); ok && cnt == sl {
				for i, e := range es {
					n.Store(Index(r, n.Norm(Add(o, Int(int64(i))))), e, et)
				}
			} else {
				n.Havoc(r)
			}
		}
		it.set(n, in, cnt)
		n.top().idx++
		outs = append(outs, n)
	}
	return outs, true
}

// BytesOfString is []byte(s).
func (st *State) BytesOfString(s *Term) *Term {
	n := st.Norm(StrLen(s))
	if n == Int(0) {
		return MkSlice(mk(Term{Op: "alloc", N: "bytes", K: freshID(), T: types.NewPointer(types.NewArray(byteT, -1))}), Int(0), Int(0), Int(0))
	}
	return st.NewSlice("bytes", byteT, stringPieces(s), n)
}

// stringPieces are the byte pieces of a string.
func stringPieces(s *Term) []*Term {
	parts := []*Term{s}
	if s.Op == "cat" {
		parts = s.Args
	}
	bytes := false
	for _, p := range parts {
		bytes = bytes || p.Op == "strof"
	}
	if !bytes {
		return []*Term{Op("strbytes", s)}
	}
	var r []*Term
	for _, p := range parts {
		v, ok := p.StrVal()
		switch {
		case p.Op == "strof":
			r = append(r, p.Args...)
		case ok && len(v) <= 64:
			for i := 0; i < len(v); i++ {
				r = append(r, Int(int64(v[i])))
			}
		default:
			r = append(r, Op("strbytes", p))
		}
	}
	return r
}

// StringOfBytes is string(b).
func (st *State) StringOfBytes(b *Term) *Term {
	ps, ok := st.SliceContent(b)
	if !ok {
		return Sym("string", types.Typ[types.String])
	}
	return StrOf(ps)
}

// StrOf is the string with the given byte pieces.
func StrOf(ps []*Term) *Term {
	ps = mergePieces(ps)
	if len(ps) == 0 {
		return Str("")
	}
	if len(ps) == 1 && ps[0].Op == "strbytes" {
		return ps[0].Args[0]
	}
	all := true
	var sb strings.Builder
	for _, p := range ps {
		if n, ok := p.Int64(); ok {
			sb.WriteByte(byte(n))
		} else {
			all = false
		}
	}
	if all {
		return Str(sb.String())
	}
	strs := true
	for _, p := range ps {
		if p.Op != "strbytes" {
			if _, ok := p.Int64(); !ok {
				strs = false
			}
		}
	}
	if strs {
		r := Str("")
		for _, p := range ps {
			if n, ok := p.Int64(); ok {
				r = Cat(r, Str(string([]byte{byte(n)})))
			} else {
				r = Cat(r, p.Args[0])
			}
		}
		return r
	}
	return OpT("strof", types.Typ[types.String], ps...)
}

// ---- strings ----

// Cat concatenates strings.
func Cat(xs ...*Term) *Term {
	var ps []*Term
	var add func(x *Term)
	add = func(x *Term) {
		if x.Op == "cat" {
			for _, a := range x.Args {
				add(a)
			}
			return
		}
		if s, ok := x.StrVal(); ok {
			if s == "" {
				return
			}
			if len(ps) > 0 {
				if l, ok := ps[len(ps)-1].StrVal(); ok {
					ps[len(ps)-1] = Str(l + s)
					return
				}
			}
		}
		// upper(x[:1]) + x[1:] is x with its first letter in upper case
		if len(ps) > 0 {
			l := ps[len(ps)-1]
			if x.Op == "substr" && x.Args[1] == Int(1) && x.Args[2] == StrLen(x.Args[0]) {
				h := x.Args[0]
				if l.Op == "upper" && l.Args[0] == Substr(h, Int(0), Int(1)) {
					ps[len(ps)-1] = OpT("cap", types.Typ[types.String], h)
					return
				}
				if l == Substr(h, Int(0), Int(1)) {
					ps[len(ps)-1] = h
					return
				}
			}
			if x.Op == "substr" && l.Op == "substr" && l.Args[0] == x.Args[0] && l.Args[2] == x.Args[1] {
				ps[len(ps)-1] = Substr(x.Args[0], l.Args[1], x.Args[2])
				return
			}
		}
		ps = append(ps, x)
	}
	for _, x := range xs {
		add(x)
	}
	switch len(ps) {
	case 0:
		return Str("")
	case 1:
		return ps[0]
	}
	return OpT("cat", types.Typ[types.String], ps...)
}

// Substr is s[lo:hi].
func Substr(s, lo, hi *Term) *Term {
	if lo == Int(0) && hi == StrLen(s) {
		return s
	}
	l, ok1 := lo.Int64()
	h, ok2 := hi.Int64()
	if v, ok := s.StrVal(); ok && ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(v) {
		return Str(v[l:h])
	}
	if lo == hi {
		return Str("")
	}
	if s.Op == "substr" {
		return Substr(s.Args[0], Add(s.Args[1], lo), Add(s.Args[1], hi))
	}
	if s.Op == "strof" && len(s.Args) == 1 && s.Args[0].Op == "blob" {
		return StrOf([]*Term{subPiece(s.Args[0], lo, Sub(hi, lo))})
	}
	if s.Op == "cat" && ok1 {
		// drop a constant prefix
		if p, ok := s.Args[0].StrVal(); ok {
			if int(l) >= len(p) {
				n := Int(int64(len(p)))
				return Substr(Cat(s.Args[1:]...), Sub(lo, n), Sub(hi, n))
			}
			if ok2 && int(h) <= len(p) {
				return Str(p[l:h])
			}
			if hi == StrLen(s) {
				return Cat(append([]*Term{Str(p[l:])}, s.Args[1:]...)...)
			}
		}
	}
	if s.Op == "cat" && lo == Int(0) {
		// drop a constant suffix
		last := s.Args[len(s.Args)-1]
		if p, ok := last.StrVal(); ok {
			d, ok := Sub(StrLen(s), hi).Int64()
			if ok && d >= 0 && int(d) <= len(p) {
				return Cat(append(append([]*Term{}, s.Args[:len(s.Args)-1]...), Str(p[:len(p)-int(d)]))...)
			}
		}
	}
	return OpT("substr", types.Typ[types.String], s, lo, hi)
}

// StrIndex is s[i].
func StrIndex(s, i *Term) *Term {
	k, ok := i.Int64()
	if v, ok2 := s.StrVal(); ok && ok2 && k >= 0 && int(k) < len(v) {
		return Int(int64(v[k]))
	}
	if s.Op == "substr" {
		return StrIndex(s.Args[0], Add(s.Args[1], i))
	}
	if s.Op == "strof" && len(s.Args) == 1 && s.Args[0].Op == "blob" {
		return byteAt(s.Args[0], i)
	}
	if s.Op == "cat" && ok {
		if v, ok2 := s.Args[0].StrVal(); ok2 {
			if int(k) < len(v) {
				return Int(int64(v[k]))
			}
			return StrIndex(Cat(s.Args[1:]...), Int(k-int64(len(v))))
		}
	}
	return OpT("strindex", byteT, s, i)
}

// PieceLen is the number of bytes of a piece.
func PieceLen(p *Term) *Term { return pieceLen1(p) }

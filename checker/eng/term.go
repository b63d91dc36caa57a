// Package eng is a path-partitioned abstract interpreter over go/ssa.
//
// Values are hash-consed terms over the inputs of the analysed function
// (value numbering); integer terms are kept in linear normal form so that
// branch facts form a linear constraint system; memory is a map from abstract
// locations to terms with havoc stamps.  Repository functions are inlined,
// standard library functions are modelled, everything else is an opaque event.
package eng

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"sync"
)

// Term is an interned abstract value.
type Term struct {
	Op    string
	Args  []*Term
	Coefs []int64 // for "lin": one per Args
	C     constant.Value
	K     int64 // constant part of "lin", field index, alloc id, ...
	N     string
	Obj   any
	T     types.Type // type information for atoms (ranges)
	ID    int
}

var (
	internMu sync.Mutex
	intern   = map[string]*Term{}
	nextTerm = 1
	nextSym  = 1
)

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.N)
	fmt.Fprintf(&b, "|%d|", t.K)
	if t.C != nil {
		b.WriteString(t.C.Kind().String())
		b.WriteString(t.C.ExactString())
	}
	if t.Obj != nil {
		fmt.Fprintf(&b, "|%p", t.Obj)
		if s, ok := t.Obj.(types.Type); ok {
			b.WriteString(types.TypeString(s, nil))
		}
	}
	for i, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
		if t.Coefs != nil {
			fmt.Fprintf(&b, "*%d", t.Coefs[i])
		}
	}
	k := b.String()
	if s, ok := t.Obj.(types.Type); ok {
		// types are identified by their string, not their pointer
		k = strings.Replace(k, fmt.Sprintf("|%p", t.Obj), "", 1)
		_ = s
	}
	internMu.Lock()
	defer internMu.Unlock()
	if x, ok := intern[k]; ok {
		return x
	}
	n := t
	n.ID = nextTerm
	nextTerm++
	intern[k] = &n
	return &n
}

func freshID() int64 {
	internMu.Lock()
	defer internMu.Unlock()
	nextSym++
	return int64(nextSym)
}

// Sym returns a fresh opaque value.
func Sym(name string, t types.Type) *Term {
	return mk(Term{Op: "sym", N: name, K: freshID(), T: t})
}

// NamedSym returns the opaque value with this name (same name, same value).
func NamedSym(name string, t types.Type) *Term {
	return mk(Term{Op: "sym", N: name, T: t})
}

// NonNil returns a fresh value that is known not to be nil.
func NonNil(name string, t types.Type) *Term {
	return mk(Term{Op: "nonnil", N: name, K: freshID(), T: t})
}

var Nil = mk(Term{Op: "nil"})

func Int(n int64) *Term  { return mk(Term{Op: "const", C: constant.MakeInt64(n)}) }
func Str(s string) *Term { return mk(Term{Op: "const", C: constant.MakeString(s)}) }
func Const(c constant.Value) *Term {
	if c.Kind() == constant.Float {
		if v := constant.ToInt(c); v.Kind() == constant.Int {
			c = v
		}
	}
	return mk(Term{Op: "const", C: c})
}

var True = mk(Term{Op: "const", C: constant.MakeBool(true)})
var False = mk(Term{Op: "const", C: constant.MakeBool(false)})

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) IsConst() bool { return t.Op == "const" }
func (t *Term) IsNil() bool   { return t.Op == "nil" }

func (t *Term) Int64() (int64, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) StrVal() (string, bool) {
	if t.Op == "const" && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}
func (t *Term) BoolVal() (bool, bool) {
	if t.Op == "const" && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}

// Op builds an uninterpreted operator term.
func Op(op string, args ...*Term) *Term { return mk(Term{Op: op, Args: args}) }

func OpT(op string, t types.Type, args ...*Term) *Term {
	return mk(Term{Op: op, Args: args, T: t})
}
func OpN(op, n string, t types.Type, args ...*Term) *Term {
	return mk(Term{Op: op, N: n, Args: args, T: t})
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "sym":
		if t.K != 0 {
			return fmt.Sprintf("%s#%d", t.N, t.K)
		}
		return t.N
	case "nonnil":
		return fmt.Sprintf("%s#%d", t.N, t.K)
	case "const":
		return t.C.ExactString()
	case "nil":
		return "nil"
	case "alloc":
		return fmt.Sprintf("&%s#%d", t.N, t.K)
	case "global":
		return "&" + t.N
	case "fa":
		return fmt.Sprintf("%s.%s", t.Args[0].str(d+1), t.N)
	case "ia":
		return fmt.Sprintf("%s[%s]", t.Args[0].str(d+1), t.Args[1].str(d+1))
	case "sel":
		if t.K == 0 {
			return fmt.Sprintf("*(%s)", t.Args[0].str(d+1))
		}
		return fmt.Sprintf("*(%s)@%d", t.Args[0].str(d+1), t.K)
	case "lin":
		var s []string
		for i, a := range t.Args {
			if t.Coefs[i] == 1 {
				s = append(s, a.str(d+1))
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.Coefs[i], a.str(d+1)))
			}
		}
		if t.K != 0 {
			s = append(s, fmt.Sprint(t.K))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "closure":
		return fmt.Sprintf("func:%v(%s)", t.N, as())
	}
	n := t.Op
	if t.N != "" {
		n += ":" + t.N
	}
	return n + "(" + as() + ")"
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if a.Contains(x) {
			return true
		}
	}
	return false
}

// Walk visits t and its subterms.
func (t *Term) Walk(f func(*Term)) {
	f(t)
	for _, a := range t.Args {
		a.Walk(f)
	}
}

// ---- linear integer terms ----

type linForm struct {
	atoms map[*Term]int64
	k     int64
	ok    bool // false on overflow
}

func toLin(t *Term) linForm {
	if n, ok := t.Int64(); ok {
		return linForm{map[*Term]int64{}, n, true}
	}
	if t.Op == "lin" {
		m := map[*Term]int64{}
		for i, a := range t.Args {
			m[a] = t.Coefs[i]
		}
		return linForm{m, t.K, true}
	}
	return linForm{map[*Term]int64{t: 1}, 0, true}
}

const big = int64(1) << 58

func (l linForm) add(o linForm, c int64) linForm {
	r := linForm{map[*Term]int64{}, 0, l.ok && o.ok}
	for a, v := range l.atoms {
		r.atoms[a] = v
	}
	for a, v := range o.atoms {
		r.atoms[a] += c * v
		if r.atoms[a] == 0 {
			delete(r.atoms, a)
		}
	}
	r.k = l.k + c*o.k
	if r.k > big || r.k < -big {
		r.ok = false
	}
	for _, v := range r.atoms {
		if v > big || v < -big {
			r.ok = false
		}
	}
	return r
}

func (l linForm) term() *Term {
	if len(l.atoms) == 0 {
		return Int(l.k)
	}
	var as []*Term
	for a := range l.atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && l.atoms[as[0]] == 1 && l.k == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.atoms[a]
	}
	return mk(Term{Op: "lin", Args: as, Coefs: cs, K: l.k})
}

// Add, Sub and MulC work on mathematical integers.
func Add(a, b *Term) *Term {
	r := toLin(a).add(toLin(b), 1)
	if !r.ok {
		return Op("addov", a, b)
	}
	return r.term()
}
func Sub(a, b *Term) *Term {
	r := toLin(a).add(toLin(b), -1)
	if !r.ok {
		return Op("subov", a, b)
	}
	return r.term()
}
func MulC(a *Term, c int64) *Term {
	z := linForm{map[*Term]int64{}, 0, true}
	r := z.add(toLin(a), c)
	if !r.ok {
		return Op("mulov", a, Int(c))
	}
	return r.term()
}

// Not negates a boolean term.
func Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return Bool(!b)
	}
	if t.Op == "not" {
		return t.Args[0]
	}
	return Op("not", t)
}

// ---- helpers on integer types ----

// intRange returns the range of an integer type; unbounded sides are ±inf.
func intRange(t types.Type) (lo, hi int64, hasLo, hasHi bool, isInt bool) {
	if t == nil {
		return
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return
	}
	isInt = true
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true, true, true
	case types.Int16:
		return -32768, 32767, true, true, true
	case types.Int32:
		return -(1 << 31), 1<<31 - 1, true, true, true
	case types.Uint8:
		return 0, 255, true, true, true
	case types.Uint16:
		return 0, 65535, true, true, true
	case types.Uint32:
		return 0, 1<<32 - 1, true, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, true, false, true
	}
	return
}

func bitSize(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		return 64
	}
	return 0
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

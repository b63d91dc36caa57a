// Package sev evaluates the generator's source abstractly: the texts of
// identifiers and numbers of a specification stay symbolic (atoms), so that
// one evaluation covers every specification of the same shape; strings are
// templates over atoms.
package sev

import (
	"sort"
	"strings"
	"sync"
)

// Atom is a text about which only its class is known, or a part of one.
type Atom struct {
	Op   string // "": base; first, rest, upper, lower
	Arg  *Atom
	Name string // base: unique name
	Kind string // base: ident or num
	Rep  string // base: a representative
	key  string
}

var (
	atoms   = map[string]*Atom{}
	atomsMu sync.Mutex
)

// Base returns the atom of the given name.
func Base(kind, name, rep string) *Atom {
	k := kind + ":" + name + ":" + rep
	atomsMu.Lock()
	defer atomsMu.Unlock()
	if a := atoms[k]; a != nil {
		return a
	}
	a := &Atom{Name: name, Kind: kind, Rep: rep, key: k}
	atoms[k] = a
	return a
}

func derive(op string, x *Atom) *Atom {
	b := x
	for b.Op != "" {
		b = b.Arg
	}
	if b.Kind == "num" && (op == "upper" || op == "lower") && x.Op == "first" {
		return x // a digit
	}
	k := op + "(" + x.key + ")"
	atomsMu.Lock()
	defer atomsMu.Unlock()
	if a := atoms[k]; a != nil {
		return a
	}
	a := &Atom{Op: op, Arg: x, key: k}
	atoms[k] = a
	return a
}

// Text is the atom's text when the base atoms have the given texts.
func (a *Atom) Text(as map[string]string) string {
	if a.Op == "" {
		if t, ok := as[a.Name]; ok {
			return t
		}
		return a.Rep
	}
	t := a.Arg.Text(as)
	switch a.Op {
	case "first":
		return t[:1]
	case "rest":
		return t[1:]
	case "upper":
		return strings.ToUpper(t)
	case "lower":
		return strings.ToLower(t)
	}
	panic(a.Op)
}

// Piece is literal text or an atom.
type Piece struct {
	Lit string
	A   *Atom
}

// Str is a string template.
type Str struct{ P []Piece }

// Lit is a literal string.
func Lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]Piece{{Lit: s}}}
}

// AtomStr is the string of one atom.
func AtomStr(a *Atom) Str { return Str{[]Piece{{A: a}}} }

// Const returns the text if it holds no atom.
func (s Str) Const() (string, bool) {
	var b strings.Builder
	for _, p := range s.P {
		if p.A != nil {
			return "", false
		}
		b.WriteString(p.Lit)
	}
	return b.String(), true
}

// Text instantiates the template.
func (s Str) Text(as map[string]string) string {
	var b strings.Builder
	for _, p := range s.P {
		if p.A != nil {
			b.WriteString(p.A.Text(as))
		} else {
			b.WriteString(p.Lit)
		}
	}
	return b.String()
}

func (s Str) String() string {
	var b strings.Builder
	for _, p := range s.P {
		if p.A != nil {
			b.WriteString("«" + p.A.key + "»")
		} else {
			b.WriteString(p.Lit)
		}
	}
	return b.String()
}

// Cat concatenates.
func Cat(ss ...Str) Str {
	var r []Piece
	for _, s := range ss {
		for _, p := range s.P {
			if n := len(r); n > 0 {
				l := &r[n-1]
				if p.A == nil && l.A == nil {
					r[n-1] = Piece{Lit: l.Lit + p.Lit}
					continue
				}
				if p.A != nil && l.A != nil && p.A.Op == "rest" && l.A.Op == "first" && p.A.Arg == l.A.Arg {
					r[n-1] = Piece{A: p.A.Arg}
					continue
				}
			}
			r = append(r, p)
		}
	}
	return Str{r}
}

// Same reports equality of the templates.
func (s Str) Same(t Str) bool {
	if len(s.P) != len(t.P) {
		return false
	}
	for i := range s.P {
		if s.P[i] != t.P[i] {
			return false
		}
	}
	return true
}

// Atoms lists the base atoms of s.
func (s Str) Atoms() []*Atom {
	set := map[*Atom]bool{}
	for _, p := range s.P {
		if a := p.A; a != nil {
			for a.Op != "" {
				a = a.Arg
			}
			set[a] = true
		}
	}
	var r []*Atom
	for a := range set {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].key < r[j].key })
	return r
}

// slice takes s[lo:hi] (hi < 0: to the end); known is false if that cannot be
// expressed as a template.
func (s Str) slice(lo, hi int) (r Str, known bool) {
	if t, ok := s.Const(); ok {
		if hi < 0 {
			hi = len(t)
		}
		return Lit(t[lo:hi]), true
	}
	if len(s.P) == 1 && s.P[0].A.Op == "" {
		a := s.P[0].A
		switch {
		case lo == 0 && hi < 0:
			return s, true
		case lo == 0 && hi == 1:
			return AtomStr(derive("first", a)), true
		case lo == 1 && hi < 0:
			return AtomStr(derive("rest", a)), true
		case lo == 0 && hi == 0:
			return Str{}, true
		}
	}
	if lo == 0 && hi < 0 {
		return s, true
	}
	// a literal prefix
	if len(s.P) > 0 && s.P[0].A == nil {
		n := len(s.P[0].Lit)
		if hi >= 0 && hi <= n {
			return Lit(s.P[0].Lit[lo:hi]), true
		}
		if hi < 0 && lo <= n {
			return Cat(Lit(s.P[0].Lit[lo:]), Str{s.P[1:]}), true
		}
	}
	return Str{}, false
}

func (s Str) mapCase(op string) (Str, bool) {
	var r []Str
	for _, p := range s.P {
		switch {
		case p.A == nil && op == "upper":
			r = append(r, Lit(strings.ToUpper(p.Lit)))
		case p.A == nil:
			r = append(r, Lit(strings.ToLower(p.Lit)))
		default:
			r = append(r, AtomStr(derive(op, p.A)))
		}
	}
	return Cat(r...), true
}

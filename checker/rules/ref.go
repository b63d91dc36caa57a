package rules

import (
	"fmt"
	"strconv"
	"strings"
)

// A reference reader of the RFC 4506 language with RFC 1057 program
// definitions, written from the RFCs and independent of the repository.

// RType is a type of the XDR language.
type RType struct {
	Kind   string // void bool int uint hyper uhyper float double quadruple enum opaque varopaque string array vararray optional struct union name
	Name   string // for "name"
	Size   string // bound or size, "" if none
	Elem   *RType
	Fields []*RDecl
	Disc   *RDecl
	Arms   []*RArm
	Def    *RDecl // default arm, nil if none
	Items  []RItem
}

// RDecl declares a name of some type.
type RDecl struct {
	Name string
	T    *RType
}

// RArm is a union arm.
type RArm struct {
	Vals []string
	D    *RDecl
}

// RItem is an enum item.
type RItem struct{ Name, Val string }

// RProc is a procedure definition.
type RProc struct {
	Name     string
	Arg, Res *RType
	Num      string
}

// RVer is a version definition.
type RVer struct {
	Name  string
	Procs []*RProc
	Num   string
}

// RProg is a program definition.
type RProg struct {
	Name string
	Vers []*RVer
	Num  string
}

// RDef is a type definition.
type RDef struct {
	Name string
	Form string // typedef enum struct union
	T    *RType
}

// RSpec is a whole specification.
type RSpec struct {
	Consts map[string]string
	COrder []string
	Defs   map[string]*RDef
	Order  []string
	Progs  []*RProg
	Enum   map[string]string // enum item -> enum name
}

type rtok struct {
	kind string // id num punct eof
	s    string
	line int
}

func rlex(src string) ([]rtok, error) {
	var ts []rtok
	line := 1
	i := 0
	isID := func(c byte) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "/*"):
			j := strings.Index(src[i+2:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("line %d: unterminated comment", line)
			}
			line += strings.Count(src[i:i+2+j], "\n")
			i += 2 + j + 2
		case strings.HasPrefix(src[i:], "//") || c == '%':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '-' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i + 1
			for j < len(src) && isID(src[j]) {
				j++
			}
			ts = append(ts, rtok{"num", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && isID(src[j]) {
				j++
			}
			ts = append(ts, rtok{"num", src[i:j], line})
			i = j
		case isID(c):
			j := i
			for j < len(src) && isID(src[j]) {
				j++
			}
			ts = append(ts, rtok{"id", src[i:j], line})
			i = j
		case strings.IndexByte("{}[]()<>;:,=*", c) >= 0:
			ts = append(ts, rtok{"punct", string(c), line})
			i++
		default:
			return nil, fmt.Errorf("line %d: unexpected %q", line, c)
		}
	}
	return append(ts, rtok{"eof", "", line}), nil
}

type rparser struct {
	ts []rtok
	i  int
}

type rerr struct{ error }

func (p *rparser) fail(f string, a ...any) {
	panic(rerr{fmt.Errorf("line %d: %s", p.ts[p.i].line, fmt.Sprintf(f, a...))})
}
func (p *rparser) peek() rtok { return p.ts[p.i] }
func (p *rparser) is(s string) bool {
	t := p.ts[p.i]
	return t.s == s && t.kind != "num"
}
func (p *rparser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *rparser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, found %q", s, p.peek().s)
	}
}

var rkeywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("bool case const default double enum float hyper int opaque quadruple string struct switch typedef union unsigned void program version") {
		rkeywords[k] = true
	}
}

func (p *rparser) ident() string {
	t := p.peek()
	if t.kind != "id" || rkeywords[t.s] {
		p.fail("expected an identifier, found %q", t.s)
	}
	p.i++
	return t.s
}

func (p *rparser) value() string {
	t := p.peek()
	if t.kind == "num" {
		p.i++
		return t.s
	}
	return p.ident()
}

// ParseXDR reads a specification.
func ParseXDR(src string) (spec *RSpec, err error) {
	ts, err := rlex(src)
	if err != nil {
		return nil, err
	}
	p := &rparser{ts: ts}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(rerr); ok {
				spec, err = nil, e.error
				return
			}
			panic(r)
		}
	}()
	s := &RSpec{Consts: map[string]string{}, Defs: map[string]*RDef{}, Enum: map[string]string{}}
	def := func(n, form string, t *RType) {
		if s.Defs[n] != nil {
			p.fail("%s defined twice", n)
		}
		s.Defs[n] = &RDef{n, form, t}
		s.Order = append(s.Order, n)
	}
	for p.peek().kind != "eof" {
		switch {
		case p.accept("const"):
			n := p.ident()
			p.expect("=")
			v := p.value()
			p.expect(";")
			s.Consts[n] = v
			s.COrder = append(s.COrder, n)
		case p.accept("typedef"):
			d := p.decl()
			p.expect(";")
			if d.T.Kind == "void" {
				p.fail("void typedef")
			}
			def(d.Name, "typedef", d.T)
		case p.accept("enum"):
			n := p.ident()
			t := p.enumBody()
			p.expect(";")
			for _, it := range t.Items {
				s.Enum[it.Name] = n
			}
			def(n, "enum", t)
		case p.accept("struct"):
			n := p.ident()
			t := p.structBody()
			p.expect(";")
			def(n, "struct", t)
		case p.accept("union"):
			n := p.ident()
			t := p.unionBody()
			p.expect(";")
			def(n, "union", t)
		case p.accept("program"):
			s.Progs = append(s.Progs, p.program())
		default:
			p.fail("unexpected %q", p.peek().s)
		}
	}
	return s, nil
}

func (p *rparser) enumBody() *RType {
	t := &RType{Kind: "enum"}
	p.expect("{")
	for {
		n := p.ident()
		p.expect("=")
		t.Items = append(t.Items, RItem{n, p.value()})
		if !p.accept(",") {
			break
		}
	}
	p.expect("}")
	return t
}

func (p *rparser) structBody() *RType {
	t := &RType{Kind: "struct"}
	p.expect("{")
	for !p.accept("}") {
		t.Fields = append(t.Fields, p.decl())
		p.expect(";")
	}
	return t
}

func (p *rparser) unionBody() *RType {
	t := &RType{Kind: "union"}
	p.expect("switch")
	p.expect("(")
	t.Disc = p.decl()
	p.expect(")")
	p.expect("{")
	for !p.accept("}") {
		if p.accept("default") {
			p.expect(":")
			t.Def = p.decl()
			p.expect(";")
			p.expect("}") // the last arm
			break
		}
		a := &RArm{}
		for p.accept("case") {
			a.Vals = append(a.Vals, p.value())
			p.expect(":")
		}
		if len(a.Vals) == 0 {
			p.fail("expected case, found %q", p.peek().s)
		}
		a.D = p.decl()
		p.expect(";")
		t.Arms = append(t.Arms, a)
	}
	return t
}

func (p *rparser) typespec() *RType {
	switch {
	case p.accept("unsigned"):
		if p.accept("int") {
			return &RType{Kind: "uint"}
		}
		if p.accept("hyper") {
			return &RType{Kind: "uhyper"}
		}
		return &RType{Kind: "uint"}
	case p.accept("int"):
		return &RType{Kind: "int"}
	case p.accept("hyper"):
		return &RType{Kind: "hyper"}
	case p.accept("float"):
		return &RType{Kind: "float"}
	case p.accept("double"):
		return &RType{Kind: "double"}
	case p.accept("quadruple"):
		return &RType{Kind: "quadruple"}
	case p.accept("bool"):
		return &RType{Kind: "bool"}
	case p.accept("enum"):
		if p.is("{") {
			return p.enumBody()
		}
		return &RType{Kind: "name", Name: p.ident()}
	case p.accept("struct"):
		if p.is("{") {
			return p.structBody()
		}
		return &RType{Kind: "name", Name: p.ident()}
	case p.accept("union"):
		if p.is("switch") {
			return p.unionBody()
		}
		return &RType{Kind: "name", Name: p.ident()}
	}
	return &RType{Kind: "name", Name: p.ident()}
}

func (p *rparser) decl() *RDecl {
	if p.accept("void") {
		return &RDecl{T: &RType{Kind: "void"}}
	}
	if p.accept("opaque") {
		n := p.ident()
		if p.accept("[") {
			v := p.value()
			p.expect("]")
			return &RDecl{n, &RType{Kind: "opaque", Size: v}}
		}
		p.expect("<")
		v := ""
		if !p.is(">") {
			v = p.value()
		}
		p.expect(">")
		return &RDecl{n, &RType{Kind: "varopaque", Size: v}}
	}
	if p.accept("string") {
		n := p.ident()
		p.expect("<")
		v := ""
		if !p.is(">") {
			v = p.value()
		}
		p.expect(">")
		return &RDecl{n, &RType{Kind: "string", Size: v}}
	}
	t := p.typespec()
	if p.accept("*") {
		return &RDecl{p.ident(), &RType{Kind: "optional", Elem: t}}
	}
	n := p.ident()
	if p.accept("[") {
		v := p.value()
		p.expect("]")
		return &RDecl{n, &RType{Kind: "array", Size: v, Elem: t}}
	}
	if p.accept("<") {
		v := ""
		if !p.is(">") {
			v = p.value()
		}
		p.expect(">")
		return &RDecl{n, &RType{Kind: "vararray", Size: v, Elem: t}}
	}
	return &RDecl{n, t}
}

func (p *rparser) procType() *RType {
	if p.accept("void") {
		return &RType{Kind: "void"}
	}
	return p.typespec()
}

func (p *rparser) program() *RProg {
	g := &RProg{Name: p.ident()}
	p.expect("{")
	for p.accept("version") {
		v := &RVer{Name: p.ident()}
		p.expect("{")
		for !p.accept("}") {
			r := &RProc{}
			r.Res = p.procType()
			r.Name = p.ident()
			p.expect("(")
			r.Arg = p.procType()
			p.expect(")")
			p.expect("=")
			r.Num = p.value()
			p.expect(";")
			v.Procs = append(v.Procs, r)
		}
		p.expect("=")
		v.Num = p.value()
		p.expect(";")
		g.Vers = append(g.Vers, v)
	}
	p.expect("}")
	p.expect("=")
	g.Num = p.value()
	p.expect(";")
	return g
}

// Val evaluates a value of the specification.
func (s *RSpec) Val(v string) (int64, bool) { return s.val(v, 0) }

func (s *RSpec) val(v string, d int) (int64, bool) {
	if n, err := strconv.ParseInt(v, 0, 64); err == nil {
		return n, true
	}
	if n, err := strconv.ParseUint(v, 0, 64); err == nil {
		return int64(n), true
	}
	if d > 20 {
		return 0, false
	}
	switch v {
	case "TRUE":
		return 1, true
	case "FALSE":
		return 0, true
	}
	if c, ok := s.Consts[v]; ok {
		return s.val(c, d+1)
	}
	if e, ok := s.Enum[v]; ok {
		for _, it := range s.Defs[e].T.Items {
			if it.Name == v {
				return s.val(it.Val, d+1)
			}
		}
	}
	return 0, false
}

// Canon renders a type with every value evaluated.
func (s *RSpec) Canon(t *RType) string {
	val := func(v string) string {
		if v == "" {
			return ""
		}
		if n, ok := s.Val(v); ok {
			return fmt.Sprint(n)
		}
		return "?" + v
	}
	decl := func(d *RDecl) string {
		if d == nil {
			return "none"
		}
		return s.Canon(d.T) + " " + d.Name
	}
	switch t.Kind {
	case "name":
		return t.Name
	case "opaque", "varopaque", "string":
		return t.Kind + "(" + val(t.Size) + ")"
	case "array", "vararray":
		return t.Kind + "(" + s.Canon(t.Elem) + "," + val(t.Size) + ")"
	case "optional":
		return "optional(" + s.Canon(t.Elem) + ")"
	case "struct":
		var fs []string
		for _, f := range t.Fields {
			fs = append(fs, decl(f))
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	case "union":
		r := "union(" + decl(t.Disc) + "){"
		for _, a := range t.Arms {
			for _, v := range a.Vals {
				r += val(v) + ","
			}
			r += ":" + decl(a.D) + ";"
		}
		return r + "default:" + decl(t.Def) + "}"
	case "enum":
		r := "enum{"
		for _, it := range t.Items {
			r += it.Name + "=" + val(it.Val) + ","
		}
		return r + "}"
	}
	return t.Kind
}

// GoName is the documented spelling of names in generated code.
func GoName(n string) string {
	if n == "TRUE" {
		return "true"
	}
	if n == "FALSE" {
		return "false"
	}
	return strings.ToUpper(n[:1]) + n[1:]
}

// MinWire is a lower bound of the wire size of a type.
func (s *RSpec) MinWire(t *RType) int64 { return s.minWire(t, 0) }

func (s *RSpec) minWire(t *RType, d int) int64 {
	if d > 40 {
		return 0
	}
	switch t.Kind {
	case "bool", "int", "uint", "enum", "varopaque", "string", "vararray", "optional", "float":
		return 4
	case "hyper", "uhyper", "double":
		return 8
	case "quadruple":
		return 16
	case "opaque":
		n, _ := s.Val(t.Size)
		return (n + 3) / 4 * 4
	case "array":
		n, _ := s.Val(t.Size)
		return n * s.minWire(t.Elem, d+1)
	case "struct":
		var n int64
		for _, f := range t.Fields {
			n += s.minWire(f.T, d+1)
		}
		return n
	case "union":
		m := int64(-1)
		arms := append([]*RArm{}, t.Arms...)
		if t.Def != nil {
			arms = append(arms, &RArm{D: t.Def})
		}
		for _, a := range arms {
			if n := s.minWire(a.D.T, d+1); m < 0 || n < m {
				m = n
			}
		}
		if m < 0 {
			m = 0
		}
		return m + s.minWire(t.Disc.T, d+1)
	case "name":
		if df := s.Defs[t.Name]; df != nil {
			return s.minWire(df.T, d+1)
		}
	}
	return 0
}

package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"verif/checker/eng"
)

func init() {
	Checks["C08"] = func(c *Ctx) { checkSpec(c, "rfc1057") }
	Checks["C09"] = func(c *Ctx) { checkSpec(c, "rfc1813") }
}

// oracle reads the committed transcription of an RFC.
func (c *Ctx) oracle(pkg string) *RSpec {
	if s := c.genSpec[pkg]; s != nil {
		return s
	}
	f := filepath.Join(c.Verif, "oracle", pkg+".x")
	b, err := os.ReadFile(f)
	if err != nil {
		c.Fail("oracle:"+pkg, f, "cannot read the reference: %v", err)
		return nil
	}
	s, err := ParseXDR(string(b))
	if err != nil {
		c.Fail("oracle:"+pkg, f, "cannot read the reference: %v", err)
		return nil
	}
	return s
}

// Expand renders the wire form of a type: names resolved, values evaluated,
// names of fields left out.
func (s *RSpec) Expand(t *RType) string { return s.expand(t, nil) }

func (s *RSpec) expand(t *RType, up []string) string {
	val := func(v string) string {
		if v == "" {
			return ""
		}
		if n, ok := s.Val(v); ok {
			return fmt.Sprint(n)
		}
		return "?" + v
	}
	switch t.Kind {
	case "name":
		for i, u := range up {
			if u == t.Name {
				return fmt.Sprintf("^%d", len(up)-i)
			}
		}
		d := s.Defs[t.Name]
		if d == nil {
			return "?" + t.Name
		}
		if d.T.Kind == "name" {
			return s.expand(d.T, append(append([]string{}, up...), t.Name))
		}
		return s.expand(d.T, append(append([]string{}, up...), t.Name))
	case "opaque", "varopaque", "string":
		return t.Kind + "(" + val(t.Size) + ")"
	case "array", "vararray":
		return t.Kind + "(" + s.expand(t.Elem, up) + "," + val(t.Size) + ")"
	case "optional":
		return "optional(" + s.expand(t.Elem, up) + ")"
	case "struct":
		r := "{"
		for _, f := range t.Fields {
			if f.T.Kind != "void" {
				r += s.expand(f.T, up) + ";"
			}
		}
		return r + "}"
	case "union":
		var as []string
		for _, a := range t.Arms {
			for _, v := range a.Vals {
				as = append(as, val(v)+":"+s.expand(a.D.T, up))
			}
		}
		sort.Strings(as)
		r := "union(" + s.expand(t.Disc.T, up) + "){"
		for _, a := range as {
			r += a + ";"
		}
		if t.Def != nil {
			r += "default:" + s.expand(t.Def.T, up)
		}
		return r + "}"
	case "enum":
		return "enum"
	}
	return t.Kind
}

// compareSpecs compares the shipped specification with the reference.
func (c *Ctx) compareSpecs(file string, got, want *RSpec) {
	for _, n := range want.COrder {
		w, _ := want.Val(n)
		g, ok := got.Val(n)
		c.Check(ok && g == w, "spec-const:"+n, file, "%s: constant %s is %v instead of %d", file, n, g, w)
	}
	for it, e := range want.Enum {
		w, _ := want.Val(it)
		g, ok := got.Val(it)
		c.Check(ok && g == w && got.Enum[it] == e, "spec-enum:"+it, file, "%s: %s of %s is %v of %s instead of %d", file, it, e, g, got.Enum[it], w)
	}
	for _, n := range want.Order {
		if got.Defs[n] == nil {
			c.Check(false, "spec-type:"+n, file, "%s does not define %s", file, n)
			continue
		}
		g, w := got.Expand(&RType{Kind: "name", Name: n}), want.Expand(&RType{Kind: "name", Name: n})
		c.Check(g == w, "spec-type:"+n, file, "%s defines %s as %s instead of %s", file, n, g, w)
	}
	type procT struct{ prog, vers, proc int64 }
	list := func(s *RSpec) map[procT]string {
		r := map[procT]string{}
		for _, g := range s.Progs {
			for _, v := range g.Vers {
				for _, p := range v.Procs {
					a, _ := s.Val(g.Num)
					b, _ := s.Val(v.Num)
					d, _ := s.Val(p.Num)
					r[procT{a, b, d}] = fmt.Sprintf("%s/%s/%s(%s) %s", g.Name, v.Name, p.Name, s.Expand(p.Arg), s.Expand(p.Res))
				}
			}
		}
		return r
	}
	g, w := list(got), list(want)
	for k, d := range w {
		c.Check(g[k] == d, fmt.Sprintf("spec-proc:%d.%d.%d", k.prog, k.vers, k.proc), file, "%s: procedure %d of version %d of program %d is %q instead of %q", file, k.proc, k.vers, k.prog, g[k], d)
	}
	for k, d := range g {
		_, ok := w[k]
		c.Check(ok, fmt.Sprintf("spec-proc:%d.%d.%d", k.prog, k.vers, k.proc), file, "%s: the RFC has no procedure %v %s", file, k, d)
	}
}

// goConst finds a constant of a Go package.
func goConst(p *types.Package, name string) (*types.Const, int64, bool) {
	o, ok := p.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil, 0, false
	}
	v := constant.ToInt(o.Val())
	if v.Kind() != constant.Int {
		return o, 0, false
	}
	n, ok := constant.Int64Val(v)
	if !ok {
		return o, 0, false
	}
	return o, n, true
}

// checkConsts compares the Go constants with the reference.
func (c *Ctx) checkConsts(p *types.Package, s *RSpec) {
	one := func(name, val, kind, typ string) {
		want, ok := s.Val(val)
		if !ok {
			c.Fail("undecided:value:"+name, p.Path(), "the value %s of %s is not known", val, name)
			return
		}
		o, got, ok := goConst(p, GoName(name))
		if o == nil {
			c.Check(false, "const:"+name, p.Path(), "there is no constant %s for %s %s", GoName(name), kind, name)
			return
		}
		c.Check(ok && got == want, "const:"+name, c.Pos(o.Pos()), "%s %s has value %v instead of %d", kind, name, o.Val(), want)
		if typ != "" {
			n, ok := types.Unalias(o.Type()).(*types.Named)
			c.Check(ok && n.Obj().Name() == typ && n.Obj().Pkg() == p, "consttype:"+name, c.Pos(o.Pos()), "%s has type %v instead of %s", name, o.Type(), typ)
		}
	}
	for _, n := range s.COrder {
		one(n, n, "constant", "")
	}
	for it, e := range s.Enum {
		one(it, it, "enum item", GoName(e))
	}
	for _, g := range s.Progs {
		one(g.Name, g.Num, "program", "")
		for _, v := range g.Vers {
			one(v.Name, v.Num, "version", "")
			for _, q := range v.Procs {
				one(q.Name, q.Num, "procedure", "")
			}
		}
	}
}

func checkSpec(c *Ctx, pkg string) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, "Translation validation of the shipped package against an independent transcription of the RFC: every path of every codec, in both directions, is computed by abstract interpretation with the runtime primitives as coding steps, and matched step by step and value by value with the RFC definition (kind, order, bound, union arm per discriminant, element loops by an index invariant, coverage of every arm and of present/absent); the value coded must be the value at the place the definition names. Go constants and enum types, and the shipped .x file (parsed by an independent reader), are compared with the same transcription.")
	want := c.oracle(pkg)
	if want == nil || !c.Load("./"+pkg, "./xdr") {
		return
	}
	file := filepath.Join(c.Repo, pkg, "prot.x")
	b, err := os.ReadFile(file)
	if err != nil {
		c.Fail("spec-file", file, "cannot read the shipped specification: %v", err)
	} else if got, err := ParseXDR(string(b)); err != nil {
		c.Fail("spec-file", file, "the shipped specification does not parse: %v", err)
	} else {
		c.compareSpecs(pkg+"/prot.x", got, want)
	}
	k := c.newCodecPkg(c.Module+"/"+pkg, want)
	if k == nil {
		return
	}
	c.checkConsts(k.pkg, want)
	k.checkAll()
	c.Oblig += k.steps + k.runs
	c.Discharge += k.steps + k.runs
	c.Programs = k.runs
	for _, p := range k.probs {
		c.Discharge--
		c.Fail(p.Cat+":"+p.Type+":"+p.Mode.String(), p.Pos, "%s", p.Text)
	}
	c.Extra = map[string]any{"types": len(want.Order), "constants": len(want.COrder) + len(want.Enum), "coding_steps": k.steps}
}

var _ = eng.Nil

// shipped runs f for the codecs of both shipped packages, or of the packages
// under analysis in their place.
func (c *Ctx) shipped(f func(k *codecPkg)) {
	if c.pkgs != nil {
		for _, k := range c.pkgs {
			f(k)
		}
		return
	}
	for _, pkg := range []string{"rfc1057", "rfc1813"} {
		s := c.oracle(pkg)
		if s == nil {
			continue
		}
		if k := c.newCodecPkg(c.Module+"/"+pkg, s); k != nil {
			f(k)
		}
	}
}

// report turns the problems of some categories into violations.
func (k *codecPkg) report(cats ...string) {
	c := k.c
	c.Oblig += k.steps + k.runs
	c.Discharge += k.steps + k.runs
	for _, p := range k.probs {
		if has(cats, p.Cat) {
			c.Discharge--
			c.Fail(p.Cat+":"+p.Type+":"+p.Mode.String(), p.Pos, "%s", p.Text)
		}
	}
}

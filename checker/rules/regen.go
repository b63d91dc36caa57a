package rules

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	Checks["C30"] = checkC30
}

// checkC30: the shipped packages are what the generator makes of the shipped
// specifications.
func checkC30(c *Ctx) {
	c.Level = "translation_validation"
	c.Rule = append(c.Rule, genRule+"This is done for the two specifications that the repository ships, with the options of its Makefile. The packages it emits are type-checked and every path of every codec and registration is matched with the specification, as C21 and C23 do for the families; then every exported constant, type, function and method they declare is compared with the shipped package: kind, type, value and method signatures must agree.")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	opts := map[string]string{"unsigned-enum": "true", "const-type": "uint32", "t": typesFile}
	var fams []genFam
	for _, n := range []string{"rfc1057", "rfc1813"} {
		b, err := os.ReadFile(filepath.Join(c.Repo, n, "prot.x"))
		if err != nil {
			c.Fail("anchor:"+n, n, "the specification of the package cannot be read: %v", err)
			continue
		}
		fams = append(fams, genFam{name: n, spec: string(b), flags: opts})
	}
	ps := g.load(g.produce(fams...), "./rfc1057", "./rfc1813")
	w := c.loadedWorld()
	if w == nil {
		return
	}
	procs := 0
	for _, p := range ps {
		k, spec := p.reference(c)
		if k == nil {
			continue
		}
		k.checkAll()
		c.Oblig += k.steps + k.runs
		c.Discharge += k.steps + k.runs
		c.Programs += k.runs
		for _, x := range k.probs {
			c.Discharge--
			c.Fail(x.Cat+":"+p.fam.name+":"+x.Type+":"+x.Mode.String(), p.where(c, x.Pos), "definition %s of %s/prot.x, generated afresh: %s", x.Type, p.fam.name, x.Text)
		}
		c.genPkgs = []string{p.dir}
		c.genSpec = map[string]*RSpec{p.dir: spec}
		procs += w.checkServices()
		w.checkWrapped()
		c.genPkgs, c.genSpec = nil, nil
		c.sameAPI(p)
	}
	g.evidence(len(fams), 0)
	c.Extra["procedures"] = procs
}

// sameAPI compares a generated package with the shipped one.
func (c *Ctx) sameAPI(p *genPkg) {
	n := p.fam.name
	fresh, shipped := c.Pkgs[c.Module+"/"+p.dir], c.Pkgs[c.Module+"/"+n]
	if fresh == nil || shipped == nil {
		c.Fail("anchor:"+n, n, "the package was not loaded")
		return
	}
	fs, ss := fresh.Pkg.Scope(), shipped.Pkg.Scope()
	cnt := 0
	for _, name := range fs.Names() {
		o := fs.Lookup(name)
		if !o.Exported() || strings.HasSuffix(name, "_handler_wrapper") {
			continue
		}
		cnt++
		key := "api:" + n + ":" + name
		q := ss.Lookup(name)
		pos := filepath.Join(n, "types.go")
		if !c.Check(q != nil, key, pos, "the generator declares %s for %s/prot.x, the shipped package does not", name, n) {
			continue
		}
		pos = c.Pos(q.Pos())
		x, y := apiOf(o), apiOf(q)
		if c.Check(x == y, key, pos, "the generator declares %s as %s for %s/prot.x, the shipped package as %s", name, clip(x), n, clip(y)) && cnt%97 == 1 {
			c.Sample("%s.%s: %s", n, name, clip(x))
		}
	}
	c.Check(cnt > 0, "anchor:"+n, n, "the generator declares nothing for %s/prot.x", n)
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// apiOf describes a declaration without its package and parameter names.
func apiOf(o types.Object) string {
	s := apiStr(o.Pkg())
	switch o := o.(type) {
	case *types.Const:
		return fmt.Sprintf("const %s = %s", s(o.Type()), o.Val().ExactString())
	case *types.TypeName:
		r := "type " + s(o.Type().Underlying())
		if o.IsAlias() {
			return "alias " + r
		}
		if types.IsInterface(o.Type()) {
			return r
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if m.Exported() {
				r += "; " + m.Name() + s(m.Type())
			}
		}
		return r
	case *types.Func:
		return s(o.Type())
	case *types.Var:
		return "var " + s(o.Type())
	}
	return o.String()
}

func apiStr(pkg *types.Package) func(t types.Type) string {
	var s func(t types.Type) string
	tuple := func(t *types.Tuple) string {
		var r []string
		for i := 0; i < t.Len(); i++ {
			r = append(r, s(t.At(i).Type()))
		}
		return "(" + strings.Join(r, ", ") + ")"
	}
	s = func(t types.Type) string {
		switch t := t.(type) {
		case *types.Alias:
			return s(types.Unalias(t))
		case *types.Named:
			if t.Obj().Pkg() == nil || t.Obj().Pkg() == pkg {
				return t.Obj().Name()
			}
			return t.Obj().Pkg().Path() + "." + t.Obj().Name()
		case *types.Pointer:
			return "*" + s(t.Elem())
		case *types.Slice:
			return "[]" + s(t.Elem())
		case *types.Array:
			return fmt.Sprintf("[%d]%s", t.Len(), s(t.Elem()))
		case *types.Map:
			return "map[" + s(t.Key()) + "]" + s(t.Elem())
		case *types.Struct:
			var r []string
			for i := 0; i < t.NumFields(); i++ {
				f := t.Field(i)
				x := f.Name() + " " + s(f.Type())
				if f.Embedded() {
					x = "embedded " + x
				}
				r = append(r, x)
			}
			return "struct{" + strings.Join(r, "; ") + "}"
		case *types.Interface:
			var r []string
			for i := 0; i < t.NumMethods(); i++ {
				r = append(r, t.Method(i).Name()+s(t.Method(i).Type()))
			}
			return "interface{" + strings.Join(r, "; ") + "}"
		case *types.Signature:
			x := "func" + tuple(t.Params())
			if t.Variadic() {
				x += "..."
			}
			return x + tuple(t.Results())
		}
		return t.String()
	}
	return s
}

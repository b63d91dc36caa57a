package rules

import (
	"fmt"
	"go/token"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

// emitted runs f on the codecs the generator emits for families of
// definitions, in the place of those of the shipped packages: eachCodec,
// allCodecs and shipped range over them meanwhile. What the generator makes
// of the definitions at all is decided by C21; packages it does not produce
// here are left out.
func (c *Ctx) emitted(f func(), fams ...genFam) {
	sub := &Ctx{ID: c.ID, Repo: c.Repo, Verif: c.Verif, Tier: c.Tier, Start: c.Start}
	note := map[string]any{}
	if c.Extra == nil {
		c.Extra = map[string]any{}
	}
	c.Extra["emitted_codecs"] = note
	g := sub.generator()
	if g == nil {
		note["not_analysed"] = "the generator could not be loaded (see C21)"
		return
	}
	fset := sub.Prog.Fset
	ps := g.produce(fams...)
	for _, x := range sub.Findings {
		note["not_analysed"] = x.Text + " (see C21)"
	}
	c.Overlay = map[string][]byte{}
	pats := []string{"./xdr"}
	by := map[string]*genPkg{}
	for _, p := range ps {
		for n, t := range p.out {
			c.Overlay[filepath.Join(c.Repo, p.dir, n)] = []byte(t)
		}
		pats = append(pats, "./"+p.dir)
		by[c.Module+"/"+p.dir] = p
	}
	if !c.load(func(lp *packages.Package) bool {
		p := by[lp.PkgPath]
		if p != nil {
			p.bad = append(p.bad, "does not compile")
			note["not_analysed"] = p.fam.name + " does not compile (see C21)"
		}
		return p != nil
	}, pats...) {
		return
	}
	codecs := 0
	for _, p := range ps {
		if p.bad != nil {
			continue
		}
		spec, err := ParseXDR(p.fam.spec)
		if err != nil {
			continue
		}
		if k := c.newCodecPkg(c.Module+"/"+p.dir, spec); k != nil {
			codecs += len(k.codecs())
			c.pkgs = append(c.pkgs, k)
		}
	}
	note["packages"] = len(c.pkgs)
	note["codecs"] = codecs
	seen := map[string]string{}
	c.posOf = func(q token.Position) string {
		k := fmt.Sprintf("%s:%d", q.Filename, q.Line)
		if s, ok := seen[k]; ok {
			return s
		}
		p := by[c.Module+"/"+filepath.Base(filepath.Dir(q.Filename))]
		if p == nil {
			return ""
		}
		l := p.line(fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line))
		at := "out.go"
		for _, e := range p.emits {
			if l != "" && strings.Contains(e.Text.Text(nil), l) {
				at = fmt.Sprintf("%s:%d", filepath.Base(fset.Position(e.Pos).Filename), fset.Position(e.Pos).Line)
				break
			}
		}
		seen[k] = fmt.Sprintf("%s (writes %q)", at, l)
		return seen[k]
	}
	if len(c.pkgs) > 0 {
		f()
	}
	c.pkgs, c.posOf, c.Overlay = nil, nil, nil
}

// emittedFams are the families that C02 to C07 are decided on.
func emittedFams() []genFam {
	shapes := genShapes()
	// C21 takes deeply nested arrays; here they would only multiply paths
	var keep []string
	for _, l := range strings.Split(shapes.spec, "\n") {
		if !strings.Contains(l, "deep<3>") {
			keep = append(keep, l)
		}
	}
	shapes.spec = strings.Join(keep, "\n")
	return []genFam{genDecls(), genMixed(), genUnions(), shapes}
}

const emittedRule = " The same is decided for the codecs that the generator, evaluated abstractly, emits for families of definitions: every declarator of every type in every context, inline structs and unions, every kind of discriminant, recursion."

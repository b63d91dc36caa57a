package rules

import (
	"fmt"
	"path/filepath"
)

func init() {
	Checks["C32"] = checkC32
}

// checkC32: what the generator writes depends on nothing but the
// specification and the options.
func checkC32(c *Ctx) {
	c.Level = "other"
	c.Rule = append(c.Rule, genRule+"It is evaluated on every family and under every option in several circumstances: maps iterated in order of insertion, backwards, and from a different start at every loop; another time, process, environment, working directory, random numbers and names of temporary files; and with outputs of an earlier run in place. The outputs must be the same templates, byte for byte. A difference shows a dependence on circumstances; the evaluator admits no others (it models every library function that the generator reaches, or refuses).")
	g := c.generator()
	if g == nil {
		return
	}
	g0Fset = c.Prog.Fset
	fams := append(c.families(), genProgs()...)
	envs := 3
	if c.Tier == "thorough" {
		envs = 8
	}
	var js []*job
	for _, f := range fams {
		for e := 0; e < envs; e++ {
			fl := map[string]string{"p": "verifgen"}
			for k, v := range f.flags {
				fl[k] = v
			}
			o := genOpt{flags: fl, env: e}
			if e == 2 {
				o.files = map[string]string{outFile: "package old\n\n// a longer file of an earlier run\n", typesFile: "package old\n"}
			}
			js = append(js, &job{what: fmt.Sprintf("%s (circumstances %d)", f.name, e), spec: symbolic(f.spec), o: o})
		}
	}
	g.runAll(js)
	for i, f := range fams {
		base := g.only(js[i*envs])
		if base == nil {
			continue
		}
		for e := 1; e < envs; e++ {
			r := g.only(js[i*envs+e])
			if r == nil {
				continue
			}
			if !c.Check(outcomeOf(base) == outcomeOf(r), "outcome:"+f.name, "main.go", "the generator %s on the definitions of %s, and %s in other circumstances", outcomeOf(base), f.name, outcomeOf(r)) {
				continue
			}
			if base.Failed() {
				continue
			}
			for _, n := range []string{outFile, typesFile} {
				if n == typesFile && f.flags["t"] == "" {
					continue
				}
				a, b := base.M.FS.Files[n], r.M.FS.Files[n]
				if !c.Check(a != nil && b != nil, "missing:"+f.name+":"+filepath.Base(n), "main.go", "the generator writes no %s for %s", filepath.Base(n), f.name) {
					continue
				}
				x, y := a.Content.Text(nil), b.Content.Text(nil)
				c.Check(x == y, "differs:"+f.name+":"+filepath.Base(n), "out.go", "what the generator writes for %s depends on circumstances such as the order of a map, the time or the process: %s", f.name, firstDiff(y, x))
			}
		}
	}
	g.evidence(len(fams), 0)
	c.Extra["circumstances"] = envs
}

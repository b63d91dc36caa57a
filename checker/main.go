// Command checker decides the properties of /verif/properties.jsonl from the
// source of the repository.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"verif/checker/rules"
)

func main() {
	id := flag.String("id", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(6 << 30)
	c := &rules.Ctx{ID: *id, Repo: *repo, Verif: *verif, Tier: os.Getenv("VERIF_TIER"), Start: time.Now(), Level: "other"}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	f, ok := rules.Checks[*id]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check for %q\n", *id)
		os.Exit(2)
	}
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	func() {
		defer func() {
			if os.Getenv("VERIF_DEBUG") != "" {
				return
			}
			if r := recover(); r != nil {
				c.Fail("checker-panic", "-", "the analysis could not be completed: %v", r)
			}
		}()
		f(c)
	}()
	rc := c.Finish()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

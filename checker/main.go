package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
)

type prop struct {
	run  func(c *Ctx)
	text string
}

var props map[string]prop

func main() {
	defer startProf()()
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(200)
	}
	debug.SetMemoryLimit(9 << 30)
	id := flag.String("prop", "", "property to decide")
	repo := flag.String("repo", "/repo", "the repository")
	verif := flag.String("verif", ".", "where evidence and known findings are")
	flag.Parse()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p, ok := props[*id]
	if !ok {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "properties:", ids)
		os.Exit(2)
	}
	c := newCtx(*id, tier, *repo)
	c.guard("check", func() { p.run(c) })
	code := c.finish(*verif, p.text, trustedBase)
	startProf()
	stopProf()
	os.Exit(code)
}

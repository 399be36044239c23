package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one reported breach: the rule, the construct it concerns and how to get there.
type Violation struct {
	Rule, Construct, Msg, Witness string
}

func (v Violation) key() string { return v.Rule + " @ " + v.Construct }

// Ctx collects what one check does.
type Ctx struct {
	id, tier  string
	repo      string
	mu        sync.Mutex
	viol      map[string]Violation
	order     []string
	rules     map[string]int // obligations per rule
	held      int
	funcs     map[string]bool
	blocks    int
	groups    int
	visits    int
	steps     int
	files     int
	outcomes  int
	engOb     int
	rankEdges int
	said      map[string]bool
	samples   []string
	notes     []string
	loaded    *Repo
	start     time.Time
}

func newCtx(id, tier, repo string) *Ctx {
	return &Ctx{id: id, tier: tier, repo: repo, viol: map[string]Violation{}, rules: map[string]int{}, funcs: map[string]bool{}, start: time.Now()}
}

// check counts an obligation and records its failure.
func (c *Ctx) check(rule string, ok bool, construct, witness, format string, args ...interface{}) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.rules[rule]++
	if ok {
		c.held++
		return true
	}
	v := Violation{rule, construct, fmt.Sprintf(format, args...), witness}
	k := v.key()
	if _, dup := c.viol[k]; !dup && len(c.order) < 60 {
		c.viol[k] = v
		c.order = append(c.order, k)
	}
	return false
}

func (c *Ctx) sample(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, fmt.Sprintf(format, args...))
	}
}

func (c *Ctx) note(format string, args ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
}

// once is a note made a single time.
func (c *Ctx) once(format string, args ...interface{}) {
	n := fmt.Sprintf(format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.said == nil {
		c.said = map[string]bool{}
	}
	if !c.said[n] {
		c.said[n] = true
		c.notes = append(c.notes, n)
	}
}

// load reads the repository once.
func (c *Ctx) load() *Repo {
	if c.loaded == nil {
		r, err := loadModule(c.repo, nil)
		if err != nil {
			panic(missing{"source of " + c.repo + ": " + err.Error()})
		}
		c.loaded = r
		c.files = r.nfiles
	}
	return c.loaded
}

// guard turns a failed analysis into a violation: what cannot be decided is not passed.
func (c *Ctx) guard(what string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if m, ok := x.(missing); ok {
				c.check("anchor", false, m.what, "", "%s: cannot find %s", what, m.what)
				return
			}
			st := string(debug.Stack())
			if len(st) > 6000 {
				st = st[:6000]
			}
			c.check("analysis", false, what, "", "the analysis failed: %v\n%s", x, st)
		}
	}()
	f()
}

type job struct {
	name string
	run  func(a *API)
}

// par runs jobs, each with an engine of its own.
func (c *Ctx) par(jobs ...job) {
	var r *Repo
	c.guard("loading", func() { r = c.load() })
	if r == nil {
		return
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		j := j
		if o := os.Getenv("URN_ONLY"); o != "" && !strings.Contains(j.name, o) {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.guard(j.name, func() {
				a := newAPI(r)
				a.e.deadline = c.start.Add(700 * time.Second)
				if a.e.initBad != "" {
					c.note("%s", a.e.initBad)
				}
				t0 := time.Now()
				j.run(a)
				c.absorb(a, j.name)
				if os.Getenv("URN_STATS") != "" {
					fmt.Fprintf(os.Stderr, "job %s: groups %d (max %d) visits %d steps %d in %.2fs %s\n", j.name, a.e.allGroups, a.e.maxSeen, a.e.visits, a.e.steps, time.Since(t0).Seconds(), a.e.overrun)
				}
			})
		}()
	}
	wg.Wait()
}

// absorb takes over an engine's counters, and what it could not decide.
func (c *Ctx) absorb(a *API, what string, kinds ...string) {
	// package-level memory is taken to be as initialisation left it
	want := map[string]bool{"undecided": true, "write-global": true}
	for _, k := range kinds {
		want[k] = true
	}
	for _, ev := range a.e.events {
		if want[ev.kind] {
			c.check(ev.kind, false, ev.fn+" ("+ev.pos+")", witness(ev.trace), "%s: %s", what, ev.msg)
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for f := range a.e.funcs {
		c.funcs[f.String()] = true
	}
	c.blocks += len(a.e.blocks)
	c.visits += a.e.visits
	c.steps += a.e.steps
	c.engOb += a.e.obligations
	c.groups += a.e.allGroups
	a.e.visits, a.e.steps, a.e.obligations, a.e.allGroups = 0, 0, 0, 0
	a.e.blocks = map[*ssa.BasicBlock]bool{}
}

type finding struct{ property, key, what string }

// knownFindings reads the committed list: lines "known: property=<id> key=<key> :: <what fails>".
func knownFindings(file string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, ok := strings.Cut(l, " key=")
		key, what, ok2 := strings.Cut(rest, " :: ")
		if ok && ok2 {
			out = append(out, finding{id, key, what})
		}
	}
	return out
}

// finish writes the evidence and reports; the result is the exit status.
func (c *Ctx) finish(verif string, explanation string, trusted []string) int {
	known := knownFindings(filepath.Join(verif, "known-findings.txt"))
	var bad []Violation
	for _, k := range c.order {
		v := c.viol[k]
		listed := false
		for _, f := range known {
			if f.property == c.id && f.key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, f.what)
				listed = true
			}
		}
		if !listed {
			bad = append(bad, v)
		}
	}
	total := 0
	for _, n := range c.rules {
		total += n
	}
	if total == 0 {
		bad = append(bad, Violation{"vacuity", c.id, "no obligation was checked", ""})
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]interface{}{
		"explanation":          explanation,
		"obligations":          total,
		"discharged":           c.held,
		"obligations_per_rule": c.rules,
		"go_files_loaded":      c.files,
		"functions_analysed":   fns,
		"basic_blocks":         c.blocks,
		"abstract_states":      c.groups,
		"state_visits":         c.visits,
		"instructions_run":     c.steps,
		"outcomes_judged":      c.outcomes,
		"access_obligations":   c.engOb,
		"samples":              c.samples,
	}
	if c.rankEdges > 0 {
		cov["transitions_ranked"] = c.rankEdges
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": trusted, "wall_s": time.Since(c.start).Seconds(), "violations": len(bad),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	rep := filepath.Join(dir, c.id+".violations.txt")
	os.Remove(rep)
	if len(bad) == 0 {
		fmt.Printf("%s holds: %d obligations, %d functions, %d abstract states, %.1fs\n", c.id, total, len(fns), c.groups, time.Since(c.start).Seconds())
		return 0
	}
	var sb strings.Builder
	for i, v := range bad {
		fmt.Fprintf(&sb, "rule %s at %s\n  %s\n", v.Rule, v.Construct, v.Msg)
		if v.Witness != "" {
			fmt.Fprintf(&sb, "  path: reading an input such as %q\n", v.Witness)
		}
		if i < 8 {
			fmt.Printf("%s: rule %s at %s: %s", c.id, v.Rule, v.Construct, v.Msg)
			if v.Witness != "" {
				fmt.Printf(" (path: reading an input such as %q)", v.Witness)
			}
			fmt.Println()
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rep)
	return 1
}

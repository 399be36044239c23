package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// C21: the grammar source and the committed parser agree.
//
// The parser is generated again, with the project's own recipe, in a scratch copy. When it is the committed one but
// for comments and layout, nothing is left to show. Otherwise both programs have to fulfil the whole specification,
// which leaves them no room to differ.

func copyTree(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, fi.Mode().Perm()|0o600)
	})
}

// regenerate gives the parser the recipe makes from the grammar.
func regenerate(repo string) ([]byte, error) {
	dir, err := os.MkdirTemp("", "urncheck-gen")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	if err := copyTree(repo, dir); err != nil {
		return nil, err
	}
	out := filepath.Join(dir, "machine.go")
	for _, n := range []string{"machine.go", "snake2camel", "removecomments"} {
		os.Remove(filepath.Join(dir, n))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Minute)
	defer cancel()
	// a tool that never ends, or takes all memory, must not take the sandbox with it
	cmd := exec.CommandContext(ctx, "sh", "-c", "ulimit -t 120; ulimit -v 12000000; exec make -B machine.go")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cmd.WaitDelay = 5 * time.Second
	if msg, err := cmd.CombinedOutput(); err != nil {
		if len(msg) > 1500 {
			msg = msg[len(msg)-1500:]
		}
		return nil, fmt.Errorf("%v: %s", err, msg)
	}
	return os.ReadFile(out)
}

// bare is the source of a file without comments, its declarations in a fixed order.
func bare(src []byte) (string, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "machine.go", src, 0)
	if err != nil {
		return "", err
	}
	var ds []string
	for _, d := range f.Decls {
		var b bytes.Buffer
		strip(d)
		if err := format.Node(&b, token.NewFileSet(), d); err != nil {
			return "", err
		}
		ds = append(ds, b.String())
	}
	sort.Strings(ds)
	return f.Name.Name + "\n" + strings.Join(ds, "\n"), nil
}

// strip forgets positions that only carry layout.
func strip(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		}
		return true
	})
}

// the properties that together settle what a parser does with an input
var parserProps = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C12", "C13", "C14", "C18"}

func (c *Ctx) regen() {
	gen, err := regenerate(c.repo)
	if !c.check("recipe", err == nil, "machine.go.rl", "", "the recipe of the makefile does not generate the parser: %v", err) {
		return
	}
	path := filepath.Join(c.repo, "machine.go")
	have, err := os.ReadFile(path)
	if err != nil {
		panic(missing{"machine.go"})
	}
	g, err1 := bare(gen)
	h, err2 := bare(have)
	if !c.check("syntax", err1 == nil, "machine.go.rl", "", "the generated parser is not Go: %v", err1) ||
		!c.check("syntax", err2 == nil, "machine.go", "", "the committed parser is not Go: %v", err2) {
		return
	}
	if g == h {
		c.check("same-program", true, "machine.go", "", "")
		c.note("the generated file, %d bytes, is the committed one but for comments and layout", len(gen))
		return
	}
	c.note("the generated file and the committed one are different programs: both are held against the specification")
	abs, _ := filepath.Abs(path)
	for _, side := range []struct {
		name    string
		overlay map[string][]byte
	}{{"the committed parser", nil}, {"the parser generated from the grammar", map[string][]byte{abs: gen}}} {
		c.guard(side.name, func() {
			r, err := loadModule(c.repo, side.overlay)
			if !c.check("compiles", err == nil, side.name, "", "%s: %v", side.name, err) {
				return
			}
			for _, id := range parserProps {
				s := newCtx(id, c.tier, c.repo)
				s.loaded, s.start = r, c.start
				s.guard(id, func() { props[id].run(s) })
				c.take(s, side.name)
			}
		})
	}
}

// take adds what another check found.
func (c *Ctx) take(s *Ctx, name string) {
	c.mu.Lock()
	for f := range s.funcs {
		c.funcs[f] = true
	}
	c.blocks += s.blocks
	c.groups += s.groups
	c.visits += s.visits
	c.steps += s.steps
	c.files += s.loaded.nfiles
	c.outcomes += s.outcomes
	c.engOb += s.engOb
	for r, n := range s.rules {
		c.rules[s.id+" "+r] += n
	}
	c.held += s.held
	c.mu.Unlock()
	for _, k := range s.order {
		v := s.viol[k]
		c.mu.Lock()
		c.rules[s.id+" "+v.Rule]--
		c.mu.Unlock()
		c.check(s.id+" "+v.Rule, false, v.Construct+", "+name, v.Witness, "the grammar and the committed parser differ, and %s breaks %s: %s", name, s.id, v.Msg)
	}
}

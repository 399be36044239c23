package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Repo is the analysed program.
type Repo struct {
	dir     string
	prog    *ssa.Program
	pkgs    []*ssa.Package // of the module, dependencies first
	urn     *ssa.Package
	schema  *ssa.Package
	mod     map[*types.Package]bool
	nfiles  int
	loaded  []*packages.Package
	funcs   map[*ssa.Function]bool
	written map[*ssa.Global]bool
}

const urnPath = "github.com/leodido/go-urn"
const schemaPath = urnPath + "/scim/schema"

// loadModule loads a Go module from its source, with some files replaced.
func loadModule(dir string, overlay map[string][]byte) (*Repo, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	// types of dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	r := &Repo{dir: dir, mod: map[*types.Package]bool{}, loaded: pkgs}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.Types != nil {
			r.mod[p.Types] = true
		}
		r.nfiles += len(p.CompiledGoFiles)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	prog.Build()
	r.prog = prog
	for _, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("a package could not be built")
		}
	}
	// dependencies first
	seen := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if p == nil || seen[p] || !r.mod[p.Pkg] {
			return
		}
		seen[p] = true
		for _, q := range p.Pkg.Imports() {
			visit(prog.Package(q))
		}
		r.pkgs = append(r.pkgs, p)
	}
	for _, p := range spkgs {
		visit(p)
	}
	for _, p := range r.pkgs {
		switch p.Pkg.Path() {
		case urnPath:
			r.urn = p
		case schemaPath:
			r.schema = p
		}
	}
	return r, nil
}

// allFuncs are the functions of the module.
func (r *Repo) allFuncs() map[*ssa.Function]bool {
	if r.funcs == nil {
		r.funcs = map[*ssa.Function]bool{}
		for fn := range ssautil.AllFunctions(r.prog) {
			if r.inMod(fn) {
				r.funcs[fn] = true
			}
		}
	}
	return r.funcs
}

func (r *Repo) inMod(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return r.mod[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		if r.mod[o.Pkg()] {
			return true
		}
		return false
	}
	// wrappers: decided by what they wrap
	if fn.Signature.Recv() != nil {
		if n := namedOf(fn.Signature.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
			return r.mod[n.Obj().Pkg()]
		}
	}
	return false
}

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// newRepoEngine makes an engine with the package-level variables of the module evaluated.
func newRepoEngine(r *Repo) *Engine {
	e := newEngine(r.prog, r.inMod)
	e.repo, _ = filepath.Abs(r.dir)
	e.initing = true
	next := 10000
	for _, p := range r.pkgs {
		st := newState()
		st.next = next
		init := p.Func("init")
		if init == nil || len(init.Blocks) == 0 {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.globalObj(g)
			}
		}
		// the guard variable is false: the body runs
		st.fr = []*Frame{{fn: init, env: map[ssa.Value]Val{}, blk: init.Blocks[0]}}
		var ends []*State
		e.exec(st, func(s *State) { ends = append(ends, s) })
		if len(ends) != 1 {
			e.initBad = fmt.Sprintf("initialisation of %s has %d outcomes", p.Pkg.Path(), len(ends))
			for id, o := range e.static {
				_ = id
				if o.val != nil && o.seq == nil {
					o.val = TopV{why: "package variable"}
				}
			}
			continue
		}
		fin := ends[0]
		next = fin.next + 1
		for id, o := range fin.heap {
			o.static = true
			e.static[id] = o
		}
	}
	for _, o := range e.static {
		o.val = dropSyms(o.val)
		if o.seq != nil {
			if !o.seq.start.isConst() || !o.seq.end.isConst() {
				o.seq = nil
				o.val = TopV{why: "package data"}
				continue
			}
			for i := range o.seq.segs {
				o.seq.segs[i].v = dropSyms(o.seq.segs[i].v)
				if !o.seq.segs[i].end.isConst() {
					o.seq.elemTop, o.seq.segs = true, nil
					break
				}
			}
		}
		for k, x := range o.m {
			o.m[k] = mapEnt{x.k, dropSyms(x.v)}
		}
	}
	e.initing = false
	return e
}

// dropSyms forgets numbers that are not constants.
func dropSyms(v Val) Val {
	switch v := v.(type) {
	case IntV:
		if !v.l.isConst() {
			return TopV{why: "number"}
		}
		return IntV{v.l, true}
	case DiffV, RelV, FnV:
		return TopV{why: "number"}
	case SliceV:
		if !v.lo.isConst() || !v.hi.isConst() || !v.max.isConst() {
			return TopV{why: "slice"}
		}
	case StructV:
		f := make([]Val, len(v.f))
		for i := range f {
			f[i] = dropSyms(v.f[i])
		}
		return StructV{f}
	case ArrV:
		f := make([]Val, len(v.e))
		for i := range f {
			f[i] = dropSyms(v.e[i])
		}
		return ArrV{f}
	case IfaceV:
		if v.t != nil {
			return IfaceV{v.t, dropSyms(v.v)}
		}
	case StrV:
		if _, ok := v.konst(); !ok {
			return topStr(false)
		}
	}
	return v
}

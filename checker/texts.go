package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: removecomments deletes exactly the //line directive lines.
//
// main is followed as for C20. What it reads is one unknown text, and what regular-expression replacements make of it
// are named texts. Where a file is written, the text has to be what the reference expression leaves of the text that
// was read: the same deletion by an equivalent expression, or the text itself where nothing is there to be deleted.

// refLine is what is deleted: a line that starts, after white space (which may span lines), with //line, with the
// end of the line.
const refLine = `(?m)^\s*//line[^\n]*\n?`

const contentID = 900

type rewrite struct {
	pat, repl string
	src       StrV
}

func (c *Ctx) texts() {
	found := false
	for _, dir := range toolDirs(c.repo) {
		if !strings.HasSuffix(dir, "/removecomments") {
			continue
		}
		found = true
		dir := dir
		c.guard("removecomments", func() { c.textsOf("removecomments", dir) })
	}
	c.check("anchor", found, "tools/removecomments", "", "the tool is not there")
}

func (c *Ctx) textsOf(name, dir string) {
	t := newToolRun(c, name, dir)
	e := t.a.e
	t.models()
	t.opaque()
	u := &unknownTexts{map[string]int{}, map[int]appl{}}
	made := map[int]rewrite{}
	isContent := func(s StrV) bool { return len(s.a) == 1 && s.a[0].k == aSym && s.a[0].id == contentID && !s.a[0].lower }
	pattern := func(st *State, v Val) (string, bool) {
		p, ok := v.(PtrV)
		if !ok || p.obj == 0 || p.path != "" {
			return "", false
		}
		o := st.obj(e, p.obj)
		if o == nil || !o.frozen {
			return "", false
		}
		s, ok := o.val.(StrV)
		if !ok {
			return "", false
		}
		return s.konst()
	}
	quietly := e.models
	inner := e.fallback
	// what is read
	for n := range readFuncs {
		old := quietly[n]
		e.models[n] = func(e *Engine, st *State, cc *callCtx) []sv {
			out := old(e, st, cc)
			for i, r := range out {
				if tv, ok := r.v.(TupleV); ok && len(tv.e) == 2 {
					if iv, ok := tv.e[1].(IfaceV); ok && iv.t == nil {
						s := t.a.anyText(r.st, contentID)
						r.st.roots[1] = s
						out[i].v = TupleV{[]Val{e.newBytes(r.st, s, "file content"), IfaceV{}}}
					}
				}
			}
			return out
		}
	}
	result := func(st *State, s StrV, sig *types.Signature) Val {
		if isString(sig.Results().At(0).Type()) {
			return s
		}
		return e.newBytes(st, s, "rewritten")
	}
	replaced := func(st *State, sig *types.Signature, pat, repl string, src StrV) Val {
		k, _ := textKey(src)
		key := fmt.Sprintf("replace %q by %q in %s", pat, repl, k)
		s := u.text(st, key, 0)
		made[s.a[0].id] = rewrite{pat, repl, noLen(src)}
		return result(st, s, sig)
	}
	e.fallback = func(st *State, fn *ssa.Function, cc *callCtx) ([]sv, bool) {
		name := cc.name
		if strings.HasPrefix(name, "(*regexp.Regexp).") && len(cc.args) >= 2 {
			pat, known := pattern(st, cc.args[0])
			src := e.anyBytes(st, cc.args[1])
			if _, ok := textKey(src); known && ok {
				switch m := strings.TrimSuffix(fn.Name(), "String"); {
				case len(cc.args) == 3 && (m == "ReplaceAll" || m == "ReplaceAllLiteral"):
					if repl, ok := e.anyBytes(st, cc.args[2]).konst(); ok && (m == "ReplaceAllLiteral" || !strings.Contains(repl, "$")) {
						return one(st, replaced(st, cc.sig, pat, repl, src)), true
					}
				case len(cc.args) == 3 && (fn.Name() == "ReplaceAllFunc" || fn.Name() == "ReplaceAllStringFunc"):
					if repl, ok := t.constFunc(st, cc.args[2]); ok {
						return one(st, replaced(st, cc.sig, pat, repl, src)), true
					}
				case m == "Match" && len(cc.args) == 2:
					k, _ := textKey(src)
					var out []sv
					for _, b := range factSplit(st, fmt.Sprintf("m:%q:%s", pat, k)) {
						out = append(out, sv{b.st, BoolV{b.b}})
					}
					return out, true
				}
			}
		}
		return inner(st, fn, cc)
	}
	contains := func(e *Engine, st *State, cc *callCtx) []sv {
		src, sub := e.anyBytes(st, cc.args[0]), e.anyBytes(st, cc.args[1])
		if k, ok := sub.konst(); ok && isContent(src) {
			var out []sv
			for _, b := range factSplit(st, fmt.Sprintf("c:%q", k)) {
				out = append(out, sv{b.st, BoolV{b.b}})
			}
			return out
		}
		return []sv{{st.clone(), BoolV{true}}, {st, BoolV{false}}}
	}
	e.models["strings.Contains"], e.models["bytes.Contains"] = contains, contains
	same := map[string]string{}
	equivalent := func(pat string) string {
		if v, ok := same[pat]; ok {
			return v
		}
		ok, text, err := rxSame(pat, refLine)
		v := ""
		switch {
		case err != nil:
			v = err.Error()
		case !ok:
			v = fmt.Sprintf("it does not match as %s does in the text %q", refLine, text)
		}
		same[pat] = v
		c.note("tools/%s: %s compared with the reference %s: %s", name, pat, refLine, map[bool]string{true: "the same matches in every text", false: v}[v == ""])
		return v
	}
	judge := func(st *State, v Val, where string) {
		s := e.anyBytes(st, v)
		why := ""
		empty := func() bool {
			s, ok := st.roots[1].(StrV)
			return ok && st.z.isLe(s.a[0].to, con(0), 0) || st.facts["e:"+fmt.Sprint(contentID)]
		}
		switch {
		case isContent(s):
			ok := empty()
			for k, b := range st.facts {
				var pat string
				if b {
					continue
				}
				if n, _ := fmt.Sscanf(k, "c:%q", &pat); n == 1 && strings.Contains("//line", pat) && pat != "" {
					ok = true
				}
				if n, _ := fmt.Sscanf(k, "m:%q:", &pat); n == 1 && strings.HasSuffix(k, fmt.Sprintf(":%dfalse,", contentID)) && equivalent(pat) == "" {
					ok = true
				}
			}
			if !ok {
				why = "it is the text that was read, and that may hold //line lines"
			}
		case len(s.a) == 0:
			if !empty() {
				why = "it is empty"
			}
		case len(s.a) == 1 && s.a[0].k == aSym && !s.a[0].lower && made[s.a[0].id].pat != "":
			m := made[s.a[0].id]
			switch {
			case !isContent(m.src):
				why = "it is made from another text than the one that was read"
			case m.repl != "":
				why = fmt.Sprintf("lines are replaced by %q", m.repl)
			default:
				if why = equivalent(m.pat); why != "" {
					why = fmt.Sprintf("what %s matches is deleted; %s", m.pat, why)
				}
			}
		default:
			why = "it cannot be told what it is (" + valString(s) + ")"
		}
		c.check("text", why == "", where, "", "tools/%s: what is written is not the text that was read without its //line lines: %s", name, why)
		c.sample("tools/%s: writes %s", name, u.name(s))
		t.good++
	}
	for n := range writeFuncs {
		e.models[n] = func(e *Engine, st *State, cc *callCtx) []sv {
			pos, fn := e.instrPos(st)
			c.mu.Lock()
			c.outcomes++
			c.mu.Unlock()
			judge(st, cc.args[1], fn+" ("+pos+")")
			bad := st.clone()
			return append(one(st, IfaceV{}), sv{bad, mkErr("write", nil)})
		}
	}
	t.silent = true
	for n := 0; n <= 4; n++ {
		st := newState()
		st.roots = []Val{TupleV{}, IfaceV{}}
		t.args(st, n)
		e.call(t.main, []*State{st}, func(*State) []Val { return nil })
	}
	c.check("writes-something", t.good > 0, "tools/"+name, "", "main never writes a file")
	c.absorb(t.a, "tools/"+name)
}

// constFunc: does a function of a text always give the same text?
func (t *toolRun) constFunc(st *State, v Val) (string, bool) {
	f, ok := v.(FuncV)
	if !ok || f.fn == nil || len(f.bind) > 0 || !t.pure(f.fn, nil) {
		return "", false
	}
	res, n := "", 0
	for _, b := range f.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var k string
		switch x := ret.Results[0].(type) {
		case *ssa.Const:
			if x.Value != nil {
				k = strings.Trim(x.Value.ExactString(), `"`)
				if strings.Contains(k, `\`) {
					return "", false
				}
			}
		default:
			return "", false
		}
		if n > 0 && k != res {
			return "", false
		}
		res, n = k, n+1
	}
	return res, n > 0
}

package main

import (
	"fmt"
	"os"
	"sort"
)

func dumpGroups(e *Engine) {
	cnt := map[string][]*Group{}
	for _, g := range e.glist {
		if g.isRet || len(g.tmpl.fr) == 0 {
			continue
		}
		f := g.tmpl.top()
		k := fmt.Sprint(f.fn.Name(), " b", f.blk.Index, " ", g.tmpl.g.s)
		cnt[k] = append(cnt[k], g)
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(cnt[ks[i]]) > len(cnt[ks[j]]) })
	for _, k := range ks {
		fmt.Fprintln(os.Stderr, len(cnt[k]), k)
		{
			for j, g := range cnt[k] {
				if os.Getenv("URN_DUMP") == k || j < 12 && os.Getenv("URN_DUMP") == "1" {
					fmt.Fprintf(os.Stderr, "   %q %q\n", g.key, witness(g.tmpl.trace))
					if os.Getenv("URN_LISTS") != "" {
						st := e.inst(g)
						X := st.g.X
						for _, o := range st.heap {
							if o.seq == nil || o.seq.isBytes {
								continue
							}
							for _, s := range o.seq.segs {
								fmt.Fprintf(os.Stderr, "      sum=%v old=%v %s", s.sum, s.old, valString(s.v))
								switch v := s.v.(type) {
								case IntV:
									fmt.Fprintf(os.Stderr, " X-v in [%d,%d]", st.z.lb(X, v.l), st.z.ub(X, v.l))
								case RelV:
									fmt.Fprintf(os.Stderr, " X-a in [%d,%d] b=%s", st.z.lb(X, v.a), st.z.ub(X, v.a), v.b)
								case DiffV:
									fmt.Fprintf(os.Stderr, " X-a in [%d,%d] b=%s", st.z.lb(X, v.a), st.z.ub(X, v.a), v.b)
								}
								fmt.Fprintln(os.Stderr)
							}
						}
					}
				}
			}
		}
	}
}

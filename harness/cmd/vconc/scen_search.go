//go:build vsched

package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// settle checks what must hold when no operation is running: a final search sees
// the last good revision and one index directory is left.
func (e *env) settle(r *repo, s *searcher.Searcher, min int, leftovers int) []string {
	var bad []string
	var sr searchRes
	e.search(s, 99, "needle", &sr)
	_, hi, revs := e.liveRange(r, len(e.ev), len(e.ev))
	if _, b := e.checkSearch(r, &sr, "needle", hi); b != "" {
		bad = append(bad, "after everything finished: "+b)
	}
	_ = revs
	n := 0
	for _, d := range e.idxDirs() {
		_ = d
		n++
	}
	if leftovers >= 0 && n != 1+leftovers {
		bad = append(bad, fmt.Sprintf("%d index directories are left, expected %d", n, 1+leftovers))
	}
	return bad
}

func init() {
	// C01: two searchers one after the other in one thread, another in a second, one
	// or two reindexes triggered by update requests.
	mk := func(name string, plan []int, updates int, threads [][]int, timers int, poll bool) {
		vs.Register(&vs.Scenario{Name: name, Timers: timers, Desc: "searches of one repository while it is reindexed",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: plan, push: bp(true), poll: bp(poll)}
				e := newEnv(r)
				res := make([][]searchRes, len(threads))
				var s *searcher.Searcher
				return &vs.Exec{
					Body: func() {
						s = e.startOne(0)
						for t := range threads {
							res[t] = make([]searchRes, len(threads[t]))
							go func(t int) {
								for i := range threads[t] {
									e.search(s, t*10+i, "needle", &res[t][i])
								}
							}(t)
						}
						for i := 0; i < updates; i++ {
							s.Update()
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						for t := range res {
							min := 0
							for i := range res[t] {
								if res[t][i].to == 0 {
									v.Bad = append(v.Bad, fmt.Sprintf("search %d/%d never finished", t, i))
									continue
								}
								m, b := e.checkSearch(r, &res[t][i], "needle", min)
								if b != "" {
									v.Bad = append(v.Bad, b)
								}
								v.Outcome += " " + res[t][i].rev
								// any search that starts after this one finished sees at least m
								for u := range res {
									for j := range res[u] {
										if (u != t || j > i) && res[u][j].from >= res[t][i].to {
											if _, b := e.checkSearch(r, &res[u][j], "needle", m); b != "" {
												v.Bad = append(v.Bad, "after a search showed "+res[t][i].rev+": "+b)
											}
										}
									}
								}
								min = m
							}
						}
						if rr.Status == 0 {
							v.Bad = append(v.Bad, e.settle(r, s, 0, -1)...)
						}
						v.Outcome += fmt.Sprintf(" pulls=%d", r.n)
						if len(v.Bad) > 0 {
							v.Bad = append(v.Bad, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk("c01-1u2s", []int{1, 2}, 1, [][]int{{0}, {0}}, 0, false)
	mk("c01-1u1s2", []int{1, 2}, 1, [][]int{{0, 0}}, 0, false)
	mk("c01-2u1s", []int{1, 2, 3}, 2, [][]int{{0, 0}}, 0, false)
	mk("c01-poll", []int{1, 2, 3}, 0, [][]int{{0, 0}}, 2, true)
	mk("c01-err", []int{1, ansErr, 2, ansBroken, 3}, 1, [][]int{{0}}, 3, true)

	// C03
	mk3 := func(name string, plan []int, updates int, threads int, per int) {
		vs.Register(&vs.Scenario{Name: name, Desc: "excluded-files requests while the repository is reindexed",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: plan, push: bp(true), poll: bp(false)}
				e := newEnv(r)
				res := make([][]searchRes, threads)
				var s *searcher.Searcher
				return &vs.Exec{
					Body: func() {
						s = e.startOne(0)
						for t := range res {
							res[t] = make([]searchRes, per)
							go func(t int) {
								for i := range res[t] {
									e.excluded(s, t*10+i, &res[t][i])
								}
							}(t)
						}
						for i := 0; i < updates; i++ {
							s.Update()
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						for t := range res {
							for i := range res[t] {
								x := &res[t][i]
								if x.to == 0 {
									v.Bad = append(v.Bad, "request never finished")
									continue
								}
								rev, b := e.checkExcluded(r, x)
								if b != "" {
									v.Bad = append(v.Bad, b)
								}
								v.Outcome += " " + rev
							}
						}
						if len(v.Bad) > 0 {
							v.Bad = append(v.Bad, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk3("c03-1", []int{1, 2}, 1, 1, 2)
	mk3("c03-2", []int{1, 2, 3}, 2, 2, 1)
}

func (e *env) checkExcluded(r *repo, x *searchRes) (string, string) {
	if x.err != "" {
		return "", "excluded-files request failed: " + x.err
	}
	names, err := excludedNames(x.got)
	if err != nil {
		return "", fmt.Sprintf("excluded-files answer %q: %v", x.got, err)
	}
	lo, hi, revs := e.liveRange(r, x.from, x.to)
	for i := lo; i <= hi && i >= 0; i++ {
		if expectExcluded(e.tree(r, revs[i])) == strings.Join(names, ",") {
			return revName(revs[i]), ""
		}
	}
	return "", fmt.Sprintf("excluded files %v belong to no revision live during the request (%v[%d..%d])", names, revs, lo, hi)
}

var _ = os.Getenv

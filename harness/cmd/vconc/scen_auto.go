//go:build vsched

package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// V04: every history of revisions, each with its own set of auto-generated files, and
// of failing pulls; with and without a configured list; every file's flag after each
// step, and after a restart that claims the index again.
func init() {
	sets := [][]string{nil, {"a.txt"}, {"d/b.txt", "gone"}, {"a.txt", "d/b.txt", "c.txt"}}
	autos := [][]string{nil, {}, {"c.txt"}, {"a.txt", "nothing"}}
	mk := func(name string, depth int) {
		vs.Register(&vs.Scenario{Name: name, Timers: 2 * depth, Desc: "auto-generated files by revision",
			New: func() *vs.Exec {
				var marks []int // by revision, from 1
				a := &repo{name: "a", push: bp(true), poll: bp(false)}
				o := &repo{name: "o", push: bp(true), poll: bp(false), plan: []int{1}}
				a.marks = func(rev int) []string {
					if rev < 1 || rev > len(marks) {
						return nil
					}
					return sets[marks[rev-1]]
				}
				e := newEnv(a, o)
				e.tree = func(r *repo, rev int) map[string]string {
					return map[string]string{"a.txt": "needle\n", "d/b.txt": fmt.Sprintf("needle r%d\n", rev), "c.txt": "x\nneedle", "e": "needle"}
				}
				var b bad
				desc := ""
				judge := func(s *searcher.Searcher, r *repo, list []string, at string) {
					res, err := s.Search("needle", &index.SearchOptions{})
					if err != nil {
						b.add("%s: search of %s: %v", at, r.name, err)
						return
					}
					var got, want []string
					for _, f := range res.Matches {
						if f.AutoGenerated {
							got = append(got, f.Filename)
						}
					}
					for _, n := range list {
						if _, ok := e.tree(r, 1)[n]; ok {
							want = append(want, n)
						}
					}
					sort.Strings(got)
					sort.Strings(want)
					if len(res.Matches) != 4 || strings.Join(got, " ") != strings.Join(want, " ") {
						b.add("%s: files flagged in %s at %s are %q of %d, expected %q", at, r.name, res.Revision, got, len(res.Matches), want)
					}
				}
				return &vs.Exec{
					Body: func() {
						cf := vs.Choose(len(autos))
						auto := autos[cf]
						rev := 0
						for i := 0; i <= depth; i++ {
							x := vs.Choose(len(sets) + 1)
							if i > 0 && x == len(sets) {
								a.plan = append(a.plan, ansErr)
								continue
							}
							if x == len(sets) {
								x = 0
							}
							rev++
							marks = append(marks, x)
							a.plan = append(a.plan, rev)
						}
						e.cfg.Repos["a"].AutoGeneratedFiles = auto
						desc = fmt.Sprintf("configured %q, pulls %v, marks by revision %v of %q", auto, a.plan, marks, sets)
						listAt := func(rev int) []string {
							if len(auto) > 0 {
								return auto
							}
							return a.marks(rev)
						}
						ss, errs := e.start()
						if len(errs) > 0 {
							b.add("startup: %v", errs)
							return
						}
						good := 0
						for i := 0; i <= depth; i++ {
							if i > 0 {
								ss["a"].Update()
								vs.Drain()
							}
							if a.plan[i] > 0 {
								good = a.plan[i]
							}
							judge(ss["a"], a, listAt(good), fmt.Sprintf("after pull %d", i))
							judge(ss["o"], o, nil, fmt.Sprintf("after pull %d", i))
						}
						for _, s := range ss {
							s.Stop()
						}
						for _, s := range ss {
							s.Wait()
						}
						a.plan, a.n = []int{good}, 0
						ss, errs = e.start()
						if len(errs) > 0 {
							b.add("restart: %v", errs)
							return
						}
						judge(ss["a"], a, listAt(good), "after a restart")
						judge(ss["o"], o, nil, "after a restart")
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						if rr.Status != runtime.VOk {
							b.add("status %s", statusName(rr.Status))
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "history "+desc)
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk("v04-2", 2)
	mk("v04-3", 3)
}

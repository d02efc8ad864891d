//go:build vsched

package main

import (
	"fmt"
	"runtime"
	"time"

	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// Bugs that need many of something: repositories, failures in a row, reindexes,
// directories. The histories are few but long.

func init() {
	E, B := ansErr, ansBroken

	// ---- C07: many repositories, every pair of which fails to start
	vs.Register(&vs.Scenario{Name: "c07-many", Limit: 400000, Desc: "startup of twelve repositories, one or two of which fail",
		New: func() *vs.Exec {
			var rs []*repo
			for i := 0; i < 12; i++ {
				rs = append(rs, &repo{name: string(rune('a' + i)), plan: []int{1, 2}, push: bp(true), poll: bp(false)})
			}
			e := newEnv(rs...)
			e.cfg.MaxConcurrentIndexers = 4
			var b bad
			desc, done := "", false
			return &vs.Exec{
				Body: func() {
					i := vs.Choose(len(rs))
					j := vs.Choose(len(rs))
					rs[i].plan[0] = []int{E, B, ansTorn - 1}[vs.Choose(3)]
					rs[j].plan[0] = []int{E, B}[vs.Choose(2)]
					desc = fmt.Sprintf("%s %v, %s %v", rs[i].name, rs[i].plan, rs[j].name, rs[j].plan)
					perr := ""
					var ss map[string]*searcher.Searcher
					var errs map[string]error
					protect(&perr, func() { ss, errs = e.start() })
					done = true
					if perr != "" {
						b.add("startup: %s", perr)
						return
					}
					for _, r := range rs {
						b.list = append(b.list, e.checkStarted(r, ss, errs)...)
					}
					if want := len(e.completeDirs()); want != len(ss) {
						b.add("%d complete index directories for %d repositories", want, len(ss))
					}
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					if !done && rr.Status == runtime.VOk {
						b.add("startup never finished")
					}
					if len(b.list) > 0 {
						v.Bad = append(b.list, desc)
					}
					return v
				},
				Done: e.done,
			}
		}})

	// ---- C01, C02, C03, C07: long runs of failures and of reindexes
	runs := func(name string, kinds []int, max1, max2 int) {
		vs.Register(&vs.Scenario{Name: name, Limit: 400000, Desc: "long runs of one kind of pull outcome, then others",
			New: func() *vs.Exec {
				a := &repo{name: "a", push: bp(true), poll: bp(false)}
				e := newEnv(a)
				var b bad
				done := false
				return &vs.Exec{
					Body: func() {
						rev := 1
						a.plan = []int{1}
						run := func(kind, n int) {
							for i := 0; i < n; i++ {
								switch kind {
								case 0: // new
									rev++
									a.plan = append(a.plan, rev)
								case 1: // unchanged
									a.plan = append(a.plan, rev)
								case 2: // back to an older one
									old := rev - 1
									if i%2 == 1 || old < 1 {
										old = rev
									}
									a.plan = append(a.plan, old)
								case 3:
									a.plan = append(a.plan, E)
								case 4:
									a.plan = append(a.plan, B)
								case 5:
									rev++
									a.plan = append(a.plan, ansTorn-rev)
								}
							}
						}
						run(kinds[vs.Choose(len(kinds))], max1-vs.Choose(3))
						run(kinds[vs.Choose(len(kinds))], vs.Choose(max2+1))
						run(0, 1)
						ss, errs := e.start()
						b.list = append(b.list, e.checkStarted(a, ss, errs)...)
						s := ss["a"]
						if s == nil {
							return
						}
						torn := 0
						for n := 1; n < len(a.plan) && len(b.list) == 0; n++ {
							s.Update()
							vs.Drain()
							if a.n != n+1 {
								b.add("%d pulls after %d updates", a.n, n)
								return
							}
							good := 0
							torn = 0
							for _, x := range a.plan[:a.n] {
								if x > 0 {
									good = x
								} else if x != E {
									torn++
								}
							}
							var sr searchRes
							e.search(s, 0, "needle", &sr)
							if sr.err != "" {
								b.add("search after pulls %v: %s", a.plan[:a.n], sr.err)
							} else if sr.rev != revName(good) || sr.got != expect(e.tree(a, good), "needle") {
								b.add("search after pulls %v shows %s %q, last good revision is %d", a.plan[:a.n], sr.rev, sr.got, good)
							}
							if x := e.excludedNow(s); x != expectExcluded(e.tree(a, good)) {
								b.add("excluded files after pulls %v are %q", a.plan[:a.n], x)
							}
							if n := len(e.completeDirs()); n != 1 {
								b.add("%d complete index directories after pulls %v", n, a.plan[:a.n])
							}
							if n := len(e.idxDirs()); n != 1 {
								b.add("%d index directories after pulls %v", n, a.plan[:a.n])
							}
						}
						s.Stop()
						s.Wait()
						done = true
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: fmt.Sprintf("%s pulls=%d", statusName(rr.Status), a.n)}
						if rr.Status == runtime.VOk && !done && len(b.list) == 0 {
							b.add("the searcher never ended")
						}
						v.Bad = b.list
						return v
					},
					Done: e.done,
				}
			}})
	}
	runs("c07-runs", []int{3, 4, 5, 1, 0}, 12, 6)
	runs("c02-runs", []int{0, 2, 4}, 25, 3)

	// ---- C10: many polls in a row with the same outcome
	runPoll("c10-runs", "long runs of one kind of pull outcome", time.Hour, 16*time.Hour, 1, func(i int, r *repo, p *poller) {
		kind := vs.Choose(5)
		other := vs.Choose(5)
		n := 10 + vs.Choose(3)
		rev := 1
		for k := 0; k < n+3; k++ {
			x := kind
			if k >= n {
				x = other
			}
			switch x {
			case 0:
				rev++
				r.plan = append(r.plan, rev)
			case 1:
				r.plan = append(r.plan, rev)
			case 2:
				r.plan = append(r.plan, E)
			case 3:
				r.plan = append(r.plan, B)
			case 4:
				rev++
				r.plan = append(r.plan, ansTorn-rev)
			}
		}
		p.updates = [][]time.Duration{nil, {11*time.Hour + 30*time.Minute}}[vs.Choose(2)]
	}, [][]bool{{true, true}})

	// ---- D03: many repositories, each with its index, and superseded ones besides
	vs.Register(&vs.Scenario{Name: "d03-many", Limit: 400000, Desc: "startup of twelve repositories on their own and on other directories",
		New: func() *vs.Exec {
			var rs []*repo
			for i := 0; i < 12; i++ {
				rs = append(rs, &repo{name: string(rune('a' + i)), plan: []int{1}, push: bp(true), poll: bp(false)})
			}
			e := newEnv(rs...)
			e.cfg.MaxConcurrentIndexers = 4
			var b bad
			done := false
			desc := ""
			return &vs.Exec{
				Body: func() {
					without := vs.Choose(len(rs) + 1)                                                   // has none
					kind := []string{"oldrev", "nomanifest", "otherurl", "empty", "dots"}[vs.Choose(5)] // what the others are
					first := vs.Choose(2)                                                               // whether they come first
					desc = fmt.Sprint("without ", without, ", others ", kind, ", first ", first)
					ino := map[string]uint64{}
					vs.Quiet(func() {
						for i, r := range rs {
							d := e.plant(2*i+first, kind, []*repo{r})
							_ = d
							if i != without {
								d := e.plant(2*i+1-first, "fit0", []*repo{r})
								ino[d] = inode(d + "/tri")
							}
						}
					})
					perr := ""
					var ss map[string]*searcher.Searcher
					var errs map[string]error
					protect(&perr, func() { ss, errs = e.start() })
					done = true
					if perr != "" {
						b.add("startup: %s", perr)
						return
					}
					for _, r := range rs {
						b.list = append(b.list, e.checkStarted(r, ss, errs)...)
					}
					if n := len(e.idxDirs()); n != len(rs) {
						b.add("%d index directories for %d repositories", n, len(rs))
					}
					for d, i := range ino {
						if inode(d+"/tri") != i {
							b.add("%s was not reused", d)
						}
					}
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					if !done && rr.Status == runtime.VOk {
						b.add("startup never finished")
					}
					if len(b.list) > 0 {
						v.Bad = append(b.list, desc)
					}
					return v
				},
				Done: e.done,
			}
		}})
}

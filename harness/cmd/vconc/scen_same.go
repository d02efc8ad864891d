//go:build vsched

package main

import (
	"runtime"

	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

// ---- C11: repositories with the same URL

func init() {
	// mk: n repositories with one URL and revisions of their own (repository i pulls
	// 10i+1, 10i+2, ...), which start, or start and are updated, at the same time.
	mk := func(name string, n, slots int, updates int, poll bool, others int) {
		timers := 0
		if poll {
			timers = 2
		}
		vs.Register(&vs.Scenario{Name: name, Limit: 40000, Timers: timers, Desc: "repositories with the same URL",
			New: func() *vs.Exec {
				var rs []*repo
				for i := 0; i < n+others; i++ {
					r := &repo{name: string(rune('a' + i)), push: bp(true), poll: bp(poll), url: "fake://same"}
					if i >= n {
						r.url = []string{"fake://Same", "fake://same/"}[i%2]
					}
					for k := 0; k <= updates; k++ {
						r.plan = append(r.plan, 10*i+1+k)
					}
					rs = append(rs, r)
				}
				e := newEnv(rs...)
				e.shared = true
				e.cfg.MaxConcurrentIndexers = slots
				var ss map[string]*searcher.Searcher
				var errs map[string]error
				var seen []searchRes
				var of []int
				perr := ""
				ready := false
				look := func(i int, sub string) {
					seen = append(seen, searchRes{})
					of = append(of, i)
					e.search(ss[rs[i].name], len(seen), sub, &seen[len(seen)-1])
				}
				return &vs.Exec{
					Body: func() {
						protect(&perr, func() {
							if updates > 0 {
								ss, errs = e.start()
							} else {
								var err error
								ss, errs, err = searcher.MakeAll(e.cfg)
								must(err)
							}
						})
						if perr != "" || len(errs) > 0 {
							return
						}
						ready = true
						for _, r := range rs {
							if updates > 0 {
								go func(r *repo) {
									for k := 0; k < updates; k++ {
										ss[r.name].Update()
									}
								}(r)
							}
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						if perr != "" {
							b.add("startup: %s", perr)
						}
						if rr.Status == runtime.VOk && perr == "" && !ready && len(errs) == 0 {
							b.add("startup never finished")
						}
						finished := rr.Status == runtime.VOk && ready
						for i := range rs {
							if finished {
								look(i, "needle")
							}
						}
						for name, err := range errs {
							b.add("%s did not start: %v", name, err)
						}
						for k, sr := range seen {
							i := of[k]
							r := rs[i]
							rev := parseRev(sr.rev)
							switch {
							case sr.err != "":
								b.add("search of %s: %s", r.name, sr.err)
							case rev/10 != i:
								b.add("%s serves %s, which is another repository's", r.name, sr.rev)
							case sr.got != expect(e.tree(r, rev), "needle"):
								b.add("%s serves %q as %s", r.name, sr.got, sr.rev)
							case rev < r.plan[len(r.plan)-1] && (updates < 2 || rev == r.plan[0]):
								b.add("%s serves %s and not its last revision", r.name, sr.rev)
							}
						}
						if finished {
							if d := len(e.idxDirs()); d != len(rs) {
								b.add("%d index directories for %d repositories", d, len(rs))
							}
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk("c11-start2", 2, 2, 0, false, 0)
	mk("c11-start3", 3, 2, 0, false, 0)
	mk("c11-start3w", 3, 3, 0, false, 0)
	mk("c11-mixed", 2, 2, 0, false, 1)
	mk("c11-upd2", 2, 2, 1, false, 0)
	mk("c11-upd22", 2, 2, 2, false, 0)
	mk("c11-poll", 2, 2, 1, true, 0)
}

//go:build vsched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/hound-search/hound/searcher"

	"hv/vs"
)

func opName(n int) string { return fmt.Sprint(n) }

// listing of the data directory: relative paths of everything in it.
func (e *env) listing() string {
	var out []string
	filepath.Walk(e.db, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			rel, _ := filepath.Rel(e.db, p)
			out = append(out, rel)
		}
		return nil
	})
	return strings.Join(out, "\n")
}

func (e *env) find(kind, repo, a int) int {
	for i, x := range e.events() {
		if x.Kind == kind && (repo < 0 || x.Repo == repo) && x.A == a {
			return i
		}
	}
	return -1
}

type bad struct{ list []string }

func (b *bad) add(f string, a ...interface{}) { b.list = append(b.list, fmt.Sprintf(f, a...)) }

func init() {
	// ---- C04: stop and wait
	const opStop, opWait, opUpd = 1, 2, 3
	mk4 := func(name string, plan []int, poll, push bool, timers, stops, updates, late, waiters int, unstarted bool) {
		vs.Register(&vs.Scenario{Name: name, Timers: timers, Desc: "stop and wait against polls, updates and reindexes",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: plan, push: bp(push), poll: bp(poll)}
				e := newEnv(r)
				var atWait string
				var errs = make([]string, waiters)
				return &vs.Exec{
					Body: func() {
						var s *searcher.Searcher
						if unstarted {
							// the poller has not consumed the start signal yet
							var err error
							vs.Quiet(func() { s, err = searcher.New(e.db, r.name, e.cfg.Repos[r.name]) })
							must(err)
						} else {
							s = e.startOne(0)
						}
						if updates > 0 {
							go func() {
								for i := 0; i < updates; i++ {
									s.Update()
								}
							}()
						}
						for w := 0; w < waiters; w++ {
							go func(w int) {
								protect(&errs[w], func() {
									for i := 0; i < stops; i++ {
										e.log(evCall, 0, opStop, w)
										s.Stop()
										e.log(evRet, 0, opStop, w)
									}
									s.Wait()
									e.log(evRet, 0, opWait, w)
									if w == 0 {
										vs.Quiet(func() { atWait = e.listing() })
									}
									for i := 0; i < late; i++ {
										s.Update()
										s.Stop()
									}
								})
							}(w)
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						rets := 0
						first := -1
						open := 0
						for i, x := range e.events() {
							switch {
							case x.Kind == evRet && x.A == opWait:
								rets++
								if first < 0 {
									first = i
									if open > 0 {
										b.add("Wait returned while a pull was running")
									}
								}
							case x.Kind == evPullBegin:
								open++
								if first >= 0 {
									b.add("a pull began after Wait returned")
								}
							case x.Kind == evPullEnd:
								open--
							}
						}
						for _, m := range errs {
							if m != "" {
								b.add("%s", m)
							}
						}
						// With timers that may still fire the next poll can complete the shutdown.
						starved := rr.Timers > 0
						if rr.Status == runtime.VOk && rets != waiters && !starved {
							b.add("Wait never returns (%d of %d returned)", rets, waiters)
						}
						if rets > 0 {
							if now := e.listing(); now != atWait && atWait != "" {
								b.add("the data directory changed after Wait returned: %q -> %q", atWait, now)
							}
							if n := e.indexing(); n > 0 {
								b.add("an index was still being built when Wait returned")
							}
						}
						v.Outcome += fmt.Sprintf(" waits=%d pulls=%d", rets, r.n)
						if starved {
							v.Outcome += " timers-left"
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk4("c04-idle", []int{1}, false, true, 0, 1, 0, 1, 1, false)
	mk4("c04-push", []int{1, 2, 3}, false, true, 0, 1, 1, 1, 1, false)
	mk4("c04-push2", []int{1, 2, 3}, false, true, 0, 2, 2, 1, 1, false)
	mk4("c04-poll", []int{1, 2, 2}, true, false, 3, 1, 0, 1, 1, false)
	mk4("c04-both", []int{1, 2, 2}, true, true, 2, 2, 1, 1, 1, false)
	mk4("c04-none", []int{1}, false, false, 0, 2, 0, 1, 1, false)
	mk4("c04-early", []int{1, 2}, false, true, 0, 1, 1, 1, 1, true)
	mk4("c04-early-none", []int{1, 2}, false, false, 0, 1, 0, 0, 1, true)
	mk4("c04-2w", []int{1, 2}, false, true, 0, 1, 1, 0, 2, false)
	mk4("c04-err", []int{1, ansErr, ansBroken, 2}, true, true, 2, 1, 1, 1, 1, false)

	// ---- C05: updates
	mk5 := func(name string, plan []int, poll bool, timers int, threads []int, early bool, nopush bool) {
		vs.Register(&vs.Scenario{Name: name, Timers: timers, Desc: "update requests against reindexes and each other",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: plan, push: bp(!nopush), poll: bp(poll)}
				e := newEnv(r)
				total := 0
				for _, n := range threads {
					total += n
				}
				oks := make([]bool, total)
				froms := make([]int, total)
				tos := make([]int, total)
				startPulls := 0
				return &vs.Exec{
					Body: func() {
						var s *searcher.Searcher
						if early {
							var err error
							vs.Quiet(func() { s, err = searcher.New(e.db, r.name, e.cfg.Repos[r.name]) })
							must(err)
						} else {
							s = e.startOne(0)
						}
						startPulls = r.n
						k := 0
						for _, n := range threads {
							go func(k, n int) {
								for i := k; i < k+n; i++ {
									e.log(evCall, 0, opUpd, i)
									froms[i] = e.now()
									oks[i] = s.Update()
									e.log(evRet, 0, opUpd, i)
									tos[i] = e.now()
								}
							}(k, n)
							k += n
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						pulls := 0
						lastPull := -1
						for i, x := range e.events() {
							if x.Kind == evPullBegin {
								pulls++
								lastPull = i
							}
						}
						maxTo, firstPull := 0, -1
						n := 0
						for i, x := range e.events() {
							if x.Kind == evPullBegin {
								n++
								if n == startPulls+1 {
									firstPull = i
								}
							}
						}
						for i := 0; i < total; i++ {
							if tos[i] == 0 {
								b.add("update request %d never returned", i)
								continue
							}
							if oks[i] == nopush {
								b.add("update request %d answered %v with push updates enabled=%v", i, oks[i], !nopush)
							}
							if tos[i] > maxTo {
								maxTo = tos[i]
							}
							if oks[i] && rr.Status == runtime.VOk && lastPull < froms[i] {
								b.add("no pull began after accepted update request %d", i)
							}
						}
						if !poll && !nopush && pulls-startPulls > total {
							b.add("%d pulls for %d requests", pulls-startPulls, total)
						}
						if nopush && !poll && pulls != startPulls {
							b.add("a refused request caused a pull")
						}
						if !poll && !nopush && firstPull >= 0 && maxTo <= firstPull && pulls-startPulls > 2 {
							b.add("%d pulls for requests that were all pending together", pulls-startPulls)
						}
						v.Outcome += fmt.Sprintf(" pulls=%d", pulls)
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk5("c05-1", []int{1, 2, 3, 4}, false, 0, []int{2}, false, false)
	mk5("c05-2", []int{1, 2, 3, 4}, false, 0, []int{2, 1}, false, false)
	mk5("c05-3", []int{1, 1, 2, 2}, false, 0, []int{1, 1, 1}, false, false)
	mk5("c05-poll", []int{1, 2, 2, 3}, true, 2, []int{1, 1}, false, false)
	mk5("c05-err", []int{1, ansErr, ansBroken, 2}, false, 0, []int{2, 1}, false, false)
	mk5("c05-early", []int{1, 2, 3}, false, 0, []int{1, 1}, true, false)
	mk5("c05-nopush", []int{1, 2}, false, 0, []int{1, 1}, false, true)
	mk5("c05-nopush-poll", []int{1, 2}, true, 1, []int{1, 1}, false, true)

	// ---- C02: the live index is never removed, superseded ones always are
	mk2 := func(name string, plan []int, updates, searches int, timers int) {
		vs.Register(&vs.Scenario{Name: name, Timers: timers, Desc: "index directories through reindexes",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: plan, push: bp(true), poll: bp(timers > 0)}
				e := newEnv(r)
				res := make([]searchRes, searches)
				var missing string
				var s *searcher.Searcher
				return &vs.Exec{
					Body: func() {
						s = e.startOne(0)
						go func() {
							for i := range res {
								vs.Point()
								vs.Quiet(func() {
									if m := e.liveMissing(r, s); m != "" && missing == "" {
										missing = m
									}
								})
								e.search(s, i, "needle", &res[i])
							}
						}()
						for i := 0; i < updates; i++ {
							s.Update()
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						if missing != "" {
							b.add("%s", missing)
						}
						for i := range res {
							if _, m := e.checkSearch(r, &res[i], "needle", 0); m != "" {
								b.add("%s", m)
							}
							v.Outcome += " " + res[i].rev
						}
						broken := 0
						for _, x := range e.events() {
							if x.Kind == evPullEnd && x.A == ansBroken {
								broken++
							}
						}
						if rr.Status == runtime.VOk {
							b.list = append(b.list, e.settle(r, s, 0, -1)...)
							if m := e.liveMissing(r, s); m != "" {
								b.add("%s", m)
							}
							if n := len(e.completeDirs()); n != 1 {
								b.add("%d complete index directories are left, expected 1", n)
							}
							if n := len(e.idxDirs()); n > 1+broken {
								b.add("%d index directories are left, expected 1 and at most %d failed builds", n, broken)
							}
						}
						v.Outcome += fmt.Sprintf(" pulls=%d", r.n)
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk2("c02-1", []int{1, 2}, 1, 1, 0)
	mk2("c02-2", []int{1, 2, 3}, 2, 2, 0)
	mk2("c02-err", []int{1, ansErr, 2, ansBroken, 3}, 1, 1, 3)
	mk2("c02-back", []int{1, 2, 1}, 1, 1, 1)

	// every failure of removing the old index
	vs.Register(&vs.Scenario{Name: "c02-fault", Desc: "one failing file-system call while the old index is removed",
		New: func() *vs.Exec {
			r := &repo{name: "a", plan: []int{1, 2, 3}, push: bp(true), poll: bp(false)}
			e := newEnv(r)
			var res [3]searchRes
			var ex searchRes
			var s *searcher.Searcher
			k, sticky, hit := -1, false, false
			return &vs.Exec{
				Body: func() {
					s = e.startOne(0)
					k = vs.Choose(24)
					sticky = vs.Choose(2) == 1
					runtime.VFault(3, k, 13, 0, 1<<runtime.VOpUnlink, sticky)
					s.Update()
					vs.Drain()
					n, _ := runtime.VFaultCount()
					hit = n > k
					runtime.VFault(0, 0, 0, 0, 0, false)
					e.search(s, 0, "needle", &res[0])
					e.excluded(s, 1, &ex)
					s.Update()
					vs.Drain()
					e.search(s, 2, "needle", &res[1])
				},
				Check: func(rr vs.Result) vs.Verdict {
					runtime.VFault(0, 0, 0, 0, 0, false)
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					var b bad
					m, x := e.checkSearch(r, &res[0], "needle", 0)
					if x != "" {
						b.add("%s", x)
					}
					if res[0].err == "" {
						if _, x := e.checkExcluded(r, &ex); x != "" {
							b.add("%s", x)
						}
					}
					if _, x := e.checkSearch(r, &res[1], "needle", m); x != "" {
						b.add("%s", x)
					}
					if m := e.liveMissing(r, s); m != "" {
						b.add("%s", m)
					}
					v.Outcome += fmt.Sprintf(" hit=%v %s %s dirs=%d", hit, res[0].rev, res[1].rev, len(e.idxDirs()))
					if len(b.list) > 0 {
						v.Bad = append(b.list, fmt.Sprintf("fault at operation %d sticky %v", k, sticky), "events: "+e.trace())
					}
					return v
				},
				Done: e.done,
			}
		}})
	_ = sort.Strings
}

func (e *env) completeDirs() []string {
	var out []string
	for _, d := range e.idxDirs() {
		if _, err := os.Stat(filepath.Join(d, "metadata.gob")); err == nil {
			out = append(out, d)
		}
	}
	return out
}

// liveMissing asks for the excluded files and a search through the public interface
// and looks for the directory that holds the live revision.  A directory that has a
// manifest, posting file, excluded-files list and every file of some revision that
// can be live must exist.
func (e *env) liveMissing(r *repo, s *searcher.Searcher) string {
	_, hi, revs := e.liveRange(r, e.nev, e.nev)
	lo := 0
	if hi > 0 {
		lo = hi - 1
	}
	if hi < 0 {
		return ""
	}
	for i := lo; i <= hi; i++ {
		tree := e.tree(r, revs[i])
		for _, d := range e.idxDirs() {
			if dirComplete(d, tree) {
				return ""
			}
		}
	}
	return fmt.Sprintf("no complete index directory of revision %v exists while the repository is being served: %s", revs[lo:], strings.ReplaceAll(e.listing(), "\n", " "))
}

func dirComplete(d string, tree map[string]string) bool {
	for _, f := range []string{"metadata.gob", "tri", "excluded_files.json"} {
		if _, err := os.Stat(filepath.Join(d, f)); err != nil {
			return false
		}
	}
	for n, c := range tree {
		if strings.ContainsRune(c, 0) {
			continue
		}
		if _, err := os.Stat(filepath.Join(d, "raw", n)); err != nil {
			return false
		}
	}
	return true
}

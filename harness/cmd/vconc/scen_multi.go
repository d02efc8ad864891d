//go:build vsched

package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"

	"hv/vs"
)

// ask sends one request to a handler inside the execution.
func ask(h http.Handler, method, target, body string) (code int, resp string, perr string) {
	protect(&perr, func() {
		var rd *strings.Reader = strings.NewReader(body)
		req := httptest.NewRequest(method, target, rd)
		if body != "" {
			req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		}
		w := httptest.NewRecorder()
		h.ServeHTTP(w, req)
		code, resp = w.Code, w.Body.String()
	})
	return
}

type apiResult struct {
	Error   string
	Results map[string]*index.SearchResponse
}

func init() {
	// ---- C06: startup and updates of several repositories under the limiter
	mk6 := func(name string, limit int, plans [][]int, updates bool, timers int) {
		ticks := timers
		if len(plans) > 3 {
			ticks = 400
		}
		vs.Register(&vs.Scenario{Name: name, Timers: ticks, Limit: 40000, FreeBlock: false, Clock: len(plans) > 3, Desc: fmt.Sprintf("%d repositories, at most %d indexing at once", len(plans), limit),
			New: func() *vs.Exec {
				var rs []*repo
				for i, p := range plans {
					rs = append(rs, &repo{name: string(rune('a' + i)), plan: p, push: bp(updates), poll: bp(timers > 0)})
					if len(plans) > 3 { // they overlap because pulls take time
						d := time.Duration(i%4+1) * time.Minute
						rs[i].slow = []time.Duration{d, d, d}
					}
				}
				e := newEnv(rs...)
				e.limit = limit
				e.cfg.MaxConcurrentIndexers = limit
				var ss map[string]*searcher.Searcher
				var errs map[string]error
				var perr string
				started := false
				return &vs.Exec{
					Body: func() {
						protect(&perr, func() {
							if updates {
								ss, errs = e.start()
							} else {
								ss, errs, _ = searcher.MakeAll(e.cfg)
							}
						})
						started = true
						if updates {
							for _, r := range rs {
								if s := ss[r.name]; s != nil {
									go s.Update()
								}
							}
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						if perr != "" {
							b.add("%s", perr)
						}
						if e.over != "" {
							b.add("%s", e.over)
						}
						if rr.Status == runtime.VOk {
							if !started {
								b.add("startup never finished")
							} else {
								for _, r := range rs {
									b.list = append(b.list, e.checkStarted(r, ss, errs)...)
								}
								// every slot was given back and every wish served
								if updates && timers == 0 {
									for _, r := range rs {
										if ss[r.name] != nil && r.n < 2 {
											b.add("the update of %s was never carried out", r.name)
										}
									}
								}
							}
						}
						v.Outcome += fmt.Sprintf(" busy=%d", e.busy)
						for _, r := range rs {
							v.Outcome += fmt.Sprintf(" %s:%d", r.name, r.n)
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	E, B := ansErr, ansBroken
	mk6("c06-start-2-1", 1, [][]int{{1}, {1}}, false, 0)
	mk6("c06-start-3-1", 1, [][]int{{E}, {1}, {B}}, false, 0)
	mk6("c06-start-3-2", 2, [][]int{{1}, {1}, {1}}, false, 0)
	mk6("c06-upd-2-1", 1, [][]int{{1, 2}, {1, 2}}, true, 0)
	mk6("c06-upd-2-1e", 1, [][]int{{1, E, 2}, {1, B, 2}}, true, 0)
	mk6("c06-upd-3-2", 2, [][]int{{1, 2}, {1, 2}, {1, E}}, true, 0)
	many := func(n int, f func(i int) []int) (l [][]int) {
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return
	}
	mk6("c06-start-12-9", 9, many(12, func(i int) []int { return []int{[]int{1, 1, E, B}[i%4]} }), false, 0)
	mk6("c06-start-20-3", 3, many(20, func(i int) []int { return []int{[]int{1, 1, E, 1, B}[i%5]} }), false, 0)
	mk6("c06-upd-12-9", 9, many(12, func(i int) []int { return [][]int{{1, 2}, {1, E}, {1, B}}[i%3] }), true, 0)
	mk6("c06-upd-20-3", 3, many(20, func(i int) []int { return [][]int{{1, 2}, {1, E}, {1, B}}[i%3] }), true, 0)
	mk6("c06-poll-2-1", 1, [][]int{{1, 1, 2}, {1, 2, E}}, true, 2)

	// ---- C07: every history of pull outcomes of one repository beside a healthy one
	mk7 := func(name string, depth int) {
		vs.Register(&vs.Scenario{Name: name, Timers: 2 * depth, Desc: "pull outcomes of two repositories",
			New: func() *vs.Exec {
				alpha := []int{2, 1, E, B, ansTorn}
				a := &repo{name: "a", push: bp(true), poll: bp(false)}
				c := &repo{name: "c", push: bp(true), poll: bp(false)}
				e := newEnv(a, c)
				var b bad
				var ss map[string]*searcher.Searcher
				var errs map[string]error
				desc := ""
				return &vs.Exec{
					Body: func() {
						rev := 1
						for i := 0; i <= depth; i++ {
							x := alpha[vs.Choose(len(alpha))]
							if x == 2 {
								rev++
								x = rev
							} else if x == 1 {
								x = rev
							} else if x == ansTorn {
								rev++
								x = ansTorn - rev
							}
							a.plan = append(a.plan, x)
						}
						fail2 := vs.Choose(3)
						for i := 0; i <= depth; i++ {
							switch {
							case fail2 == 1 && i == 0, fail2 == 2 && i == 1:
								c.plan = append(c.plan, E)
							default:
								c.plan = append(c.plan, i+1)
							}
						}
						desc = fmt.Sprint(a.plan, c.plan)
						perr := ""
						protect(&perr, func() { ss, errs = e.start() })
						if perr != "" {
							b.add("startup: %s", perr)
							return
						}
						for _, r := range e.repos {
							b.list = append(b.list, e.checkStarted(r, ss, errs)...)
						}
						for i := 1; i <= depth; i++ {
							for _, r := range e.repos {
								s := ss[r.name]
								if s == nil {
									continue
								}
								n := r.n
								s.Update()
								vs.Drain()
								if r.n != n+1 {
									b.add("the update of %s caused %d pulls", r.name, r.n-n)
								}
								good := 0
								for _, x := range r.plan[:r.n] {
									if x > 0 {
										good = x
									}
								}
								var sr searchRes
								e.search(s, 0, "needle", &sr)
								if sr.err != "" {
									b.add("search of %s after pulls %v: %s", r.name, r.plan[:r.n], sr.err)
								} else if sr.rev != revName(good) || sr.got != expect(e.tree(r, good), "needle") {
									b.add("search of %s after pulls %v shows %s %q, last good revision is %d", r.name, r.plan[:r.n], sr.rev, sr.got, good)
								}
								if x := e.excludedNow(s); x != expectExcluded(e.tree(r, good)) {
									b.add("excluded files of %s after pulls %v are %q", r.name, r.plan[:r.n], x)
								}
							}
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status) + fmt.Sprintf(" served=%d", len(ss))}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "history "+desc)
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk7("c07-2", 2)
	mk7("c07-3", 3)
	mk7("c07-4", 4)

	// C07 under interleavings: the failing repository does not block the other one
	vs.Register(&vs.Scenario{Name: "c07-inter", Timers: 4, Desc: "a failing and a healthy repository polling side by side",
		New: func() *vs.Exec {
			a := &repo{name: "a", plan: []int{1, E, B, 2}, push: bp(true), poll: bp(true)}
			c := &repo{name: "c", plan: []int{1, 2, 2}, push: bp(true), poll: bp(false)}
			e := newEnv(a, c)
			e.cfg.MaxConcurrentIndexers = 1
			var ss map[string]*searcher.Searcher
			var res [2]searchRes
			return &vs.Exec{
				Body: func() {
					ss, _ = e.start()
					go e.search(ss["a"], 0, "needle", &res[0])
					go func() {
						ss["c"].Update()
						e.search(ss["c"], 1, "needle", &res[1])
					}()
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					var b bad
					for i, r := range e.repos {
						if res[i].to == 0 {
							b.add("search of %s never finished", r.name)
							continue
						}
						if _, x := e.checkSearch(r, &res[i], "needle", 0); x != "" {
							b.add("%s", x)
						}
						v.Outcome += " " + res[i].rev
						if rr.Status == runtime.VOk {
							b.list = append(b.list, e.settle(r, ss[r.name], 0, -1)...)
						}
					}
					if rr.Status == runtime.VOk && c.n < 2 {
						b.add("the healthy repository's update was never carried out")
					}
					v.Outcome += fmt.Sprintf(" pulls=%d,%d", a.n, c.n)
					if len(b.list) > 0 {
						v.Bad = append(b.list, "events: "+e.trace())
					}
					return v
				},
				Done: e.done,
			}
		}})

	// ---- C08: search over several repositories
	mk8 := func(name string, kinds []string, repos string, par int, reindex bool) {
		vs.Register(&vs.Scenario{Name: name, Desc: "API search over repositories " + strings.Join(kinds, ","),
			New: func() *vs.Exec {
				var rs []*repo
				for i := range kinds {
					rs = append(rs, &repo{name: string(rune('a' + i)), plan: []int{1, 2}, push: bp(true), poll: bp(false)})
				}
				e := newEnv(rs...)
				e.tree = func(r *repo, rev int) map[string]string {
					if kinds[r.id] == "empty" {
						return map[string]string{"a.txt": "nothing here\n"}
					}
					return defaultTree(r, rev)
				}
				h := http.NewServeMux()
				codes := make([]int, par)
				bodies := make([]string, par)
				perrs := make([]string, par)
				live := 0
				base := 0
				return &vs.Exec{
					Body: func() {
						ss, _ := e.start()
						api.Setup(h, ss, 5000)
						for i, k := range kinds {
							if k == "fail" {
								e.damage(rs[i])
							}
						}
						_ = base
						for p := 0; p < par; p++ {
							go func(p int) {
								codes[p], bodies[p], perrs[p] = ask(h, "GET", "/api/v1/search?repos="+url.QueryEscape(repos)+"&q=needle", "")
							}(p)
						}
						if reindex {
							ss["a"].Update()
						}
						_ = live
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						// the pollers are the only goroutines left
						if rr.Status == runtime.VOk && rr.Blocked > len(rs) {
							b.add("%d goroutines are left blocked besides the %d pollers", rr.Blocked-len(rs), len(rs))
						}
						want := map[string]*repo{}
						anyFail := false
						for _, n := range strings.Split(repos, ",") {
							for i, r := range rs {
								if n == r.name || repos == "*" {
									want[r.name] = r
									if kinds[i] == "fail" {
										anyFail = true
									}
								}
							}
						}
						for p := 0; p < par; p++ {
							if perrs[p] != "" {
								b.add("%s", perrs[p])
								continue
							}
							if codes[p] == 0 {
								b.add("request %d never finished", p)
								continue
							}
							var ar apiResult
							if err := json.Unmarshal([]byte(bodies[p]), &ar); err != nil {
								b.add("answer %q: %v", bodies[p], err)
								continue
							}
							if ar.Error != "" {
								v.Outcome += " error"
								if !anyFail {
									b.add("unexpected error %s", ar.Error)
								}
								continue
							}
							if anyFail {
								b.add("a failing repository is silently missing: %s", bodies[p])
							}
							v.Outcome += fmt.Sprintf(" ok%d", len(ar.Results))
							for n, x := range ar.Results {
								r := want[n]
								if r == nil {
									b.add("unasked repository %s in the answer", n)
									continue
								}
								rev := parseRev(x.Revision)
								if rev < 1 || (rev > 1 && !(reindex && n == "a")) || rev > 2 {
									b.add("repository %s labelled %s", n, x.Revision)
									continue
								}
								if render(x) != expect(e.tree(r, rev), "needle") {
									b.add("repository %s returned %q", n, render(x))
								}
							}
							for n, r := range want {
								if expect(e.tree(r, 1), "needle") != "" && ar.Results[n] == nil {
									b.add("repository %s is missing from the answer", n)
								}
							}
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk8("c08-2", []string{"ok", "ok"}, "a,b", 1, false)
	mk8("c08-3", []string{"ok", "empty", "ok"}, "*", 1, false)
	mk8("c08-3b", []string{"ok", "ok", "ok"}, "c,a,b", 1, false)
	mk8("c08-fail1", []string{"ok", "fail"}, "a,b", 1, false)
	mk8("c08-fail2", []string{"fail", "ok", "fail"}, "a,b,c", 1, false)
	mk8("c08-fail3", []string{"fail", "empty"}, "*", 1, false)
	mk8("c08-fail5", []string{"fail", "fail", "fail", "fail", "fail"}, "*", 1, false)
	kinds := func(l ...string) (r []string) {
		for len(r)+len(l) <= 20 {
			r = append(r, l...)
		}
		return
	}
	mk8("c08-many", kinds("ok", "ok", "empty", "ok"), "*", 1, false)
	mk8("c08-manyfail", kinds("fail"), "*", 1, false)
	mk8("c08-manymix", kinds("ok", "fail", "empty", "ok", "ok"), "*", 1, false)
	mk8("c08-par", []string{"ok", "ok"}, "*", 2, false)
	mk8("c08-reindex", []string{"ok", "ok"}, "a,b", 1, true)

	// ---- C09: readiness
	// the path of a request, which may start with a method
	method := func(q string) (string, string) {
		if m, u, ok := strings.Cut(q, " "); ok {
			return m, u
		}
		return "GET", q
	}
	pathOf := func(q string) string {
		_, t := method(q)
		u, err := url.Parse(t)
		must(err)
		return u.Path
	}
	mk9 := func(name string, uri string, reqs []string) {
		vs.Register(&vs.Scenario{Name: name, Desc: "requests against the switch to ready",
			New: func() *vs.Exec {
				r := &repo{name: "a", plan: []int{1}, push: bp(true), poll: bp(false)}
				e := newEnv(r)
				e.cfg.HealthCheckURI = uri
				n := len(reqs)
				codes := make([]int, n)
				bodies := make([]string, n)
				perrs := make([]string, n)
				froms := make([]int, n)
				tos := make([]int, n)
				want := make([]string, n)
				wcode := make([]int, n)
				var serr error
				swi, swr := 0, 0
				return &vs.Exec{
					Body: func() {
						var ss map[string]*searcher.Searcher
						ss, _ = e.start()
						ws := web.Start(e.cfg, "127.0.0.1:-1", false)
						for p := 0; p < 2; p++ {
							go func(p int) {
								for i := p; i < n; i += 2 {
									e.log(evCall, 0, i, 0)
									froms[i] = e.now()
									m, u := method(reqs[i])
									codes[i], bodies[i], perrs[i] = ask(ws, m, u, "")
									e.log(evRet, 0, i, codes[i])
									tos[i] = e.now()
								}
							}(p)
						}
						swi = e.now()
						serr = ws.ServeWithIndex(ss)
						swr = e.now()
						_ = serr
						// the fully ready server's own answers
						vs.Quiet(func() {
							for i := range reqs {
								m, u := method(reqs[i])
								wcode[i], want[i], _ = ask(ws, m, u, "")
							}
						})
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						for i := range reqs {
							health := pathOf(reqs[i]) == uri
							if perrs[i] != "" || tos[i] == 0 {
								b.add("request %s failed: %s", reqs[i], perrs[i])
								continue
							}
							v.Outcome += fmt.Sprintf(" %d", codes[i])
							if health {
								if codes[i] != 200 {
									b.add("%s answered %d", reqs[i], codes[i])
								}
								if wcode[i] != 200 {
									b.add("%s answered %d when ready", reqs[i], wcode[i])
								}
								if bodies[i] != want[i] {
									b.add("%s answered %q and, when ready, %q", reqs[i], bodies[i], want[i])
								}
								continue
							}
							if codes[i] == 503 {
								if swr > 0 && froms[i] >= swr {
									b.add("%s answered 503 after the server was ready", reqs[i])
								}
								for j := range reqs {
									if j != i && pathOf(reqs[j]) != uri && codes[j] != 503 && tos[j] > 0 && tos[j] <= froms[i] {
										b.add("%s answered 503 after %s had been served", reqs[i], reqs[j])
									}
								}
								continue
							}
							if tos[i] <= swi {
								b.add("%s answered %d before the indexes were handed over", reqs[i], codes[i])
							}
							if codes[i] != wcode[i] || bodies[i] != want[i] {
								b.add("%s answered %d %q, the ready server answers %d %q", reqs[i], codes[i], bodies[i], wcode[i], want[i])
							}
							if wcode[i] == 200 && strings.Contains(reqs[i], "v1/search?") && !strings.Contains(want[i], "needle a r1") {
								b.add("the ready server answers %q", want[i])
							}
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	mk9("c09-1", "/healthz", []string{"/healthz", "/api/v1/search?repos=*&q=needle"})
	mk9("c09-2", "/healthz", []string{"/api/v1/search?repos=a&q=needle", "/api/v1/repos", "/healthz", "/"})
	mk9("c09-3", "/healthz", []string{"/api/v1/excludes?repo=a", "/nosuch", "/api/v1/search?repos=a&q=needle", "/healthz"})
	mk9("c09-4", "/healthz", []string{"POST /healthz", "/healthzfoo", "/healthz?x=1", "/healthz/", "HEAD /healthz", "/x/healthz"})
	mk9("c09-5", "/a/b c", []string{"/healthz", "/a/b%20c", "/a", "/a/b%20c?q", "/a/b+c", "OPTIONS /a/b%20c"})
	mk9("c09-6", "/", []string{"/", "/open_search.xml", "/?q=x", "/api/v1/repos"})
	mk9("c09-7", "/api/v1/search", []string{"/api/v1/search?repos=a&q=needle", "/api/v1/repos", "POST /api/v1/search", "/excluded_files.html"})

	// ---- D03: startup on existing index directories
	mkd := func(name string, variants []string, nrepos int, sameURL bool, quick bool) {
		vs.Register(&vs.Scenario{Name: name, Limit: 40000, Desc: "startup on every combination of existing index directories",
			New: func() *vs.Exec {
				var rs []*repo
				for i := 0; i < nrepos; i++ {
					r := &repo{name: string(rune('a' + i)), plan: []int{1}, push: bp(true), poll: bp(false)}
					if i == 0 && !sameURL {
						r.auto = []string{"a.txt"}
					}
					if sameURL {
						r.url = "fake://same"
					}
					rs = append(rs, r)
				}
				e := newEnv(rs...)
				if sameURL {
					e.tree = func(r *repo, rev int) map[string]string { return defaultTree(rs[0], rev) }
				}
				e.cfg.MaxConcurrentIndexers = 2
				var ss map[string]*searcher.Searcher
				var errs map[string]error
				var perr string
				pre := map[string]string{}
				ino := map[string]uint64{}
				now := map[string]uint64{}
				var ds, started, later []string
				finished := false
				desc := ""
				return &vs.Exec{
					Body: func() {
						// up to len(slots) pre-existing directories
						for slot := 0; slot < 2; slot++ {
							k := vs.Choose(len(variants))
							desc += " " + variants[k]
							vs.Quiet(func() {
								d := e.plant(slot, variants[k], rs)
								if d != "" {
									pre[d] = variants[k]
									ino[d] = inode(filepath.Join(d, "tri"))
								}
							})
						}
						os.WriteFile(filepath.Join(e.db, "keep.txt"), []byte("x"), 0644)
						for _, d := range untouched {
							os.MkdirAll(filepath.Join(e.db, d), 0755)
						}
						if quick {
							vs.Freeze(true)
						}
						protect(&perr, func() {
							var err error
							ss, errs, err = searcher.MakeAll(e.cfg)
							must(err)
						})
						if perr != "" {
							return
						}
						vs.Freeze(true)
						vs.Drain()
						for _, r := range rs {
							started = append(started, e.checkStarted(r, ss, errs)...)
						}
						finished = true
						ds = e.idxDirs()
						for d := range pre {
							now[d] = inode(filepath.Join(d, "tri"))
						}
						if len(started) == 0 {
							later = e.reindexEach(rs, ss)
						}
						vs.Freeze(false)
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: statusName(rr.Status)}
						var b bad
						if perr != "" {
							b.add("startup: %s", perr)
						}
						if rr.Status == runtime.VOk && perr == "" && !finished {
							b.add("startup never finished")
						}
						if finished && perr == "" {
							b.list = append(b.list, started...)
							if len(ds) != nrepos {
								b.add("%d index directories for %d repositories", len(ds), nrepos)
							}
							matching, reused := 0, 0
							for d, k := range pre {
								fits := k == "fit0" || k == "fit1" && nrepos > 1
								if fits {
									matching++
								}
								if i := now[d]; i != 0 && i == ino[d] {
									if !fits {
										b.add("the %s directory was kept", k)
									}
									reused++
								}
							}
							uniq := map[string]bool{}
							for _, k := range pre {
								if k == "fit0" || k == "fit1" && nrepos > 1 {
									uniq[k] = true
								}
							}
							wantReuse := len(uniq)
							if sameURL {
								wantReuse = matching
								if wantReuse > nrepos {
									wantReuse = nrepos
								}
							}
							if reused != wantReuse {
								b.add("%d directories were reused, %d fit", reused, wantReuse)
							}
							if x, err := os.ReadFile(filepath.Join(e.db, "keep.txt")); err != nil || string(x) != "x" {
								b.add("an unrelated file was touched")
							}
							for _, d := range untouched {
								if _, err := os.Stat(filepath.Join(e.db, d)); err != nil {
									b.add("the unrelated directory %s was removed", d)
								}
							}
							v.Outcome += fmt.Sprintf(" reused=%d", reused)
							// reindexing one repository must not disturb the other
							b.list = append(b.list, later...)
						}
						if len(b.list) > 0 {
							v.Bad = append(b.list, "directories:"+desc, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	all := []string{"none", "fit0", "fit1", "oldrev", "otherurl", "nomanifest", "empty", "garbled", "truncated", "emptymanifest",
		"revprefix", "revlonger", "revcase", "urlprefix", "urllonger", "urlcase", "swapped",
		"dots", "special", "morespecial", "nospecial", "auto", "moreauto", "noauto"}
	mkd("d03-seq", all, 2, false, true)
	mkd("d03-inter", []string{"fit0", "none", "fit1"}, 2, false, false)
	mkd("d03-same", []string{"fit0", "none", "oldrev"}, 2, true, false)
	_ = sort.Strings
}

// reindexEach updates one repository after the other and compares what all serve:
// an index that two repositories share would be taken away from one of them.
func (e *env) reindexEach(rs []*repo, ss map[string]*searcher.Searcher) []string {
	var b bad
	at := make([]int, len(rs))
	for i := range at {
		at[i] = 1
	}
	for i, r := range rs {
		r.plan = append(r.plan, 2)
		ss[r.name].Update()
		vs.Drain()
		at[i] = 2
		for j, q := range rs {
			var sr searchRes
			e.search(ss[q.name], 80, "needle", &sr)
			if sr.err != "" {
				b.add("after the update of %s, search of %s: %s", r.name, q.name, sr.err)
			} else if want := expect(e.tree(q, at[j]), "needle"); sr.got != want || sr.rev != revName(at[j]) {
				b.add("after the update of %s, %s serves %s %q, want %q", r.name, q.name, sr.rev, sr.got, want)
			}
		}
		if n := len(e.idxDirs()); n != len(rs) {
			b.add("%d index directories after the update of %s", n, r.name)
		}
	}
	return b.list
}

func inode(p string) uint64 {
	fi, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return inoOf(fi)
}

// plant makes an index directory of the given kind.
func (e *env) plant(slot int, kind string, rs []*repo) string {
	if kind == "none" {
		return ""
	}
	d := filepath.Join(e.db, fmt.Sprintf("idx-%016x", slot+1))
	r := rs[0]
	url, rev, n := r.url, "r1", 1
	switch kind {
	case "fit1":
		if len(rs) > 1 {
			r = rs[1]
		}
		url = r.url
	case "oldrev":
		rev, n = "r0", 2
	case "otherurl":
		url = "fake://elsewhere"
	case "revprefix":
		rev, n = "r", 2
	case "revlonger":
		rev, n = "r12", 2
	case "revcase":
		rev, n = "R1", 2
	case "urlprefix":
		url, n = url[:len(url)-1], 2
	case "urllonger":
		url, n = url+"/x", 2
	case "urlcase":
		url, n = strings.ToUpper(url), 2
	case "swapped":
		url, rev, n = rev, url, 2
	case "empty":
		must(os.MkdirAll(d, 0755))
		return d
	}
	src := filepath.Join(e.dir, fmt.Sprintf("src%d", slot))
	writeTree(src, e.tree(r, n))
	opt := &index.IndexOptions{SpecialFiles: []string{".fake"}, ExcludeDotFiles: r.dot, AutoGeneratedFiles: r.auto}
	switch kind {
	case "dots":
		opt.ExcludeDotFiles = !r.dot
	case "special":
		opt.SpecialFiles = []string{".xake"}
	case "morespecial":
		opt.SpecialFiles = []string{".fake", "b.txt"}
	case "nospecial":
		opt.SpecialFiles = nil
	case "auto":
		opt.AutoGeneratedFiles = []string{"b.txt"}
	case "moreauto":
		opt.AutoGeneratedFiles = []string{"a.txt", "b.txt"}
	case "noauto":
		opt.AutoGeneratedFiles = nil
	}
	_, err := index.Build(opt, d, src, url, rev)
	must(err)
	m := filepath.Join(d, "metadata.gob")
	switch kind {
	case "nomanifest":
		must(os.Remove(m))
	case "garbled":
		must(os.WriteFile(m, []byte("not a manifest at all"), 0644))
	case "emptymanifest":
		must(os.WriteFile(m, nil, 0644))
	case "truncated":
		b, err := os.ReadFile(m)
		must(err)
		must(os.WriteFile(m, b[:len(b)/2], 0644))
	}
	return d
}

// damage makes every later search of the repository's raw files fail.
func (e *env) damage(r *repo) {
	vs.Quiet(func() {
		for _, d := range e.idxDirs() {
			if ref, err := index.Read(d); err == nil && ref.Url == r.url {
				fs, _ := filepath.Glob(filepath.Join(d, "raw", "*"))
				for _, f := range fs {
					must(os.WriteFile(f, []byte("not gzip"), 0644))
				}
			}
		}
	})
}

// checkStarted judges what startup made of one repository.
func (e *env) checkStarted(r *repo, ss map[string]*searcher.Searcher, errs map[string]error) []string {
	var b bad
	first := r.plan[0]
	s, err := ss[r.name], errs[r.name]
	if first < 0 {
		if s != nil {
			b.add("repository %s failed to start but is served", r.name)
		}
		if err == nil {
			b.add("the failure of repository %s is not reported", r.name)
		}
		return b.list
	}
	if s == nil || err != nil {
		b.add("repository %s is not served (error %v)", r.name, err)
		return b.list
	}
	var sr searchRes
	e.search(s, 90+r.id, "needle", &sr)
	if sr.err != "" {
		b.add("search of %s: %s", r.name, sr.err)
		return b.list
	}
	n := parseRev(sr.rev)
	ok := false
	for _, x := range r.plan {
		ok = ok || x == n
	}
	if !ok || sr.got != expect(e.tree(r, n), "needle") {
		b.add("repository %s serves %s: %q, want %q", r.name, sr.rev, sr.got, expect(e.tree(r, n), "needle"))
	}
	return b.list
}

func (e *env) excludedNow(s *searcher.Searcher) string {
	var out string
	var perr string
	protect(&perr, func() {
		names, err := excludedNames(s.GetExcludedFiles())
		if err != nil {
			out = "unreadable: " + err.Error()
			return
		}
		out = strings.Join(names, ",")
	})
	if perr != "" {
		return perr
	}
	return out
}

// untouched: directories beside the indexes that are not indexes
var untouched = []string{filepath.Join("other", "idx-sub"), "idx5", "idxold", "xidx-1", "vcs-old"}

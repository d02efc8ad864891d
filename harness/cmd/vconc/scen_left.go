//go:build vsched

package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"

	"hv/vs"
)

// R01: goroutines, open files, mappings and files that are left when work that
// overlapped has finished.

// held lists the open files and the mappings below dir, once nothing but what is
// referred to is open any more, or tries have been made in vain.
func held(dir string, nfds, nmaps int) (fds, maps []string) {
	for try := 1; try < 40; try++ {
		runtime.GC()
		time.Sleep(time.Duration(try) * time.Millisecond)
		fds, maps = nil, nil
		fs, _ := os.ReadDir("/proc/self/fd")
		for _, f := range fs {
			if p, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
				fds = append(fds, filepath.Base(p))
			}
		}
		b, err := os.ReadFile("/proc/self/maps")
		must(err)
		for _, x := range strings.Split(string(b), "\n") {
			if i := strings.Index(x, dir+"/"); i >= 0 {
				maps = append(maps, filepath.Base(x[i:]))
			}
		}
		if len(fds) <= nfds && len(maps) <= nmaps {
			break
		}
	}
	return
}

var perFds, perMaps = -1, -1

// measure sets what one open index holds.
func measure() {
	if perFds >= 0 {
		return
	}
	d := filepath.Join(scratchBase(), "measure")
	src := filepath.Join(d, "src")
	writeTree(src, map[string]string{"a.txt": "needle\n"})
	os.Setenv("TMPDIR", d)
	ref, err := index.Build(&index.IndexOptions{}, filepath.Join(d, "idx"), src, "u", "r")
	must(err)
	ix, err := ref.Open()
	must(err)
	f, m := held(d, 1, 1)
	perFds, perMaps = len(f), len(m)
	must(ix.Close())
	os.RemoveAll(d)
}

// checkLeft says what n served repositories hold in excess.
func (e *env) checkLeft(n int) (o []string) {
	fds, maps := held(e.dir, perFds*n, perMaps*n)
	if len(fds) > perFds*n {
		o = append(o, fmt.Sprint("open files: ", fds))
	}
	if len(maps) > perMaps*n {
		o = append(o, fmt.Sprint("mapped files: ", maps))
	}
	es, _ := os.ReadDir(filepath.Join(e.dir, "tmp"))
	for _, x := range es {
		o = append(o, "temporary file "+x.Name())
	}
	if d := len(e.idxDirs()); d > n {
		o = append(o, fmt.Sprintf("%d index directories", d))
	}
	return
}

type answer func(r *http.Request) (*http.Response, error)

func (a answer) RoundTrip(r *http.Request) (*http.Response, error) { return a(r) }

// body counts whether it was closed.
type body struct {
	io.Reader
	n *int
}

func (b *body) Close() error { *b.n++; return nil }

func init() {
	// searches of every kind overlap updates of every outcome
	over := func(name string, plan []int, updates int, pats []string) {
		vs.Register(&vs.Scenario{Name: name, Desc: "searches of one repository while it is reindexed, then what is left",
			New: func() *vs.Exec {
				measure()
				r := &repo{name: "a", plan: plan, push: bp(true), poll: bp(false)}
				e := newEnv(r)
				before := 0
				var s *searcher.Searcher
				return &vs.Exec{
					Body: func() {
						s = e.startOne(0)
						before = runtime.VLive() - 1
						for i := range pats {
							go func(p string) {
								e.log(evCall, -1, 0, 0)
								var x string
								protect(&x, func() {
									if p == "" {
										s.GetExcludedFiles()
										return
									}
									s.Search(p, &index.SearchOptions{})
								})
								e.log(evRet, -1, 0, 0)
							}(pats[i])
						}
						for i := 0; i < updates; i++ {
							s.Update()
						}
					},
					Check: func(rr vs.Result) vs.Verdict {
						v := vs.Verdict{Outcome: fmt.Sprintf("%s pulls=%d", statusName(rr.Status), r.n)}
						if rr.Status != runtime.VOk {
							return v
						}
						if rr.Blocked > before {
							v.Bad = append(v.Bad, fmt.Sprintf("%d goroutines are waiting, %d after startup", rr.Blocked, before))
						}
						v.Bad = append(v.Bad, e.checkLeft(1)...)
						runtime.KeepAlive(s)
						if len(v.Bad) > 0 {
							v.Bad = append(v.Bad, "events: "+e.trace())
						}
						return v
					},
					Done: e.done,
				}
			}})
	}
	over("r01-over", []int{1, 2}, 1, []string{"needle", "a("})
	over("r01-over2", []int{1, 2, 3}, 2, []string{"needle", ""})
	over("r01-overbad", []int{1, ansBroken, 2}, 2, []string{"needle"})

	// startups of several repositories, with every outcome of each
	vs.Register(&vs.Scenario{Name: "r01-start", Limit: 400000, Desc: "startup of several repositories with every outcome, then searches of all of them",
		New: func() *vs.Exec {
			measure()
			var rs []*repo
			for i := 0; i < 4; i++ {
				rs = append(rs, &repo{name: string(rune('a' + i)), plan: []int{1}, push: bp(true), poll: bp(false)})
			}
			e := newEnv(rs...)
			live, before := 0, 0
			desc := ""
			var ss map[string]*searcher.Searcher
			var b bad
			return &vs.Exec{
				Body: func() {
					for _, r := range rs[1:] {
						r.plan[0] = []int{1, ansErr, ansBroken, ansTorn - 1}[vs.Choose(4)]
						desc += fmt.Sprint(r.name, r.plan, " ")
					}
					e.cfg.MaxConcurrentIndexers = 1 + vs.Choose(2)
					kind := vs.Choose(5)
					desc += fmt.Sprint("indexers ", e.cfg.MaxConcurrentIndexers, " request ", kind)
					ss, _ = e.start()
					live = len(ss)
					before = runtime.VLive() - 1
					if before > live {
						b.add("%d goroutines wait for %d repositories", before, live)
					}
					ws := web.Start(e.cfg, "127.0.0.1:-1", false)
					ws.ServeWithIndex(ss)
					q := []string{"?repos=*&q=needle", "?repos=*&q=a(", "?repos=*&q=needle&files=a(", "?repos=a,a,a,b,c,d&q=needle&rng=:1", "?repos=nothere&q=needle"}[kind]
					code := 0
					for i := 0; i < 3; i++ {
						vs.Quiet(func() { code, _, _ = ask(ws, "GET", "/api/v1/search"+q, "") })
					}
					vs.Drain()
					desc += fmt.Sprint(" status ", code)
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: fmt.Sprintf("%s live=%d", statusName(rr.Status), live)}
					if rr.Status != runtime.VOk {
						return v
					}
					if rr.Blocked > before {
						b.add("%d goroutines are waiting after the requests, %d before", rr.Blocked, before)
					}
					v.Bad = append(b.list, e.checkLeft(live)...)
					runtime.KeepAlive(ss)
					if len(v.Bad) > 0 {
						v.Bad = append(v.Bad, desc)
					}
					return v
				},
				Done: e.done,
			}
		}})

	// requests of one failing search over many repositories at once
	vs.Register(&vs.Scenario{Name: "r01-api", Desc: "schedules of a failing and of a successful search of three repositories",
		New: func() *vs.Exec {
			measure()
			var rs []*repo
			for i := 0; i < 3; i++ {
				rs = append(rs, &repo{name: string(rune('a' + i)), plan: []int{1}, push: bp(true), poll: bp(false)})
			}
			e := newEnv(rs...)
			before := 0
			return &vs.Exec{
				Body: func() {
					ss, _ := e.start()
					before = runtime.VLive() - 1
					ws := web.Start(e.cfg, "127.0.0.1:-1", false)
					ws.ServeWithIndex(ss)
					for _, q := range []string{"a(", "needle"} {
						ask(ws, "GET", "/api/v1/search?repos=*&q="+q, "")
					}
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: statusName(rr.Status)}
					if rr.Status == runtime.VOk && rr.Blocked > before {
						v.Bad = append(v.Bad, fmt.Sprintf("%d goroutines are waiting after the requests, %d before", rr.Blocked, before))
					}
					return v
				},
				Done: e.done,
			}
		}})

	// the client's two requests at once
	kinds := []string{"ok", "refused", "status", "garbage", "null", "error"}
	vs.Register(&vs.Scenario{Name: "r01-client", Desc: "the command line client's two requests, with every pair of outcomes",
		New: func() *vs.Exec {
			desc := ""
			closed, opened := 0, 0
			var err error
			returned := false
			wantErr := false
			return &vs.Exec{
				Body: func() {
					a, b := kinds[vs.Choose(len(kinds))], kinds[vs.Choose(len(kinds)-1)]
					desc = "search " + a + ", repositories " + b
					wantErr = a != "ok" || b != "ok"
					old := http.DefaultTransport
					defer func() { http.DefaultTransport = old }()
					http.DefaultTransport = answer(func(q *http.Request) (*http.Response, error) {
						vs.Point()
						k, good := a, `{"Results":{"r":{"Matches":null,"FilesWithMatch":0,"Revision":"x"}}}`
						if strings.HasSuffix(q.URL.Path, "/repos") {
							k, good = b, `{"r":{"url":"u"}}`
						}
						if k == "refused" {
							return nil, errors.New("refused")
						}
						opened++
						text := map[string]string{"ok": good, "status": good, "garbage": "<html>", "null": "null", "error": `{"Error":"no"}`}[k]
						code := 200
						if k == "status" {
							code = 500
						}
						return &http.Response{StatusCode: code, Status: "x", Header: http.Header{}, Body: &body{strings.NewReader(text), &closed}, Request: q}, nil
					})
					_, _, err = client.SearchAndLoadRepos(&client.Config{Host: "h:1"}, "p", "*", "", 2, false, false)
					returned = true
				},
				Check: func(rr vs.Result) vs.Verdict {
					v := vs.Verdict{Outcome: fmt.Sprintf("%s err=%v", statusName(rr.Status), err != nil)}
					if rr.Status != runtime.VOk {
						return v
					}
					if !returned {
						v.Bad = append(v.Bad, "the client never returns")
					}
					if rr.Blocked > 0 {
						v.Bad = append(v.Bad, fmt.Sprintf("%d goroutines are waiting after the client returned", rr.Blocked))
					}
					if closed < opened {
						v.Bad = append(v.Bad, fmt.Sprintf("%d of %d response bodies were closed", closed, opened))
					}
					if wantErr != (err != nil) {
						v.Bad = append(v.Bad, fmt.Sprint("the error is ", err))
					}
					if len(v.Bad) > 0 {
						v.Bad = append(v.Bad, desc)
					}
					return v
				},
				Done: func() {},
			}
		}})
}

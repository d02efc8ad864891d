package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"

	"hv/bx"
)

// ---------------------------------------------------------------- a scripted server

type reply struct {
	name string
	code int
	body string
	cut  bool // announces more than it sends
	drop bool // closes the connection instead of answering
	ok   bool
	slow int // bytes sent at once, 0: all
}

type asked struct {
	path, host string
	form       map[string][]string
	hdr        http.Header
	method     string
	bad        string
}

type scripted struct {
	srv   *httptest.Server
	lck   sync.Mutex
	got   []asked
	say   map[string]reply
	first string // path whose answer is complete before the other's begins
	done  chan struct{}
}

func newScripted() *scripted {
	s := &scripted{}
	s.srv = httptest.NewUnstartedServer(http.HandlerFunc(s.handle))
	s.srv.Config.ErrorLog = nil
	s.srv.Start()
	return s
}

func (s *scripted) addr() string { return strings.TrimPrefix(s.srv.URL, "http://") }

func (s *scripted) script(search, repos reply, first string) {
	s.lck.Lock()
	defer s.lck.Unlock()
	s.got = nil
	s.say = map[string]reply{"/api/v1/search": search, "/api/v1/repos": repos}
	s.first = first
	s.done = make(chan struct{})
}

func (s *scripted) taken() []asked {
	s.lck.Lock()
	defer s.lck.Unlock()
	return append([]asked{}, s.got...)
}

func (s *scripted) handle(w http.ResponseWriter, r *http.Request) {
	a := asked{path: r.URL.Path, host: r.Host, hdr: r.Header.Clone(), method: r.Method}
	if err := r.ParseForm(); err != nil {
		a.bad = err.Error()
	}
	a.form = r.Form
	s.lck.Lock()
	s.got = append(s.got, a)
	p, known := s.say[a.path]
	first, done := s.first, s.done
	s.lck.Unlock()
	if !known {
		http.NotFound(w, r)
		return
	}
	if first != "" && a.path != first {
		select {
		case <-done:
		case <-time.After(100 * time.Millisecond): // a client that asks one after the other
		}
	}
	if a.path == first {
		defer func() {
			defer func() { recover() }()
			close(done)
		}()
	}
	if p.drop {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
		return
	}
	w.Header().Set("Content-Type", "application/json;charset=utf-8")
	w.Header().Set("Connection", "close")
	n := len(p.body)
	if p.cut {
		n += 10
	}
	if p.code != 204 {
		w.Header().Set("Content-Length", fmt.Sprint(n))
	}
	w.WriteHeader(p.code)
	b := p.body
	for p.slow > 0 && len(b) > p.slow {
		w.Write([]byte(b[:p.slow]))
		w.(http.Flusher).Flush()
		b = b[p.slow:]
	}
	if p.code != 204 {
		w.Write([]byte(b))
	}
}

// ---------------------------------------------------------------- requests

const okSearch = `{"Results":{"r1":{"Matches":[{"Filename":"dir/f","Matches":[{"Line":"the m\"<é","LineNumber":3,"Before":["b1","b2"],"After":["a1"]}],"AutoGenerated":true}],"FilesWithMatch":7,"Revision":"abc"},"r2":{"Matches":[{"Filename":"g","Matches":[{"Line":"m","LineNumber":1,"Before":[],"After":[]}]}],"FilesWithMatch":1,"Revision":"é"}},"Stats":{"FilesOpened":9,"Duration":12}}`
const okRepos = `{"r1":{"url":"http://h/a/b.git","display-name":"","ms-between-poll":30000,"vcs":"git","vcs-config":{},"url-pattern":{"base-url":"x","anchor":"y"},"exclude-dot-files":true,"enable-poll-updates":null,"enable-push-updates":true,"auto-generated-files":null},"r2":{"url":"u","display-name":"The Second","vcs":"hg","url-pattern":null}}`

var (
	searchOK = reply{name: "ok", code: 200, body: okSearch, ok: true}
	reposOK  = reply{name: "ok", code: 200, body: okRepos, ok: true}
)

type ask struct {
	q, repos, files string
	ctx             int
	icase, stats    bool
	hdr             map[string]string
}

func (a ask) String() string {
	return fmt.Sprintf("q=%q repos=%q files=%q ctx=%d i=%v stats=%v headers=%q", a.q, a.repos, a.files, a.ctx, a.icase, a.stats, a.hdr)
}

func judgeAsked(got []asked, a ask, addr string) []string {
	n := map[string]int{}
	for _, g := range got {
		n[g.path]++
		if g.method != "GET" || g.bad != "" {
			return []string{fmt.Sprintf("request %s %s: %s", g.method, g.path, g.bad)}
		}
		host := addr
		for k, v := range a.hdr {
			if strings.EqualFold(k, "host") {
				host = v
			} else if g.hdr.Get(k) != v {
				return []string{fmt.Sprintf("header %s of the request for %s is %q, not %q", k, g.path, g.hdr.Get(k), v)}
			}
		}
		if g.host != host {
			return []string{fmt.Sprintf("the request for %s is for host %q, not %q", g.path, g.host, host)}
		}
		if g.path == "/api/v1/search" {
			get := func(k string) string {
				if len(g.form[k]) != 1 {
					return fmt.Sprintf("(%d values)", len(g.form[k]))
				}
				return g.form[k][0]
			}
			truth := func(b bool) string { return fmt.Sprint(b) }
			for _, x := range [][3]string{{"q", get("q"), a.q}, {"repos", get("repos"), a.repos}, {"files", get("files"), a.files}, {"ctx", get("ctx"), fmt.Sprint(a.ctx)}} {
				if x[1] != x[2] {
					return []string{fmt.Sprintf("parameter %s is %q, not %q", x[0], x[1], x[2])}
				}
			}
			for _, x := range [][3]string{{"i", get("i"), truth(a.icase)}, {"stats", get("stats"), truth(a.stats)}} {
				v := strings.ToLower(x[1])
				if fmt.Sprint(v == "true" || v == "1" || v == "fosho") != x[2] {
					return []string{fmt.Sprintf("parameter %s is %q, not %q", x[0], x[1], x[2])}
				}
			}
			for k := range g.form {
				if !strings.Contains(" q repos files ctx i stats ", " "+k+" ") {
					return []string{fmt.Sprintf("parameter %s=%q was sent as well", k, g.form[k])}
				}
			}
		}
	}
	if len(n) != 2 || n["/api/v1/search"] != 1 || n["/api/v1/repos"] != 1 {
		return []string{fmt.Sprintf("requests made: %v", n)}
	}
	return nil
}

// judgeGot: the client returned what the server sent.
func judgeGot(res *client.Response, repos map[string]*config.Repo) []string {
	if res == nil || repos == nil {
		return []string{"neither result nor error"}
	}
	var w struct {
		Results map[string]*index.SearchResponse
		Stats   struct{ FilesOpened, Duration int }
	}
	bx.Must(json.Unmarshal([]byte(okSearch), &w))
	if !reflect.DeepEqual(res.Results, w.Results) {
		return []string{"results: " + js(res.Results)}
	}
	if res.Stats == nil || res.Stats.FilesOpened != 9 || res.Stats.Duration != 12 {
		return []string{"stats: " + js(res.Stats)}
	}
	if len(repos) != 2 || repos["r1"] == nil || repos["r2"] == nil || repos["r1"].Url != "http://h/a/b.git" || repos["r1"].DisplayName != "" || repos["r2"].DisplayName != "The Second" || repos["r2"].Vcs != "hg" || repos["r1"].UrlPattern == nil || repos["r1"].UrlPattern.Anchor != "y" {
		return []string{"repositories: " + js(repos)}
	}
	return nil
}

func (a ask) send(addr string) (*client.Response, map[string]*config.Repo, error) {
	return client.SearchAndLoadRepos(&client.Config{Host: addr, HttpHeaders: a.hdr}, a.q, a.repos, a.files, a.ctx, a.icase, a.stats)
}

// the values of one argument; the first is the default
var (
	askQ     = []string{"m", "", " ", "a b", "a+b", "a%20b", "a&q=b", "x=y;z", "#frag", "?", "é", "\u2028", "\xff\xfe", "\x00", "\"'<>\\", "a\nb\r\n\t", "..//", "(?i)[a-z]+|\\d{2,3}$", "{}[]^`|", strings.Repeat("long ", 400)}
	askRepos = []string{"*", "", "r1", "r1,r2", " r1 ", "a&b", "é/ü", "*,", "%", "r+1"}
	askFiles = []string{"", "\\.go$", "a b", "a&b=c", "é", "(x|y)+", "%25", "\x01"}
	askCtx   = []int{2, 0, 1, 20, 21, 1 << 40, -1}
	askHdr   = []map[string]string{nil, {}, {"X-One": "1"}, {"host": "other.example"}, {"Host": "other.example:81", "x-two": "v w", "Authorization": "Basic eDp5"}, {"HOST": "h", "Cookie": "a=b; c=d", "Accept": "*/*", "User-Agent": "me"}, {"accept-language": "é", "X-Empty": ""}}
)

func k02Args(c *bx.Ctx) {
	s := newScripted()
	dev := c.Bound
	for qi, q := range askQ {
		for ri, r := range askRepos {
			for fi, f := range askFiles {
				for ci, cx := range askCtx {
					for hi, h := range askHdr {
						for m := 0; m < 4; m++ {
							d := 0
							for _, x := range []int{qi, ri, fi, ci, hi, m & 1, m & 2} {
								if x > 0 {
									d++
								}
							}
							if d > dev {
								continue
							}
							if c.Over() {
								return
							}
							if !c.Mine() {
								continue
							}
							a := ask{q, r, f, cx, m&1 == 1, m&2 == 2, h}
							c.States++
							c.Transitions += 2
							c.Do(a.String(), func() []string {
								s.script(searchOK, reposOK, "")
								res, repos, err := a.send(s.addr())
								if err != nil {
									return []string{"error: " + err.Error()}
								}
								if bad := judgeAsked(s.taken(), a, s.addr()); bad != nil {
									return bad
								}
								return judgeGot(res, repos)
							})
						}
					}
				}
			}
		}
	}
}

func badSearch(c *bx.Ctx) []reply {
	r := []reply{searchOK, {name: "in pieces", code: 200, body: okSearch, ok: true, slow: 7},
		{name: "dropped", drop: true}}
	for _, code := range []int{503, 500, 404, 403, 400, 401, 405, 204, 201, 302, 304, 502} {
		for _, b := range []string{`{"Error":"no"}`, okSearch, "", "Hound is not ready.\n"} {
			if code == 204 || code == 304 {
				b = ""
			}
			r = append(r, reply{name: fmt.Sprintf("status %d with %d bytes", code, len(b)), code: code, body: b})
		}
	}
	for _, b := range []string{"", " ", "null", "{}", "[]", "5", "true", `"x"`, `{"Results":null}`, `{"Results":[]}`, `{"Results":"x"}`, `{"Results":5}`, `{"Results":{"r1":5}}`, `{"Results":{"r1":[]}}`, `{"Stats":{"FilesOpened":0,"Duration":0}}`,
		`{"Error":"boom"}`, `{"Error":"é\u0000"}`, `{"Error":"boom","Results":{}}`, `{"Results":{},"Error":"boom"}`, `{"Results":{"r1":{"Matches":"x"}}}`, `{"Results":{"r1":{"Matches":[{"Filename":5}]}}}`, `{"Results":{"r1":{"Matches":[{"Matches":[{"LineNumber":"x"}]}]}}}`,
		`{"Results":{"r1":{"Matches":[{"Matches":[{"LineNumber":1e40}]}]}}}`, `{"Results":{}`, `{"Results":{}]`, `{"Results":}`, `{Results:{}}`, `{"Results":{},}`, "<html><body>login</body></html>", "\xef\xbb\xbf{}", "\x00", "Results"} {
		r = append(r, reply{name: fmt.Sprintf("body %q", b), code: 200, body: b})
	}
	return r
}

func badRepos(c *bx.Ctx) []reply {
	r := []reply{reposOK, {name: "in pieces", code: 200, body: okRepos, ok: true, slow: 7},
		{name: "dropped", drop: true}}
	for _, code := range []int{503, 500, 404, 403, 204, 302} {
		for _, b := range []string{`{"Error":"no"}`, okRepos, ""} {
			if code == 204 {
				b = ""
			}
			r = append(r, reply{name: fmt.Sprintf("status %d with %d bytes", code, len(b)), code: code, body: b})
		}
	}
	for _, b := range []string{"", "null", "[]", "5", "true", `"x"`, `{"r1":5}`, `{"r1":[]}`, `{"r1":{"url":5}}`, `{"r1":{"enable-poll-updates":"x"}}`, `{"Error":"boom"}`, `{"r1":{}`, `{"r1":{}]`, `{r1:{}}`, "<html></html>", "\x00"} {
		r = append(r, reply{name: fmt.Sprintf("body %q", b), code: 200, body: b})
	}
	return r
}

// every pair of answers to the two requests, in either order, and answers cut
// short at every byte.
func k02Outcomes(c *bx.Ctx) {
	s := newScripted()
	a := ask{q: "m", repos: "*", ctx: 2}
	one := func(se, re reply, first string) {
		if c.Over() || !c.Mine() {
			return
		}
		c.States++
		c.Transitions += 2
		d := fmt.Sprintf("search answered: %s; repositories answered: %s; %s first", se.name, re.name, first)
		c.Do(d, func() []string {
			s.script(se, re, first)
			res, repos, err := a.send(s.addr())
			if se.ok && re.ok {
				c.Outcome("answered")
				if err != nil {
					return []string{"error: " + err.Error()}
				}
				return judgeGot(res, repos)
			}
			c.Outcome("error")
			if err == nil {
				return []string{"no error; results: " + js(res) + ", repositories: " + js(repos)}
			}
			return nil
		})
	}
	ss, rs := badSearch(c), badRepos(c)
	for _, first := range []string{"/api/v1/search", "/api/v1/repos"} {
		for i, se := range ss {
			for k, re := range rs {
				if c.Bound < 3 && i > 0 && k > 0 && (i+k)%7 != 0 { // the pairs of failures: all of them in the deeper tier
					continue
				}
				one(se, re, first)
			}
		}
	}
	for i := 0; i < len(okSearch); i++ {
		one(reply{name: fmt.Sprintf("%d of %d bytes", i, len(okSearch)), code: 200, body: okSearch[:i]}, reposOK, "")
		one(reply{name: fmt.Sprintf("cut off after %d of %d bytes", i, len(okSearch)), code: 200, body: okSearch[:i], cut: true}, reposOK, "")
	}
	for i := 0; i < len(okRepos); i++ {
		one(searchOK, reply{name: fmt.Sprintf("%d of %d bytes", i, len(okRepos)), code: 200, body: okRepos[:i]}, "")
		one(searchOK, reply{name: fmt.Sprintf("cut off after %d of %d bytes", i, len(okRepos)), code: 200, body: okRepos[:i], cut: true}, "")
	}
	// nobody there
	if c.Mine() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		bx.Must(err)
		addr := l.Addr().String()
		l.Close()
		for _, h := range []string{addr, "127.0.0.1:99999", "", "no such host:80", "[::1", "%zz"} {
			h := h
			c.States++
			c.Do("host "+h, func() []string {
				if res, _, err := a.send(h); err == nil {
					return []string{"no error: " + js(res)}
				}
				return nil
			})
		}
	}
}

// ---------------------------------------------------------------- the program

func houndCLI(args ...string) (code int, out, errs string) {
	cmd := exec.Command(filepath.Join(os.Getenv("HV_BIN"), "hound"), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/nonexistent"}
	err := cmd.Run()
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		bx.Must(err)
	}
	return cmd.ProcessState.ExitCode(), o.String(), e.String()
}

func k02Cli(c *bx.Ctx) {
	s := newScripted()
	// flags
	type fl struct {
		args []string
		set  func(*ask)
	}
	groups := [][]fl{
		{{}, {[]string{"-repos", "r1,r2"}, func(a *ask) { a.repos = "r1,r2" }}, {[]string{"--repos="}, func(a *ask) { a.repos = "" }}, {[]string{"-repos", "a&b é"}, func(a *ask) { a.repos = "a&b é" }}},
		{{}, {[]string{"-files", "\\.go$"}, func(a *ask) { a.files = "\\.go$" }}, {[]string{"-files", "a b&c"}, func(a *ask) { a.files = "a b&c" }}},
		{{}, {[]string{"-context", "0"}, func(a *ask) { a.ctx = 0 }}, {[]string{"-context=7"}, func(a *ask) { a.ctx = 7 }}},
		{{}, {[]string{"-ignore-case"}, func(a *ask) { a.icase = true }}, {[]string{"-ignore-case=false"}, func(a *ask) {}}},
		{{}, {[]string{"-show-stats"}, func(a *ask) { a.stats = true }}},
	}
	pats := []string{"m", "-m", "a b&c=%20+", "é\n", "\\bm\\b|x"}
	var rec func(g int, args []string, set []func(*ask), dev int)
	rec = func(g int, args []string, set []func(*ask), dev int) {
		if g < len(groups) {
			for i, f := range groups[g] {
				d := dev
				st := set
				if i > 0 {
					d++
					st = append(append([]func(*ask){}, set...), f.set)
				}
				if d <= c.Bound-1 {
					rec(g+1, append(append([]string{}, args...), f.args...), st, d)
				}
			}
			return
		}
		for _, p := range pats {
			if c.Over() || !c.Mine() {
				continue
			}
			a := ask{q: p, repos: "*", ctx: 2}
			for _, f := range set {
				f(&a)
			}
			av := append([]string{"-host", s.addr()}, args...)
			av = append(av, "--", p)
			c.States++
			c.Transitions++
			c.Do(fmt.Sprintf("hound %q", av), func() []string {
				s.script(searchOK, reposOK, "")
				code, out, errs := houndCLI(av...)
				if code != 0 {
					return []string{fmt.Sprintf("exit status %d: %s", code, clip(errs))}
				}
				if bad := judgeAsked(s.taken(), a, s.addr()); bad != nil {
					return bad
				}
				for _, w := range []string{"a/b\n", "The Second\n", "dir/f\n", "\ng\n"} {
					if !strings.Contains("\n"+out, "\n"+strings.TrimPrefix(w, "\n")) {
						return []string{fmt.Sprintf("%q was not printed in %q", w, out)}
					}
				}
				for _, w := range []string{`1- *b1`, `2- *b2`, `3: *the m"<é`, `4- *a1`, `1: *m`} {
					if !regexp.MustCompile(`(?m)^` + w + `$`).MatchString(out) {
						return []string{fmt.Sprintf("no line like %q in %q", w, out)}
					}
				}
				return nil
			})
		}
	}
	rec(0, nil, nil, 0)
	// failures
	se, re := badSearch(c), badRepos(c)
	for i := 0; i < len(se)+len(re); i++ {
		x, y := searchOK, reposOK
		if i < len(se) {
			x = se[i]
		} else {
			y = re[i-len(se)]
		}
		if x.ok && y.ok || c.Over() || !c.Mine() {
			continue
		}
		c.States++
		c.Do(fmt.Sprintf("hound with search answered: %s; repositories answered: %s", x.name, y.name), func() []string {
			s.script(x, y, "")
			code, out, errs := houndCLI("-host", s.addr(), "m")
			if code == 0 || strings.TrimSpace(errs) == "" {
				return []string{fmt.Sprintf("exit status %d, printed %q and the error %q", code, clip(out), clip(errs))}
			}
			return nil
		})
	}
	for _, p := range []string{"(", "[", "a**", "\\", "*"} {
		if !c.Mine() {
			continue
		}
		p := p
		c.States++
		c.Do(fmt.Sprintf("hound with the pattern %q, which the server refuses", p), func() []string {
			s.script(reply{code: 200, body: `{"Error":"bad pattern"}`}, reposOK, "")
			code, out, _ := houndCLI("-host", s.addr(), "--", p)
			if code == 0 {
				return []string{"exit status 0, printed " + clip(out)}
			}
			return nil
		})
	}
	if c.Mine() {
		c.States++
		c.Do("hound with nobody there", func() []string {
			if code, out, _ := houndCLI("-host", "127.0.0.1:1", "m"); code == 0 {
				return []string{"exit status 0, printed " + clip(out)}
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------- names

func refName(key, display, url string) (string, bool) {
	if display != "" {
		return display, true
	}
	p := strings.Split(url, "/")[1:]
	if len(p) == 0 {
		return key, true
	}
	if len(p) > 1 && p[len(p)-2] == "" {
		return "", false // an empty component: any name will do
	}
	n := strings.TrimSuffix(p[len(p)-1], ".git")
	if len(p) > 1 {
		return p[len(p)-2] + "/" + n, true
	}
	if n == "" {
		return key, true
	}
	return n, true
}

func k02Names(c *bx.Ctx) {
	length := map[int]int{1: 4, 2: 5, 3: 6, 4: 7}[c.Bound]
	tok := []string{"/", "a", ".git", ":", "@", "git", "é", "..", "//"}
	type rp struct{ key, display, url string }
	to := newFileSink(c)
	var q []rp
	show := func(q []rp) []string {
		repos := map[string]*config.Repo{}
		res := map[string]*index.SearchResponse{}
		for i, r := range q {
			repos[r.key] = &config.Repo{Url: r.url, DisplayName: r.display}
			if r.url == "\x00none" {
				delete(repos, r.key)
			}
			res[r.key] = &index.SearchResponse{Matches: []*index.FileMatch{{Filename: fmt.Sprintf("f%d", i), Matches: []*index.Match{{Line: "m", LineNumber: 1}}}}}
		}
		out, err := to.run(func(f *os.File) error {
			return client.NewAckPresenter(f).Present(reM, 0, repos, &client.Response{Results: res})
		})
		if err != nil {
			return []string{err.Error()}
		}
		got := map[string]string{}
		l := strings.Split(out, "\n")
		for i := 0; i+3 < len(l); i += 4 {
			got[l[i+1]] = l[i]
		}
		for i, r := range q {
			g, printed := got[fmt.Sprintf("f%d", i)]
			w, def := refName(r.key, r.display, r.url)
			if !printed || def && g != w {
				return []string{fmt.Sprintf("repository %q with display name %q and URL %q is called %q, not %q", r.key, r.display, r.url, g, w)}
			}
		}
		return nil
	}
	flush := func() {
		if len(q) == 0 {
			return
		}
		b := q
		q = nil
		c.Traces += int64(len(b) - 1)
		c.Do(fmt.Sprintf("repositories %q", b[:1]), func() []string {
			bad := show(b)
			return bad
		})
	}
	n := 0
	add := func(r rp) {
		if c.Over() || !c.Mine() {
			return
		}
		n++
		r.key = fmt.Sprintf("key%d", n)
		q = append(q, r)
		c.States++
		c.Transitions++
		if len(q) == 500 {
			flush()
		}
	}
	for _, d := range []string{"", "D", "a/b", " ", "é"} {
		for _, u := range []string{"", "\x00none", "/", "//", "a", "/a", "a/", "a/b", "/a/b", "a/b/", "x//b", "y/x//b", "https://github.com/x/y.git", "https://github.com/x/y.git/", "git@github.com:x/y.git", "ssh://git@h:22/x/y", "file:///a/b/c", "C:\\a\\b", ".git", "/.git", "/x/.git", "a.git", "https://h/a.git.git"} {
			if u == "\x00none" && d != "" {
				continue
			}
			add(rp{display: d, url: u})
		}
	}
	var rec func(k int, s string)
	rec = func(k int, s string) {
		add(rp{url: s})
		if k == length {
			return
		}
		for _, t := range tok {
			rec(k+1, s+t)
		}
	}
	rec(0, "")
	flush()
}

func init() {
	bx.Register(&bx.Job{Name: "k02-args", Desc: "every combination of arguments that differs in some from the default", Run: k02Args, GC: true})
	bx.Register(&bx.Job{Name: "k02-outcomes", Desc: "every pair of answers in either order, and cut short at every byte", Run: k02Outcomes, GC: true})
	bx.Register(&bx.Job{Name: "k02-cli", Desc: "the program: flags and exit status", Run: k02Cli, GC: true})
	bx.Register(&bx.Job{Name: "k02-names", Desc: "names of repositories with every URL of some components", Run: k02Names})
}

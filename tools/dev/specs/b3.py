_ns = {}
exec(open("/verif/.cache/specs/b2.py").read().split("\nB(id=")[0], _ns)
IDX, FAKE, BUGS, B = _ns["IDX"], _ns["FAKE"], _ns["BUGS"], _ns["B"]
B(id="c09-health-query", property="C09", needs="a health check whose URL carries a query",
  breaks="the health check compares the whole request target, so a health check with a query is answered 503 before the indexes are ready and as a missing page afterwards",
  edits=[("web/web.go", "	if r.URL.Path == s.cfg.HealthCheckURI {", "	if r.URL.RequestURI() == s.cfg.HealthCheckURI {")],
  pkg="web", test='''package web_test

import (
	"net/http/httptest"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/web"
)

func TestDemo(t *testing.T) {
	s := web.Start(&config.Config{HealthCheckURI: "/healthz"}, "127.0.0.1:0", false)
	for _, u := range []string{"/healthz", "/healthz?probe=1"} {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", u, nil))
		if w.Code != 200 {
			t.Error(u, w.Code)
		}
	}
}
''')
B(id="d01-manifest-first", property="D01", needs="a kill, or a failing step, between the start of an index build and its end",
  breaks="the manifest is written before the files are indexed, so an index directory that was never completed is taken for a complete one at the next start",
  edits=[("index/index.go", '''	if err := indexAllFiles(opt, dst, src); err != nil {
		return nil, err
	}

	r := &IndexRef{''', '''	r := &IndexRef{'''),
   ("index/index.go", '''	if err := r.writeManifest(); err != nil {
		return nil, err
	}

	return r, nil''', '''	if err := r.writeManifest(); err != nil {
		return nil, err
	}

	if err := indexAllFiles(opt, dst, src); err != nil {
		return nil, err
	}

	return r, nil''')],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	dst := filepath.Join(t.TempDir(), "dst")
	if _, err := index.Build(&index.IndexOptions{}, dst, filepath.Join(t.TempDir(), "gone"), "u", "r"); err == nil {
		t.Fatal("built from nothing")
	}
	if r, err := index.Read(dst); err == nil {
		t.Fatal("an incomplete index has a manifest: ", r.Url, r.Rev)
	}
}
''')
B(id="d02-walk-errors", property="D02", needs="a file or directory of the tree that cannot be read while the index is built",
  breaks="an entry that the walk cannot read is passed over without a word, and the incomplete index goes live",
  edits=[("index/index.go", '''	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
		if err != nil {
			return err
		}
''', '''	if err := filepath.Walk(src, func(path string, info os.FileInfo, err error) error { //nolint
		if err != nil {
			if info == nil {
				return nil
			}
			return err
		}
''')],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	base := t.TempDir()
	src := filepath.Join(base, strings.Repeat("s", 100))
	if err := os.Mkdir(src, 0755); err != nil {
		t.Fatal(err)
	}
	wd, _ := os.Getwd()
	defer os.Chdir(wd)
	// so deep that the names of its files are too long, but only behind src
	d := src
	os.Chdir(src)
	for len(d)+201 < 4090 {
		n := strings.Repeat("d", 200)
		os.Mkdir(n, 0755)
		if err := os.Chdir(n); err != nil {
			t.Fatal(err)
		}
		d += "/" + n
	}
	if err := os.WriteFile(strings.Repeat("f", 4110-len(d)), []byte("needle\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	os.Chdir(wd)
	dst := filepath.Join(base, "i")
	if _, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r"); err == nil {
		t.Fatal("a file could not be read, but the index was built")
	}
}
''')
B(id="d03-broken-kept", property="D03", needs="an index directory left incomplete by a kill, found at the next start",
  breaks="an index directory whose manifest cannot be read is no longer among those found at startup, so it is never discarded",
  edits=[("searcher/searcher.go", '''		refs = append(refs, r)''', '''		if r.Rev != "" {
			refs = append(refs, r)
		}''')],
  pkg="searcher", test=FAKE + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "first"})
		return "r1", nil
	}
	db := t.TempDir()
	dead := filepath.Join(db, "idx-00dead00")
	os.MkdirAll(filepath.Join(dead, "raw"), 0755)
	_, _, err := searcher.MakeAll(&config.Config{DbPath: db, MaxConcurrentIndexers: 1,
		Repos: map[string]*config.Repo{"r": {Url: "u", Vcs: "demo"}}})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(dead); err == nil {
		t.Fatal("the incomplete index is still there")
	}
}
''')
API = FAKE.replace("package searcher_test", "package api_test").replace('''	"sync"
''', '''	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
''').replace('''	"github.com/hound-search/hound/config"
''', '''	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
''').replace("var _ = errors.New\n", "var _ = errors.New\nvar _ = http.Get\nvar _ = httptest.NewRecorder\nvar _ = strings.Repeat\nvar _ = api.Setup\n")
B(id="a01-limit-32bit", property="A01", needs="a limit above 2147483647",
  breaks="a limit that does not fit in 32 bits is taken for no number at all, so the default limit is used and not the largest",
  edits=[("api/api.go", "	iv, err := strconv.ParseInt(sv, 10, 64)", "	iv, err := strconv.ParseInt(sv, 10, 32)")],
  pkg="api", test=API + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "x\\nx\\nx\\n"})
		return "r1", nil
	}
	m := http.NewServeMux()
	api.Setup(m, map[string]*searcher.Searcher{"r": start(t, &config.Repo{})}, 1)
	ask := func(limit string) int {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/search?repos=r&q=x&limit="+limit, nil))
		return strings.Count(w.Body.String(), "LineNumber")
	}
	if a, b := ask("100000"), ask("3000000000"); a != 3 || b != 3 {
		t.Fatal(a, b)
	}
}
''')
B(id="a02-name-fallback", property="A02", needs="a webhook for a repository that is not known, whose short name is that of one that is",
  breaks="a webhook for an unknown repository updates the one that has its short name",
  edits=[("api/api.go", '''		searcher := idx[h.Repository.Full_name]

		if searcher == nil {''', '''		searcher := idx[h.Repository.Full_name]
		if searcher == nil {
			searcher = idx[h.Repository.Name]
		}

		if searcher == nil {''')],
  pkg="api", test=API + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "x"})
		return "r1", nil
	}
	m := http.NewServeMux()
	api.Setup(m, map[string]*searcher.Searcher{"hound": start(t, &config.Repo{})}, 1)
	w := httptest.NewRecorder()
	m.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/github-webhook",
		strings.NewReader(`{"repository":{"name":"hound","full_name":"someone-else/hound"}}`)))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
''')
B(id="r01-search-leak", property="R01", needs="a search over several repositories that fails",
  breaks="the first failure ends the collection while nobody takes the other answers, and their goroutines wait for ever",
  edits=[("api/api.go", "	ch := make(chan *searchResponse, n)", "	ch := make(chan *searchResponse)")],
  pkg="api", test=API + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "x"})
		return "r1", nil
	}
	m := http.NewServeMux()
	idx := map[string]*searcher.Searcher{}
	for _, n := range []string{"a", "b", "c"} {
		idx[n] = start(t, &config.Repo{})
	}
	api.Setup(m, idx, 1)
	ask := func() {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/search?repos=*&q=(", nil))
		if !strings.Contains(w.Body.String(), "Error") {
			t.Fatal(w.Body.String())
		}
	}
	ask()
	time.Sleep(300 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		ask()
	}
	for i := 0; i < 50; i++ {
		if runtime.NumGoroutine() < before+20 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal(before, " goroutines before, ", runtime.NumGoroutine(), " after 100 failing searches")
}
'''.replace("", ""))
BUGS[-1]["test"] = BUGS[-1]["test"].replace('	"path/filepath"\n', '	"path/filepath"\n	"runtime"\n')
CLI = '''package client

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = runtime.NumGoroutine
var _ sync.Mutex
var _ = time.Now
var _ = strings.Repeat
'''
B(id="r01-client-early", property="R01", needs="a server that answers the search with an error",
  breaks="a failing search returns before the answer with the repositories has been taken, whose goroutine then waits for ever",
  edits=[("client/client.go", '''	errS, errR := <-chs, <-chr

	if errS != nil {
		return nil, nil, errS
	}

	if errR != nil {''', '''	if errS := <-chs; errS != nil {
		return nil, nil, errS
	}

	if errR := <-chr; errR != nil {''')],
  pkg="client", test=CLI + '''
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.Contains(r.URL.Path, "search") {
			http.Error(w, "no", 500)
			return
		}
		fmt.Fprint(w, "{}")
	}))
	defer s.Close()
	cfg := &Config{Host: strings.TrimPrefix(s.URL, "http://")}
	ask := func() {
		if _, _, err := SearchAndLoadRepos(cfg, "x", "*", "", 2, false, false); err == nil {
			t.Fatal("no error")
		}
	}
	ask()
	time.Sleep(300 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 100; i++ {
		ask()
	}
	for i := 0; i < 50; i++ {
		http.DefaultClient.CloseIdleConnections()
		if runtime.NumGoroutine() < before+30 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal(before, " goroutines before, ", runtime.NumGoroutine(), " after 100 failing searches")
}
''')
B(id="k02-host-case", property="K02", needs="a host header configured in a spelling other than Host",
  breaks="a configured header named host, in lower case, no longer sets the host that is asked for",
  edits=[("client/client.go", '''		if strings.ToLower(key) == "host" {''', '''		if key == http.CanonicalHeaderKey("host") {''')],
  pkg="client", test=CLI + '''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	var hosts []string
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		hosts = append(hosts, r.Host)
		mu.Unlock()
		if strings.Contains(r.URL.Path, "search") {
			fmt.Fprint(w, `{"Results":{}}`)
			return
		}
		fmt.Fprint(w, "{}")
	}))
	defer s.Close()
	cfg := &Config{Host: strings.TrimPrefix(s.URL, "http://"), HttpHeaders: map[string]string{"host": "hound.example"}}
	if _, _, err := SearchAndLoadRepos(cfg, "x", "*", "", 2, false, false); err != nil {
		t.Fatal(err)
	}
	for _, h := range hosts {
		if h != "hound.example" {
			t.Error(h)
		}
	}
}
''')
B(id="h01-failed-listed", property="H01", needs="several repositories that cannot be indexed at startup",
  breaks="only one of the repositories that failed is taken out of the configuration, the others stay on the search page and are offered although nothing can be found in them",
  edits=[("cmds/houndd/main.go", '''			delete(cfg.Repos, name)
		}
''', '''			delete(cfg.Repos, name)
			break
		}
''')],
  pkg="cmds/houndd", test='''package main

import (
	"errors"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/vcs"
)

func init() {
	vcs.Register(func(b []byte) (vcs.Driver, error) { return nil, errors.New("no such thing") }, "demo")
}

func TestDemo(t *testing.T) {
	cfg := &config.Config{DbPath: t.TempDir(), MaxConcurrentIndexers: 2, Repos: map[string]*config.Repo{
		"a": {Url: "a", Vcs: "demo"}, "b": {Url: "b", Vcs: "demo"}}}
	_, ok, err := makeSearchers(cfg)
	if err != nil || ok {
		t.Fatal(ok, err)
	}
	if len(cfg.Repos) != 0 {
		t.Fatal("repositories that failed are still configured: ", len(cfg.Repos))
	}
}
''')
B(id="v04-last-lost", property="V04", needs="the last file that git lists being one marked as generated",
  breaks="the last file listed is never looked at, so that it is not flagged although it is marked as generated",
  edits=[("vcs/git.go", "	for i := 2; i < len(tokens); i+=3 {", "	for i := 2; i+3 < len(tokens)-1; i+=3 {")],
  pkg="vcs", test='''package vcs_test

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/vcs"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	git := func(a ...string) {
		c := exec.Command("git", a...)
		c.Dir = d
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
	}
	git("init", "-q")
	os.WriteFile(filepath.Join(d, ".gitattributes"), []byte("*.pb linguist-generated=true\\n"), 0644)
	os.WriteFile(filepath.Join(d, "a.pb"), []byte("x"), 0644)
	os.WriteFile(filepath.Join(d, "z.pb"), []byte("x"), 0644)
	git("add", ".")
	w, err := vcs.New("git", nil)
	if err != nil {
		t.Fatal(err)
	}
	if l := w.AutoGeneratedFiles(d); len(l) != 2 {
		t.Fatal(l)
	}
}
''')
NODE = '''#!/bin/bash
# run in the repository after a build: exit 0 when the property holds here
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp ui/assets/js/common.js "$t/common.mjs" || exit 3
cp "$here/demo.mjs" "$t/demo.mjs"
timeout 60 node "$t/demo.mjs"
'''
B(id="k03-git-inside", property="K03", needs="a repository whose URL has .git inside as well, like that of a host named git.example or x.github.io",
  breaks="the first .git of the URL is taken out instead of the one at its end, so the links lead to another host",
  edits=[("ui/assets/js/common.js", "repo.url.replace(/\\.git$/, ''),", "repo.url.replace('.git', ''),")],
  files={"demo.sh": NODE, "demo.mjs": """import { UrlToRepo } from "./common.mjs";
for (const [url, want] of [
  ["https://h.example/o/r.git", "https://h.example/o/r/a/b.c#7"],
  ["https://me.github.io/o/r.git", "https://me.github.io/o/r/a/b.c#7"],
]) {
  const got = UrlToRepo({ url, "url-pattern": { "base-url": "{url}/{path}{anchor}", anchor: "#{line}" } }, "a/b.c", 7, "abc");
  if (got !== want) {
    console.log("got ", got, "want", want);
    process.exitCode = 1;
  }
}
"""})

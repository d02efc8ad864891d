package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"github.com/hound-search/hound/web"

	"hv/bx"
)

// The driver "vseq" serves the trees registered here by URL.
var (
	urlTrees = map[string][]file{}
	autos    = map[string][]string{}
	gotCfg   = map[string][][]byte{}
	treesLck sync.Mutex
)

type fakeVcs struct{ cfg []byte }

func newFake(name string) func(b []byte) (vcs.Driver, error) {
	return func(b []byte) (vcs.Driver, error) {
		treesLck.Lock()
		defer treesLck.Unlock()
		gotCfg[name] = append(gotCfg[name], append([]byte(nil), b...))
		return &fakeVcs{b}, nil
	}
}

func (f *fakeVcs) Clone(dir, url string) (string, error) {
	treesLck.Lock()
	defer treesLck.Unlock()
	fs, ok := urlTrees[url]
	if !ok {
		return "", fmt.Errorf("no repository at %s", url)
	}
	writeTree(dir, fs)
	bx.Must(os.WriteFile(filepath.Join(dir, ".url"), []byte(url), 0644))
	return "rev-" + url, nil
}

func (f *fakeVcs) Pull(dir string) (string, error) { return f.HeadRev(dir) }
func (f *fakeVcs) HeadRev(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, ".url"))
	return "rev-" + string(b), err
}
func (f *fakeVcs) SpecialFiles() []string { return []string{".url"} }
func (f *fakeVcs) AutoGeneratedFiles(dir string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, ".url"))
	treesLck.Lock()
	defer treesLck.Unlock()
	return autos[string(b)]
}

func init() {
	vcs.Register(newFake("vseq"), "vseq")
	vcs.Register(newFake("vother"), "vother")
}

func boolp(b bool) *bool { return &b }

// repoOf is a repository without updates.
func repoOf(url string) *config.Repo {
	return &config.Repo{Url: url, Vcs: "vseq", EnablePollUpdates: boolp(false), EnablePushUpdates: boolp(false), MsBetweenPolls: 1000,
		UrlPattern: &config.UrlPattern{BaseUrl: "{url}/{path}{anchor}", Anchor: "#{line}"}}
}

// start starts searchers for the configuration.
func startAll(c *bx.Ctx, cfg *config.Config) (map[string]*searcher.Searcher, map[string]error, error) {
	cfg.DbPath = fresh(c)
	bx.Must(os.MkdirAll(cfg.DbPath, 0755))
	if cfg.MaxConcurrentIndexers == 0 {
		cfg.MaxConcurrentIndexers = 2
	}
	return searcher.MakeAll(cfg)
}

// serve is the real server's handler for the configuration and searchers.  Its
// listener is given an address that cannot be listened on.
func serve(cfg *config.Config, dev bool, ss map[string]*searcher.Searcher) (http.Handler, error) {
	s := web.Start(cfg, "127.0.0.1:99999", dev)
	err := s.ServeWithIndex(ss)
	if err != nil && !strings.Contains(err.Error(), "99999") && !strings.Contains(err.Error(), "port") {
		return nil, err
	}
	return s, nil
}

type answer struct {
	code int
	body string
	hdr  http.Header
}

func (a answer) ctype() string { return a.hdr.Get("Content-Type") }

// request sends one request to the handler and returns the complete answer.
func request(h http.Handler, method, target, ctype, body string, mod ...func(*http.Request)) (answer, error) {
	r, err := http.NewRequest(method, "http://hound.test:6080/", strings.NewReader(body))
	if err != nil {
		return answer{}, err
	}
	path, query := target, ""
	if i := strings.IndexByte(target, '?'); i >= 0 {
		path, query = target[:i], target[i+1:]
	}
	r.URL.Path, r.URL.RawQuery, r.RequestURI = path, query, target
	if ctype != "" {
		r.Header.Set("Content-Type", ctype)
	}
	for _, m := range mod {
		m(r)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	res := w.Result()
	return answer{w.Code, w.Body.String(), res.Header}, nil
}

// asJSON decodes exactly one JSON value.
func asJSON(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	bx.Must(err)
	return string(b)
}

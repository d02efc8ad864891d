exec(open("/verif/.cache/specs/b1.py").read().split("B(id=")[0])
FAKE = '''package searcher_test

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
)

var _ = errors.New
var _ = ioutil.ReadFile
var _ = time.Now
var _ = filepath.Join

// a driver whose remote is a function from the number of the pull to a tree
type drv struct{}

var mu sync.Mutex
var pulls int
var remote func(n int, dir string) (string, error)

func get(dir string) (string, error) {
	mu.Lock()
	defer mu.Unlock()
	pulls++
	return remote(pulls, dir)
}
func (drv) Clone(dir, url string) (string, error)     { return get(dir) }
func (drv) Pull(dir string) (string, error)           { return get(dir) }
func (drv) HeadRev(dir string) (string, error)        { return "", nil }
func (drv) SpecialFiles() []string                    { return nil }
func (drv) AutoGeneratedFiles(dir string) []string    { return nil }

func init() { vcs.Register(func(b []byte) (vcs.Driver, error) { return drv{}, nil }, "demo") }

func tree(dir string, files map[string]string) {
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	for n, s := range files {
		os.WriteFile(filepath.Join(dir, n), []byte(s), 0644)
	}
}

func done() int {
	mu.Lock()
	defer mu.Unlock()
	return pulls
}

func start(t *testing.T, r *config.Repo) *searcher.Searcher {
	no := false
	yes := true
	r.Vcs, r.Url = "demo", "u"
	if r.EnablePollUpdates == nil {
		r.EnablePollUpdates = &no
	}
	r.EnablePushUpdates = &yes
	s, err := searcher.New(t.TempDir(), "r", r)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

// update asks for a pull and waits until what it led to is there
func update(t *testing.T, s *searcher.Searcher, ok func() bool) bool {
	s.Update()
	for i := 0; i < 200; i++ {
		if ok() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return false
}

func finds(t *testing.T, s *searcher.Searcher, p string) bool {
	r, err := s.Search(p, &index.SearchOptions{})
	if err != nil {
		t.Fatal(err)
	}
	return len(r.Matches) > 0
}
'''
B(id="c07-failed-build-done", property="C07", needs="a pull of a new revision whose tree cannot be indexed, and later pulls of the same revision that could",
  breaks="a failed index build counts as done, so the revision is not tried again and the old one is served until the next",
  edits=[("searcher/searcher.go", '		log.Printf("failed index build (%s): %s", name, err)\n		return rev, false', '		log.Printf("failed index build (%s): %s", name, err)\n		return newRev, true')],
  pkg="searcher", test=FAKE + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		switch n {
		case 1:
			tree(dir, map[string]string{"a": "first"})
			return "r1", nil
		case 2:
			os.RemoveAll(dir) // gone before it could be read
		default:
			tree(dir, map[string]string{"a": "second"})
		}
		return "r2", nil
	}
	s := start(t, &config.Repo{})
	update(t, s, func() bool { return done() >= 2 })
	time.Sleep(200 * time.Millisecond)
	if !finds(t, s, "first") {
		t.Fatal("the old revision is not served")
	}
	if !update(t, s, func() bool { return finds(t, s, "second") }) {
		t.Fatal("the new revision never appears")
	}
}
''')
B(id="c03-cached-list", property="C03", needs="a request for the excluded files, then a reindex that changes them, then another request",
  breaks="the list is remembered per repository and not per index, so after a reindex the list of the first revision asked for is served",
  edits=[("searcher/searcher.go", '	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")\n	dat, err := ioutil.ReadFile(path)\n	if err != nil {\n		log.Printf("Couldn\'t read excluded_files.json %v\\n", err)\n	}\n	return string(dat)',
  '	if list, ok := excludedLists.Load(s.Repo); ok {\n		return list.(string)\n	}\n	path := filepath.Join(s.idx.GetDir(), "excluded_files.json")\n	dat, err := ioutil.ReadFile(path)\n	if err != nil {\n		log.Printf("Couldn\'t read excluded_files.json %v\\n", err)\n		return ""\n	}\n	excludedLists.Store(s.Repo, string(dat))\n	return string(dat)'),
  ("searcher/searcher.go", "// Get the excluded files as a JSON string.", "// The lists of excluded files read so far.\nvar excludedLists sync.Map\n\n// Get the excluded files as a JSON string.")],
  pkg="searcher", test=FAKE + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		if n == 1 {
			tree(dir, map[string]string{"a": "first", "bin": "\\x00\\xff"})
			return "r1", nil
		}
		tree(dir, map[string]string{"a": "second", "other": "\\x00\\xff"})
		return "r2", nil
	}
	s := start(t, &config.Repo{})
	a := s.GetExcludedFiles()
	if !update(t, s, func() bool { return finds(t, s, "second") }) {
		t.Fatal("not updated")
	}
	b := s.GetExcludedFiles()
	if a == b {
		t.Fatal("the list is that of the revision before: " + b)
	}
}
''')
B(id="c10-backoff", property="C10", needs="several failing pulls in a row",
  breaks="the interval is doubled at every pull that brings nothing new and never set back, so an idle repository is pulled ever more seldom",
  edits=[("searcher/searcher.go", "			if !ok {\n				continue\n			}\n\n			rev = newRev", "			if !ok {\n				if delay < time.Hour {\n					delay += delay\n				}\n				continue\n			}\n\n			rev = newRev")],
  pkg="searcher", test=FAKE + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "first"})
		return "r1", nil
	}
	yes := true
	start(t, &config.Repo{EnablePollUpdates: &yes, MsBetweenPolls: 20})
	for i := 0; i < 100 && done() < 40; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if done() < 40 {
		t.Fatal("pulled only ", done(), " times in 10 s with an interval of 20 ms")
	}
}
''')
B(id="i02-varint-limit", property="I02", needs="two files that share a trigram with 16383 files without it between them",
  breaks="a distance of exactly 16384 is written with two bytes and read back as the start of a longer number",
  edits=[("codesearch/index/write.go", "	case x < 1<<14:\n", "	case x <= 1<<14:\n")],
  pkg="codesearch/index", test='''package index_test

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/codesearch/index"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "ix")
	ix := index.Create(f)
	for i := 0; i <= 16384; i++ {
		s := "nothing\\n"
		if i == 0 || i == 16384 {
			s = "xyzzy\\n"
		}
		ix.Add(fmt.Sprintf("f%06d", i), strings.NewReader(s))
	}
	ix.Flush()
	ix.Close()
	r := index.Open(f)
	l := r.PostingList('x'<<16 | 'y'<<8 | 'z')
	if len(l) != 2 || l[0] != 0 || l[1] != 16384 {
		t.Fatal(l)
	}
}
''')
B(id="i03-lost-tail", property="I03", needs="a merge in which the second index covers the last files of the first but not all before",
  breaks="once a posting list goes past the files kept of its index, the id of the last file found stays and is taken for another",
  edits=[("codesearch/index/merge.go", "		if r.i >= len(r.idmap) {\n			r.count = 0\n			break\n		}", "		if r.i >= len(r.idmap) {\n			r.count = 0\n			return false\n		}")],
  pkg="codesearch/index", test='''package index_test

import (
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/hound-search/hound/codesearch/index"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	mk := func(n, root string, files ...string) string {
		f := filepath.Join(d, n)
		ix := index.Create(f)
		ix.AddPaths([]string{root})
		for i := 0; i < len(files); i += 2 {
			ix.Add(files[i], strings.NewReader(files[i+1]))
		}
		ix.Flush()
		ix.Close()
		return f
	}
	a := filepath.Join(d, "a")
	func() {
		f := a
		ix := index.Create(f)
		ix.AddPaths([]string{"/a", "/b"})
		ix.Add("/a/x", strings.NewReader("hello world\\n"))
		ix.Add("/b/x", strings.NewReader("hello world\\n"))
		ix.Flush()
		ix.Close()
	}()
	b := mk("b", "/b", "/b/x", "hello there\\n", "/b/y", "nothing\\n")
	out := filepath.Join(d, "out")
	done := make(chan bool)
	go func() {
		defer func() { recover(); close(done) }()
		index.Merge(out, a, b)
		r := index.Open(out)
		for w, want := range map[string][]uint32{"hel": {0, 1}, "wor": {0}, "the": {1}} {
			if l := r.PostingList(uint32(w[0])<<16 | uint32(w[1])<<8 | uint32(w[2])); !reflect.DeepEqual(l, want) {
				t.Error(w, l, want)
			}
		}
		done <- true
	}()
	if !<-done {
		t.Fatal("merging failed")
	}
}
''')
B(id="c08-partial-answer", property="C08", needs="a repository whose search fails after another one's has been collected",
  breaks="an error of one repository is dropped when there are results of others already, so the answer is incomplete without saying so",
  edits=[("api/api.go", "		if r.err != nil {\n			return nil, r.err\n		}\n\n		if r.res.Matches", "		if r.err != nil {\n			if len(res) > 0 {\n				log.Printf(\"search of %s: %s\", r.repo, r.err)\n				continue\n			}\n			return nil, r.err\n		}\n\n		if r.res.Matches")],
  pkg="api", test='''package api_test

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
)

func TestDemo(t *testing.T) {
	no := false
	idx := map[string]*searcher.Searcher{}
	for i := 0; i < 12; i++ {
		src := t.TempDir()
		os.WriteFile(filepath.Join(src, "a"), []byte("needle\\n"), 0644)
		db := t.TempDir()
		n := fmt.Sprintf("r%d", i)
		s, err := searcher.New(db, n, &config.Repo{Url: "file://" + src, Vcs: "local", EnablePollUpdates: &no})
		if err != nil {
			t.Fatal(err)
		}
		idx[n] = s
		if i == 0 { // its files go missing
			l, _ := filepath.Glob(filepath.Join(db, "idx-*", "raw", "a"))
			if len(l) != 1 {
				t.Fatal(l)
			}
			os.Remove(l[0])
		}
	}
	m := http.NewServeMux()
	api.Setup(m, idx, 100)
	for i := 0; i < 300; i++ {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("GET", "/api/v1/search?q=needle&repos=*", nil))
		if !strings.Contains(w.Body.String(), `"Error"`) {
			t.Fatal("no error: " + w.Body.String())
		}
	}
}
''')
B(id="v01-detect-once", property="V01", needs="detect-ref, and a remote whose default branch becomes another one after the first pull",
  breaks="the detected branch is kept, so the working copy stays on the branch that was the default one first",
  edits=[("vcs/git.go", "		targetRef = g.refDetetector.detectRef(dir)\n", "		targetRef = g.refDetetector.detectRef(dir)\n		g.Ref = targetRef\n")],
  pkg="vcs", test='''package vcs_test

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/vcs"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := filepath.Join(d, "src")
	os.Mkdir(src, 0755)
	git := func(a ...string) {
		c := exec.Command("git", a...)
		c.Dir = src
		c.Env = append(os.Environ(), "HOME="+d, "GIT_AUTHOR_NAME=x", "GIT_AUTHOR_EMAIL=x", "GIT_COMMITTER_NAME=x", "GIT_COMMITTER_EMAIL=x")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
	}
	put := func(s string) {
		os.WriteFile(filepath.Join(src, "f"), []byte(s), 0644)
		git("add", "-A")
		git("commit", "-q", "-m", s)
	}
	git("init", "-q", "-b", "one")
	put("1")
	wd, err := vcs.New("git", []byte(`{"detect-ref":true}`))
	if err != nil {
		t.Fatal(err)
	}
	w := filepath.Join(d, "wc")
	for i := 0; i < 2; i++ {
		if _, err := wd.PullOrClone(w, "file://"+src); err != nil {
			t.Fatal(err)
		}
	}
	git("checkout", "-q", "-b", "two")
	put("2")
	if _, err := wd.PullOrClone(w, "file://"+src); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(filepath.Join(w, "f")); string(b) != "2" {
		t.Fatal("the file reads " + string(b))
	}
}
''')
B(id="v02-first-mb", property="V02", needs="a watched directory with a file of more than 1 MB that changes behind its first megabyte, its size included or not",
  breaks="only the start of a large file goes into the revision, so the change is never noticed",
  edits=[("vcs/local.go", "		_, err = io.Copy(hf, r)\n", "		_, err = io.Copy(hf, io.LimitReader(r, 1<<20))\n")],
  pkg="vcs", test='''package vcs_test

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/vcs"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := filepath.Join(d, "src")
	os.Mkdir(src, 0755)
	b := bytes.Repeat([]byte("text\\n"), 1<<18)
	os.WriteFile(filepath.Join(src, "f"), b, 0644)
	wd, err := vcs.New("local", []byte(`{"watch-changes":true}`))
	if err != nil {
		t.Fatal(err)
	}
	w := filepath.Join(d, "vcs-x")
	r1, err := wd.PullOrClone(w, "file://"+src)
	if err != nil {
		t.Fatal(err)
	}
	b[len(b)-2] = 'T'
	os.WriteFile(filepath.Join(src, "f"), b, 0644)
	r2, err := wd.PullOrClone(w, "file://"+src)
	if err != nil || r1 == r2 {
		t.Fatal(err, r1, r2)
	}
}
''')
B(id="v03-half-answer", property="V03", needs="a bzr that prints something and then fails when asked for the revision",
  breaks="the failure of the command that tells the revision is ignored when it printed anything, which is then taken as the revision",
  edits=[("vcs/bzr.go", "	return strings.TrimSpace(buf.String()), cmd.Wait()", "	rev := strings.TrimSpace(buf.String())\n	if err := cmd.Wait(); err != nil && rev == \"\" {\n		return \"\", err\n	}\n	return rev, nil")],
  pkg="vcs", test='''package vcs_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/vcs"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	script := "#!/bin/sh\\ncase $1 in branch) mkdir $3;; revno) echo 12; [ -e broken ] && exit 3;; esac\\nexit 0\\n"
	os.WriteFile(filepath.Join(d, "bzr"), []byte(script), 0755)
	t.Setenv("PATH", d+":"+os.Getenv("PATH"))
	wd, err := vcs.New("bzr", nil)
	if err != nil {
		t.Fatal(err)
	}
	w := filepath.Join(d, "wc")
	if r, err := wd.PullOrClone(w, "u"); err != nil || r != "12" {
		t.Fatal(r, err)
	}
	os.WriteFile(filepath.Join(w, "broken"), nil, 0644)
	if r, err := wd.PullOrClone(w, "u"); err == nil {
		t.Fatal("no error, revision " + r)
	}
}
''')
B(id="g01-anchor-unset", property="G01", needs="a configuration with a url-pattern that has a base-url but no anchor",
  breaks="the default anchor is only filled in where the base URL is missing too",
  edits=[("config/config.go", '			r.UrlPattern.BaseUrl = defaultBaseUrl\n		}\n\n		if r.UrlPattern.Anchor == "" {\n			r.UrlPattern.Anchor = defaultAnchor\n		}', '			r.UrlPattern.BaseUrl = defaultBaseUrl\n			if r.UrlPattern.Anchor == "" {\n				r.UrlPattern.Anchor = defaultAnchor\n			}\n		}')],
  pkg="config", test='''package config_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/config"
)

func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "c.json")
	os.WriteFile(f, []byte(`{"dbpath":"d","repos":{"a":{"url":"u","url-pattern":{"base-url":"{url}/x"}}}}`), 0644)
	var c config.Config
	if err := c.LoadFromFile(f); err != nil {
		t.Fatal(err)
	}
	if p := c.Repos["a"].UrlPattern; p.Anchor != "#L{line}" || p.BaseUrl != "{url}/x" {
		t.Fatal(*p)
	}
}
''')
B(id="k01-context-twice", property="K01", needs="a match that is itself in the context of the match before, with context behind it",
  breaks="when a match lies inside the block before it the lines after it that the block has already are printed again",
  edits=[("client/coalesce.go", "	for i, n := clampZero(off-nb-1), len(m.After); i < n; i++ {", "	for i, n := clampZero(off-nb)/2, len(m.After); i < n; i++ {")],
  pkg="client", test='''package client

import (
	"testing"

	"github.com/hound-search/hound/index"
)

func TestDemo(t *testing.T) {
	b := coalesceMatches([]*index.Match{
		{Line: "2", LineNumber: 2, Before: []string{"1"}, After: []string{"3", "4", "5"}},
		{Line: "3", LineNumber: 3, After: []string{"4", "5", "6"}},
	})
	s := ""
	for _, x := range b {
		for _, l := range x.Lines {
			s += l
		}
	}
	if s != "123456" {
		t.Fatal(s)
	}
}
''')
B(id="s04-blank-end", property="S04", needs="a file whose last line has no newline and consists of blanks only, and a match close enough before it",
  breaks="such a last line is left out of the context behind a match",
  edits=[("index/grep.go", "			if len(buf) == 0 {\n				return r[:i]\n			}", "			if len(bytes.TrimSpace(buf)) == 0 {\n				return r[:i]\n			}")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": "one\\ntwo\\n  "})
	r, err := ix.Search("one", &index.SearchOptions{LinesOfContext: 5})
	if err != nil || len(r.Matches) != 1 || len(r.Matches[0].Matches[0].After) != 2 {
		t.Fatal(err, r)
	}
}
''')
B(id="a01-clamp", property="A01", needs="a ctx or limit parameter that is too large for the parser",
  breaks="a value beyond the largest allowed one that does not fit 54 bits is taken as malformed: the default instead of the maximum",
  edits=[("api/api.go", 'XX', 'YY')], pkg="api", test="")
BUGS.pop()

_ns = {}
exec(open("/verif/.cache/specs/b2.py").read().split("\nB(id=")[0], _ns)
IDX, FAKE, BUGS, B = _ns["IDX"], _ns["FAKE"], _ns["BUGS"], _ns["B"]
_n3 = {}
API = open("/verif/.cache/specs/b3.py").read().split("\nAPI = ")[1]
API = eval("(" + API.split("\nB(id=")[0] + ")", dict(FAKE=FAKE))
B(id="g02-dir-fold", property="G02", needs="a repository whose URL is changed to one that differs from it only in case, before a restart",
  breaks="the name of the working copy is made from the URL in lower case, so the new repository is served from the old one's working copy",
  edits=[("searcher/searcher.go", "	h.Write([]byte(name))  //nolint", "	h.Write([]byte(strings.ToLower(name)))  //nolint")],
  pkg="searcher", test='''package searcher_test

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	f := filepath.Join(d, "c.json")
	os.Mkdir(filepath.Join(d, "db"), 0755)
	for _, n := range []string{"Work", "work"} {
		os.Mkdir(filepath.Join(d, n), 0755)
		os.WriteFile(filepath.Join(d, n, "in-"+n), []byte("text\\n"), 0644)
		os.WriteFile(f, []byte(`{"dbpath":"db","repos":{"r":{"vcs":"local","url":"file://`+filepath.Join(d, n)+`","enable-poll-updates":false}}}`), 0644)
		var cfg config.Config
		if err := cfg.LoadFromFile(f); err != nil {
			t.Fatal(err)
		}
		ss, errs, err := searcher.MakeAll(&cfg)
		if err != nil || len(errs) > 0 {
			t.Fatal(err, errs)
		}
		res, err := ss["r"].Search("text", &index.SearchOptions{})
		if err != nil || len(res.Matches) != 1 || res.Matches[0].Filename != "in-"+n {
			t.Fatal(n, err, res)
		}
	}
}
''')
B(id="a02-hook-limit", property="A02", needs="a webhook of more than 16 kB, as after a push of several commits, in which the repository is not at the beginning",
  breaks="the body of a webhook is read up to a limit, so the update for a big push is refused as malformed",
  edits=[("api/api.go", "		err := json.NewDecoder(r.Body).Decode(&h)", "		err := json.NewDecoder(http.MaxBytesReader(w, r.Body, 1<<14)).Decode(&h)")],
  pkg="api", test=API + '''
func TestDemo(t *testing.T) {
	remote = func(n int, dir string) (string, error) {
		tree(dir, map[string]string{"a": "x"})
		return "r1", nil
	}
	m := http.NewServeMux()
	yes := true
	api.Setup(m, map[string]*searcher.Searcher{"o/r": start(t, &config.Repo{EnablePushUpdates: &yes})}, 1)
	for _, n := range []int{1, 1000} {
		w := httptest.NewRecorder()
		m.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/github-webhook",
			strings.NewReader(`{"commits":[`+strings.Repeat(`{"id":"0123456789","message":"m"},`, n)+`{}],"repository":{"full_name":"o/r"}}`)))
		if w.Code != 200 {
			t.Fatal(n, w.Code, w.Body.String())
		}
	}
}
''')
B(id="v01-ref-case", property="V01", needs="a branch with capital letters in its name, updated at the remote after the clone",
  breaks="the tracked ref is fetched by its name in lower case, which fails without a trace, and the working copy stays at the commit of the default branch",
  edits=[("vcs/git.go", '''	if targetRef == "" {
		targetRef = defaultRef
	}
''', '''	if targetRef == "" {
		targetRef = defaultRef
	}
	targetRef = strings.ToLower(targetRef)
''')],
  pkg="vcs", test='''package vcs_test

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/hound-search/hound/vcs"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	src := filepath.Join(d, "src")
	os.Mkdir(src, 0755)
	git := func(a ...string) {
		c := exec.Command("git", a...)
		c.Dir = src
		c.Env = append(os.Environ(), "HOME="+d, "GIT_AUTHOR_NAME=x", "GIT_AUTHOR_EMAIL=x", "GIT_COMMITTER_NAME=x", "GIT_COMMITTER_EMAIL=x")
		if out, err := c.CombinedOutput(); err != nil {
			t.Fatal(string(out))
		}
	}
	wd, err := vcs.New("git", []byte(`{"ref":"Rel-1.X"}`))
	if err != nil {
		t.Fatal(err)
	}
	w := filepath.Join(d, "wc")
	for i, s := range []string{"1", "2"} {
		if i == 0 {
			git("init", "-q", "-b", "master")
			os.WriteFile(filepath.Join(src, "f"), []byte("master"), 0644)
			git("add", "-A")
			git("commit", "-q", "-m", "m")
			git("checkout", "-q", "-b", "Rel-1.X")
		}
		os.WriteFile(filepath.Join(src, "f"), []byte(s), 0644)
		git("add", "-A")
		git("commit", "-q", "-m", s)
		git("checkout", "-q", "master")
		if _, err := wd.PullOrClone(w, "file://"+src); err != nil {
			t.Fatal(err)
		}
		if b, _ := os.ReadFile(filepath.Join(w, "f")); string(b) != s {
			t.Fatalf("%q, expected %q", b, s)
		}
		git("checkout", "-q", "Rel-1.X")
	}
}
''')
B(id="i01-raw-suffix", property="I01", needs="a tree with two files one of which has the name of the other and .gz",
  breaks="the copies of the files are named with the suffix .gz unless they have it, so of two files the second takes the place of the first, whose text is searched no more",
  edits=[("index/index.go", '	dup := filepath.Join(dst, "raw", rel)\n	w,', '	dup := rawName(dst, rel)\n	w,'),
         ("index/index.go", 'filepath.Join(n.Ref.dir, "raw", name)', 'rawName(n.Ref.dir, name)'),
         ("index/index.go", "func containsString(", '''// the copy of a file, which is compressed.
func rawName(dir, name string) string {
	return filepath.Join(dir, "raw", strings.TrimSuffix(name, ".gz")+".gz")
}

func containsString('''),
         ("index/index.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	src, dst := filepath.Join(d, "src"), filepath.Join(d, "dst")
	os.Mkdir(src, 0755)
	os.WriteFile(filepath.Join(src, "notes"), []byte("apples\\n"), 0644)
	os.WriteFile(filepath.Join(src, "notes.gz"), []byte("pears\\n"), 0644)
	r, err := index.Build(&index.IndexOptions{}, dst, src, "u", "r")
	if err != nil {
		t.Fatal(err)
	}
	ix, err := r.Open()
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"apples", "pears"} {
		res, err := ix.Search(s, &index.SearchOptions{})
		if err != nil || len(res.Matches) != 1 {
			t.Fatal(s, err, res)
		}
	}
}
''')
B(id="i04-manifest-json", property="I04", needs="an auto-generated file whose name is not valid UTF-8, and a restart",
  breaks="the manifest is kept as JSON, in which such a name is not itself any more, so after a restart the file is no longer flagged",
  edits=[("index/index.go", "gob.NewEncoder(w)", "json.NewEncoder(w)"), ("index/index.go", "gob.NewDecoder(r)", "json.NewDecoder(r)"), ("index/index.go", '	"encoding/gob"\n', "")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	src, dst := filepath.Join(d, "src"), filepath.Join(d, "dst")
	os.Mkdir(src, 0755)
	os.WriteFile(filepath.Join(src, "caf\\xe9.go"), []byte("apples\\n"), 0644)
	r, err := index.Build(&index.IndexOptions{AutoGeneratedFiles: []string{"caf\\xe9.go"}}, dst, src, "u", "r")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		ix, err := r.Open()
		if err != nil {
			t.Fatal(err)
		}
		res, err := ix.Search("apples", &index.SearchOptions{})
		if err != nil || len(res.Matches) != 1 || !res.Matches[0].AutoGenerated {
			t.Fatal(i, err, res)
		}
		if r, err = index.Read(dst); err != nil {
			t.Fatal(err)
		}
	}
}
''')
B(id="s03-state-cap", property="S03", needs="a pattern whose automaton gets more than 500 states in one run",
  breaks="when the cache of states is full it is dropped in the middle of a match and the state being built becomes the one that lines begin in",
  edits=[("codesearch/regexp/match.go", "	m.dstate[enc] = d\n", "	if len(m.dstate) > 500 {\n		m.dstate = map[string]*dstate{}\n		m.start = d\n	}\n	m.dstate[enc] = d\n")],
  pkg="codesearch/regexp", test='''package regexp

import (
	stdre "regexp"
	"testing"
)

func TestDemo(t *testing.T) {
	const pat = "a[ab]{10}$"
	re, err := Compile("(?m)" + pat)
	if err != nil {
		t.Fatal(err)
	}
	std := stdre.MustCompile(pat)
	for i := 0; i < 1<<13; i++ {
		var b []byte
		for k := 0; k < 13-i%5; k++ {
			b = append(b, "ab"[i>>k&1])
		}
		if got := re.Match(append(b, 10), true, true) >= 0; got != std.Match(b) {
			t.Fatalf("%s: %v", b, got)
		}
	}
}
''')

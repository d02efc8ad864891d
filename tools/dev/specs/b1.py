BUGS = []
def B(**k): BUGS.append(k)

IDX = '''package index_test

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/index"
)

var _ = strings.Repeat
var _ = os.Remove

func build(t *testing.T, opt *index.IndexOptions, files map[string]string) *index.Index {
	src := filepath.Join(t.TempDir(), "src")
	dst := filepath.Join(t.TempDir(), "dst")
	for n, s := range files {
		p := filepath.Join(src, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(s), 0644); err != nil {
			t.Fatal(err)
		}
	}
	r, err := index.Build(opt, dst, src, "u", "r")
	if err != nil {
		t.Fatal(err)
	}
	ix, err := r.Open()
	if err != nil {
		t.Fatal(err)
	}
	return ix
}
'''
B(id="s01-trim-cr", property="S01", needs="a file with CRLF line ends",
  breaks="the carriage return at the end of a reported line is cut off, so its text is not the text of the line",
  edits=[("index/grep.go", 'bytes.TrimRight(buf[str:end], "\\n")', 'bytes.TrimRight(buf[str:end], "\\r\\n")')],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": "one\\r\\ntwo\\r\\n"})
	r, err := ix.Search("two", &index.SearchOptions{})
	if err != nil || len(r.Matches) != 1 || r.Matches[0].Matches[0].Line != "two\\r" {
		t.Fatal(err, r)
	}
}
''')
B(id="s02-fold-pair", property="S02", needs="a case-insensitive pattern with k or s and a file that has the Kelvin sign or the long s instead",
  breaks="the index lookup takes a letter to have two cases only, so a file with the third form is no candidate",
  edits=[("codesearch/index/regexp.go", "				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {\n					re1.Rune = append(re1.Rune, r1, r1)\n				}", "				if r1 := unicode.SimpleFold(r0); r1 != r0 {\n					re1.Rune = append(re1.Rune, r1, r1)\n				}")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": "a ta\\u017fk b\\n", "b": "5 \\u212aelvin\\n"})
	for _, p := range []string{"task", "kelvin", "TASK", "KELVIN"} {
		r, err := ix.Search(p, &index.SearchOptions{IgnoreCase: true})
		if err != nil || len(r.Matches) != 1 {
			t.Fatal(p, err, r)
		}
	}
}
''')
B(id="s03-suffix-cache", property="S03", needs="a pattern with two multi-byte characters that end with the same byte",
  breaks="the compiled bytes of one character are reused for another one although they lead to a different place in the program",
  edits=[("codesearch/regexp/utf.go", "	if b.cache == nil {\n		b.cache = make(map[cacheKey]uint32)\n	}\n	for k := range b.cache {\n		delete(b.cache, k)\n	}\n", "	if b.cache == nil {\n		b.cache = make(map[cacheKey]uint32)\n	}\n")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": "caf\\u00e9 m\\u00e9l\\n"})
	for _, p := range []string{"caf\\u00e9 m\\u00e9l", "\\u00e9.*\\u00e9"} {
		r, err := ix.Search(p, &index.SearchOptions{})
		if err != nil || len(r.Matches) != 1 {
			t.Fatal(p, err, r)
		}
	}
}
''')
B(id="s05-stop-at-limit", property="S05", needs="a range smaller than the number of matching files",
  breaks="files beyond the range are not looked at any more, so the total number of matching files is wrong",
  edits=[("index/index.go", "		filesOpened++\n", "		if opt.Limit > 0 && filesCollected >= opt.Limit && opt.MaxResults > 0 {\n			break\n		}\n\n		filesOpened++\n")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": "x\\n", "b": "x\\n", "c": "x\\n"})
	r, err := ix.Search("x", &index.SearchOptions{Limit: 1, MaxResults: 100})
	if err != nil || r.FilesWithMatch != 3 {
		t.Fatal(err, r)
	}
}
''')
B(id="s06-filter-case", property="S06", needs="a case-insensitive search with a file pattern that differs from a name only in case",
  breaks="the file filter ignores case when the search does, so files that do not match it are reported",
  edits=[("index/index.go", "		fre, err = regexp.Compile(opt.FileRegexp)", "		fre, err = regexp.Compile(GetRegexpPattern(opt.FileRegexp, opt.IgnoreCase))")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"Makefile": "x\\n", "makefile": "x\\n"})
	r, err := ix.Search("X", &index.SearchOptions{IgnoreCase: true, FileRegexp: "^make"})
	if err != nil || len(r.Matches) != 1 || r.Matches[0].Filename != "makefile" {
		t.Fatal(err, r)
	}
}
''')
B(id="i01-peek-whole", property="I01", needs="a file of exactly the size that is looked at, or longer, with a multi-byte character across that size",
  breaks="a text file with a multi-byte character across byte 2048 is excluded as not being text",
  edits=[("index/index.go", "	if n < filePeekSize {", "	if n <= filePeekSize {")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{}, map[string]string{"a": strings.Repeat("0123456 89\\n", 200)[:2047] + "\\u00e9 needle\\n"})
	r, err := ix.Search("needle", &index.SearchOptions{})
	if err != nil || len(r.Matches) != 1 {
		t.Fatal(err, r)
	}
}
''')
B(id="i04-autogen-first", property="I04", needs="a list of auto-generated files whose order is not the one of the search results",
  breaks="only the first name of the list that follows the last one found is compared, so later files are not marked",
  edits=[("index/index.go", "	for i, n := 0, len(haystack); i < n; i++ {\n		if haystack[i] == needle {\n			return true\n		}\n	}\n	return false", "	for i, n := 0, len(haystack); i < n; i++ {\n		if haystack[i] >= needle {\n			return haystack[i] == needle\n		}\n	}\n	return false")],
  pkg="index", test=IDX + '''
func TestDemo(t *testing.T) {
	ix := build(t, &index.IndexOptions{AutoGeneratedFiles: []string{"z", "a"}}, map[string]string{"a": "x\\n", "b": "x\\n", "z": "x\\n"})
	r, err := ix.Search("x", &index.SearchOptions{})
	if err != nil || len(r.Matches) != 3 || !r.Matches[0].AutoGenerated || r.Matches[1].AutoGenerated || !r.Matches[2].AutoGenerated {
		t.Fatal(err, r)
	}
}
''')
B(id="s07-lock-candidates", property="S07", needs="an index destroyed while a search reads its files",
  breaks="the lock is held only while the trigram index is consulted, so the files can be removed under a search that is reading them",
  edits=[("index/index.go", "	n.lck.RLock()\n	defer n.lck.RUnlock()\n\n	patForRe", "	patForRe"),
   ("index/index.go", "	files := n.idx.PostingQuery(index.RegexpQuery(re.Syntax))\n	for _, file := range files {\n		var matches []*Match\n		name := n.idx.Name(file)\n", "	for _, name := range n.candidates(re) {\n		var matches []*Match\n"),
   ("index/index.go", "func isTextFile(", "// candidates gives the names of the files that may match.\nfunc (n *Index) candidates(re *regexp.Regexp) []string {\n	n.lck.RLock()\n	defer n.lck.RUnlock()\n	var names []string\n	for _, file := range n.idx.PostingQuery(index.RegexpQuery(re.Syntax)) {\n		names = append(names, n.idx.Name(file))\n	}\n	return names\n}\n\nfunc isTextFile(")],
  pkg="index", test=IDX.replace("package index_test","package index").replace('	"github.com/hound-search/hound/index"\n','	"time"\n').replace("index.","") + '''
func TestDemo(t *testing.T) {
	for try := 0; try < 3; try++ {
		fs := map[string]string{}
		for i := 0; i < 4000; i++ {
			fs["f"+time.Duration(i).String()] = "needle\\n" + strings.Repeat("text\\n", 500)
		}
		ix := build(t, &IndexOptions{}, fs)
		done := make(chan error)
		n := 0
		go func() {
			r, err := ix.Search("needle", &SearchOptions{})
			if err == nil {
				n = len(r.Matches)
			}
			done <- err
		}()
		// destroy it as soon as the search holds the lock
		for end := time.Now().Add(5 * time.Second); time.Now().Before(end); {
			if !ix.lck.TryLock() {
				break
			}
			ix.lck.Unlock()
		}
		if err := ix.Destroy(); err != nil {
			t.Fatal(err)
		}
		if err := <-done; err != nil || n != len(fs) {
			t.Fatal(err, n)
		}
	}
}
''')
SE = '''package searcher

import (
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"
)

type fake struct{ pull func(dir string) (string, error) }

func (f *fake) Clone(dir, url string) (string, error) {
	os.MkdirAll(dir, 0755)
	return f.pull(dir)
}
func (f *fake) Pull(dir string) (string, error)    { return f.pull(dir) }
func (f *fake) HeadRev(dir string) (string, error) { return f.pull(dir) }
func (f *fake) SpecialFiles() []string             { return nil }
func (f *fake) AutoGeneratedFiles(dir string) []string { return nil }

var theFake = &fake{}

func init() {
	vcs.Register(func(b []byte) (vcs.Driver, error) { return theFake, nil }, "demofake")
}

func repo(t *testing.T, poll int) *config.Repo {
	no, yes := false, true
	r := &config.Repo{Url: "http://x/y", Vcs: "demofake", EnablePushUpdates: &yes, EnablePollUpdates: &no, MsBetweenPolls: poll}
	if poll > 0 {
		r.EnablePollUpdates = &yes
	}
	return r
}

var _ = filepath.Join
var _ = time.Now
var _ = index.Open
'''
B(id="c01-two-locks", property="C01", needs="a reindex that finishes while a search that began before is reading the files of the old index",
  breaks="a search takes the live index and leaves the searcher's lock, and the index is locked only while its trigrams are consulted, so the swap removes the files under it",
  edits=[("searcher/searcher.go", "	s.lck.RLock()\n	defer s.lck.RUnlock()\n	return s.idx.Search(pat, opt)", "	s.lck.RLock()\n	idx := s.idx\n	s.lck.RUnlock()\n	return idx.Search(pat, opt)"),
("index/index.go", "	n.lck.RLock()\n	defer n.lck.RUnlock()\n\n	patForRe", "	patForRe"),
   ("index/index.go", "	files := n.idx.PostingQuery(index.RegexpQuery(re.Syntax))\n	for _, file := range files {\n		var matches []*Match\n		name := n.idx.Name(file)\n", "	for _, name := range n.candidates(re) {\n		var matches []*Match\n"),
   ("index/index.go", "func isTextFile(", "// candidates gives the names of the files that may match.\nfunc (n *Index) candidates(re *regexp.Regexp) []string {\n	n.lck.RLock()\n	defer n.lck.RUnlock()\n	var names []string\n	for _, file := range n.idx.PostingQuery(index.RegexpQuery(re.Syntax)) {\n		names = append(names, n.idx.Name(file))\n	}\n	return names\n}\n\nfunc isTextFile(")],
  pkg="searcher", test=SE + '''
func TestDemo(t *testing.T) {
	n := 0
	theFake.pull = func(dir string) (string, error) {
		n++
		if n == 1 {
			for i := 0; i < 3000; i++ {
				os.WriteFile(filepath.Join(dir, time.Duration(i).String()), []byte("needle\\nand more text\\n"), 0644)
			}
		} else {
			for i := 1; i < 3000; i++ {
				os.Remove(filepath.Join(dir, time.Duration(i).String()))
			}
		}
		return time.Duration(n).String(), nil
	}
	s, err := New(t.TempDir(), "r", repo(t, 0))
	if err != nil {
		t.Fatal(err)
	}
	stop := time.Now().Add(6 * time.Second)
	bad := make(chan error, 4)
	for i := 0; i < 4; i++ {
		go func() {
			for time.Now().Before(stop) {
				r, err := s.Search("needle", &index.SearchOptions{})
				if err == nil && len(r.Matches) != 3000 && len(r.Matches) != 1 {
					err = os.ErrInvalid
				}
				if err != nil {
					bad <- err
					return
				}
			}
			bad <- nil
		}()
	}
	time.Sleep(500 * time.Millisecond)
	s.Update()
	for i := 0; i < 4; i++ {
		if e := <-bad; e != nil {
			t.Fatal(e)
		}
	}
}
''')
B(id="c04-stop-unbuffered", property="C04", needs="a stop that arrives while the searcher is pulling or indexing, with polling off",
  breaks="the request to stop is not kept while the poller is busy, so afterwards it waits for an update that never comes and the shutdown hangs",
  edits=[("searcher/searcher.go", "		shutdownCh: make(chan empty, 1),", "		shutdownCh: make(chan empty),")],
  pkg="searcher", test=SE + '''
func TestDemo(t *testing.T) {
	in, out := make(chan bool), make(chan bool)
	first := true
	theFake.pull = func(dir string) (string, error) {
		if !first {
			in <- true
			<-out
		}
		first = false
		return "r", nil
	}
	s, err := New(t.TempDir(), "r", repo(t, 0))
	if err != nil {
		t.Fatal(err)
	}
	s.Update()
	<-in
	s.Stop()
	out <- true
	done := make(chan bool)
	go func() { s.Wait(); done <- true }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("not stopped")
	}
}
''')
B(id="c05-update-unbuffered", property="C05", needs="an update request while the repository is being pulled or indexed",
  breaks="an update requested while one is running is accepted and forgotten",
  edits=[("searcher/searcher.go", "		updateCh:   make(chan time.Time, 1),", "		updateCh:   make(chan time.Time),")],
  pkg="searcher", test=SE + '''
func TestDemo(t *testing.T) {
	in, out := make(chan bool), make(chan bool)
	first := true
	theFake.pull = func(dir string) (string, error) {
		if !first {
			in <- true
			<-out
		}
		first = false
		return "r", nil
	}
	s, err := New(t.TempDir(), "r", repo(t, 0))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 1000; i++ {
		s.Update()
		time.Sleep(5 * time.Millisecond)
		select {
		case <-in:
			i = 2000
		default:
		}
	}
	s.Update()
	out <- true
	select {
	case <-in:
	case <-time.After(20 * time.Second):
		t.Fatal("no pull after the second request")
	}
}
''')
B(id="c06-release-early", property="C06", needs="an update of one repository while another is being indexed, with a limit of one",
  breaks="the slot is given back after the pull, so more repositories than allowed are indexed at once",
  edits=[("searcher/searcher.go", "	lim.Acquire()\n	defer lim.Release()\n\n	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n\n", "	lim.Acquire()\n\n	defer lockVcsDir(vcsDir)()\n\n	repo := s.Repo\n	newRev, err := wd.PullOrClone(vcsDir, repo.Url)\n	lim.Release()\n\n")],
  pkg="searcher", test=SE + '''
func TestDemo(t *testing.T) {
	// indexing of the repository blocks on a fifo; meanwhile a slot must not be free
	n := 0
	db := t.TempDir()
	theFake.pull = func(dir string) (string, error) {
		n++
		os.WriteFile(filepath.Join(dir, "f"), []byte("x\\n"), 0644)
		return "r" + string(rune('a'+n)), nil
	}
	lim := makeLimiter(1)
	r := repo(t, 0)
	s, err := newSearcher(db, "r", r, &foundRefs{}, lim)
	if err != nil {
		t.Fatal(err)
	}
	s.begin()
	// many small files make the indexing take a while
	d := filepath.Join(db, vcsDirFor(r))
	for i := 0; i < 20000; i++ {
		os.WriteFile(filepath.Join(d, "n"+time.Duration(i).String()), []byte("x y z\\n"), 0644)
	}
	s.Update()
	for i := 0; i < 20000; i++ {
		time.Sleep(time.Millisecond)
		m, _ := filepath.Glob(filepath.Join(db, "idx-*"))
		if len(m) == 2 {
			if len(lim) == 0 {
				// may just have finished
				m2, _ := filepath.Glob(filepath.Join(db, "idx-*"))
				if len(m2) == 2 {
					t.Fatal("indexing without a slot")
				}
			}
			return
		}
	}
}
''')

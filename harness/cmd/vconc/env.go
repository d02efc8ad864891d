//go:build vsched

// vconc explores the schedules of the real searcher, api and web packages.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"

	"hv/vs"
)

// ---- event log --------------------------------------------------------------
// Events are recorded without synchronisation that the race detector could see.

type event struct {
	Kind int
	Repo int
	A, B int
	Tid  int
}

const (
	evPullBegin = iota + 1
	evPullEnd
	evCall // A: operation number
	evRet
	evMark
)

// ---- environment ------------------------------------------------------------

// answer of one pull
const (
	ansErr    = -1
	ansBroken = -2   // pull succeeds with a new revision but the tree cannot be indexed
	ansTorn   = -100 // ansTorn-n: the same, with revision n, which a later pull may bring whole
)

type repo struct {
	id           int
	name         string
	plan         []int // answers of successive pulls; the last one repeats
	n            int   // pulls so far
	rev          int   // last revision handed out
	url          string
	poll         *bool
	push         *bool
	dot          bool
	auto         []string        // configured
	slow         []time.Duration // how long successive pulls take
	began, ended []int64         // when, on the clock of the execution
	// what the driver says is auto-generated, by revision
	marks func(rev int) []string
}

type env struct {
	dir     string
	db      string
	cfg     *config.Config
	repos   []*repo
	ev      []event
	nev     int
	running int // pulls in progress
	limit   int // allowed indexers, 0: not checked
	over    string
	tree    func(r *repo, rev int) map[string]string
	// how a working copy that several repositories use behaves (git: what was fetched
	// last is what it is reset to, and an existing directory cannot be cloned into)
	shared bool
	dirs   [64]workdir // not a map: the race detector looks into those regardless of norace
	ndirs  int
	busy   int // most repositories seen pulling or indexing at once
}

type fetch struct{ id, rev int }

// workdir is what is known of a working copy.
type workdir struct {
	dir     string
	url     string // the url it was cloned from
	cloned  bool
	fetched fetch
}

var current *env

var scratch string
var envSeq int

func scratchBase() string {
	if scratch == "" {
		base := os.Getenv("HV_SCRATCH")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "vconc")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return scratch
}

func bp(b bool) *bool { return &b }

var defaultURLs = []string{"fake://h/p/Repo", "fake://h/p/repo", "fake://h/p/repo.git", "fake://o/p/repo", "fake://h/p/repo/"}

func newEnv(repos ...*repo) *env {
	e := &env{ev: make([]event, 4096), tree: defaultTree}
	envSeq++
	e.dir = filepath.Join(scratchBase(), fmt.Sprintf("e%d", envSeq))
	e.db = filepath.Join(e.dir, "db")
	must(os.MkdirAll(e.db, 0755))
	tmp := filepath.Join(e.dir, "tmp")
	must(os.MkdirAll(tmp, 0755))
	os.Setenv("TMPDIR", tmp)
	e.cfg = &config.Config{DbPath: e.db, Repos: map[string]*config.Repo{}, MaxConcurrentIndexers: 2, ResultLimit: 5000, HealthCheckURI: "/healthz", Title: "T"}
	for i, r := range repos {
		r.id = i
		if r.url == "" {
			// much alike, but each another repository
			r.url = "fake://h/p/repo-" + r.name
			if i < len(defaultURLs) {
				r.url = defaultURLs[i]
			}
		}
		e.repos = append(e.repos, r)
		cfg := config.SecretMessage([]byte(fmt.Sprintf(`{"repo":%d}`, i)))
		e.cfg.Repos[r.name] = &config.Repo{Url: r.url, Vcs: "vfake", MsBetweenPolls: 1000, VcsConfigMessage: &cfg,
			EnablePollUpdates: r.poll, EnablePushUpdates: r.push, ExcludeDotFiles: r.dot, AutoGeneratedFiles: r.auto,
			UrlPattern: &config.UrlPattern{BaseUrl: "b", Anchor: "a"}}
	}
	current = e
	return e
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (e *env) done() {
	os.RemoveAll(e.dir)
	if current == e {
		current = nil
	}
}

//go:norace
func (e *env) log(kind, repo, a, b int) {
	if e.nev < len(e.ev) {
		e.ev[e.nev] = event{kind, repo, a, b, vs.Tid()}
		e.nev++
	}
}

func (e *env) events() []event { return e.ev[:e.nev] }

func (e *env) trace() string {
	var sb strings.Builder
	for _, x := range e.events() {
		fmt.Fprintf(&sb, "%s(%d,%d,%d)@%d ", map[int]string{1: "pull", 2: "pulled", 3: "call", 4: "ret", 5: "mark"}[x.Kind], x.Repo, x.A, x.B, x.Tid)
	}
	return sb.String()
}

// ---- fake driver ------------------------------------------------------------

type fake struct{ id int }

func init() {
	vcs.Register(func(b []byte) (vcs.Driver, error) {
		var c struct{ Repo int }
		if err := json.Unmarshal(b, &c); err != nil {
			return nil, err
		}
		return &fake{c.Repo}, nil
	}, "vfake")
}

//go:norace
func (e *env) begin(r *repo) int {
	i := r.n
	r.n++
	if i >= len(r.plan) {
		i = len(r.plan) - 1
	}
	e.running++
	r.began = append(r.began, runtime.VClock())
	e.log(evPullBegin, r.id, r.plan[i], 0)
	if e.running > e.busy {
		e.busy = e.running
	}
	return r.plan[i]
}

//go:norace
func (e *env) end(r *repo, rev int) {
	e.running--
	r.ended = append(r.ended, runtime.VClock())
	if rev > 0 {
		r.rev = rev
	}
	e.log(evPullEnd, r.id, rev, 0)
}

//go:norace
func (e *env) lastRev(r *repo) int { return r.rev }

// indexing counts the repositories whose index is being built: index directories
// that have no manifest yet, those of failed builds left out.
func (e *env) indexing() int {
	ds, _ := filepath.Glob(filepath.Join(e.db, "idx-*"))
	n := 0
	for _, d := range ds {
		if _, err := os.Stat(filepath.Join(d, "metadata.gob")); err == nil {
			continue
		}
		if _, err := os.Stat(filepath.Join(d, "raw")); err != nil {
			continue
		}
		if _, err := os.Stat(filepath.Join(d, "tri")); err == nil {
			// finished or being removed
			if _, err := os.Stat(filepath.Join(d, "excluded_files.json")); err != nil {
				continue
			}
		}
		if rs, err := os.ReadDir(filepath.Join(d, "raw")); err != nil || len(rs) == 0 {
			continue
		}
		n++
	}
	return n
}

//go:norace
func (e *env) checkBusy() {
	if e.limit == 0 {
		return
	}
	n := e.running
	vs.Quiet(func() { n += e.indexing() })
	if n > e.busy {
		e.busy = n
	}
	if n > e.limit && e.over == "" {
		e.over = fmt.Sprintf("%d repositories pulling or indexing at once, limit %d", n, e.limit)
	}
}

//go:norace
func (e *env) workdir(dir string) *workdir {
	for i := 0; i < e.ndirs; i++ {
		if e.dirs[i].dir == dir {
			return &e.dirs[i]
		}
	}
	if e.ndirs == len(e.dirs) {
		panic("harness: too many working copies")
	}
	e.dirs[e.ndirs].dir = dir
	e.ndirs++
	return &e.dirs[e.ndirs-1]
}

//go:norace
func (e *env) fetch(dir string, id, rev int) {
	w := e.workdir(dir)
	w.fetched.id, w.fetched.rev = id, rev
}

// whose tells what a directory is a working copy of: that of the repository which was
// cloned into it.
//
//go:norace
func (e *env) whose(dir, url string, clone bool, r *repo) *repo {
	w := e.workdir(dir)
	if clone && (!w.cloned || !e.shared) {
		w.cloned, w.url = true, url
	}
	if w.cloned && w.url != r.url {
		for _, x := range e.repos {
			if x.url == w.url {
				return x
			}
		}
	}
	return r
}

//go:norace
func (e *env) lastFetch(dir string) fetch { return e.workdir(dir).fetched }

// pullShared pulls like git: three steps on the directory.
func (f *fake) pullShared(e *env, dir, url string, clone bool) (string, error) {
	r := e.repos[f.id]
	origin := e.whose(dir, url, clone, r)
	ans := e.begin(r)
	if clone {
		there := false
		vs.Quiet(func() {
			_, err := os.Stat(dir)
			there = err == nil
			if !there {
				must(os.MkdirAll(dir, 0755))
			}
		})
		if there {
			e.end(r, ansErr)
			return "", fmt.Errorf("%s already exists", dir)
		}
		vs.Point()
	}
	e.fetch(dir, origin.id, ans)
	vs.Point()
	x := e.lastFetch(dir)
	vs.Quiet(func() {
		os.RemoveAll(dir)
		writeTree(dir, e.tree(e.repos[x.id], x.rev))
	})
	e.end(r, x.rev)
	return revName(x.rev), nil
}

func (f *fake) pull(dir, url string, clone bool) (string, error) {
	if current.shared {
		return f.pullShared(current, dir, url, clone)
	}
	defer runtime.VFaultPause(runtime.VFaultPause(true))
	e := current
	r := e.repos[f.id]
	origin := e.whose(dir, url, clone, r)
	ans := e.begin(r)
	e.checkBusy()
	if n := len(r.began); n <= len(r.slow) && r.slow[n-1] > 0 {
		time.Sleep(r.slow[n-1])
	}
	vs.Point()
	e.checkBusy()
	switch {
	case ans == ansErr:
		e.end(r, ansErr)
		return "", errors.New("pull failed")
	case ans < ansTorn:
		vs.Quiet(func() { os.RemoveAll(dir) })
		e.end(r, ans)
		return revName(ansTorn - ans), nil
	case ans == ansBroken:
		vs.Quiet(func() { os.RemoveAll(dir) })
		e.end(r, ansBroken)
		return fmt.Sprintf("broken%d", r.n), nil
	}
	vs.Quiet(func() {
		os.RemoveAll(dir)
		writeTree(dir, e.tree(origin, ans))
	})
	e.end(r, ans)
	return revName(ans), nil
}

func revName(n int) string { return fmt.Sprintf("r%d", n) }

func (f *fake) Clone(dir, url string) (string, error) { return f.pull(dir, url, true) }
func (f *fake) Pull(dir string) (string, error)       { return f.pull(dir, "", false) }
func (f *fake) HeadRev(dir string) (string, error) {
	return revName(current.lastRev(current.repos[f.id])), nil
}
func (f *fake) SpecialFiles() []string { return []string{".fake"} }
func (f *fake) AutoGeneratedFiles(dir string) []string {
	r := current.repos[f.id]
	if r.marks == nil {
		return nil
	}
	return r.marks(current.lastRev(r))
}

func writeTree(dir string, tree map[string]string) {
	must(os.MkdirAll(dir, 0755))
	for n, c := range tree {
		p := filepath.Join(dir, n)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, []byte(c), 0644))
	}
}

// defaultTree: two searchable files and one excluded file per revision; the set of
// files, the number of matches and the excluded file differ between revisions.
func defaultTree(r *repo, rev int) map[string]string {
	t := map[string]string{}
	t["a.txt"] = fmt.Sprintf("head\nneedle %s r%d\nfoot\n", r.name, rev)
	if rev%2 == 0 {
		t["b.txt"] = fmt.Sprintf("needle %s second r%d\n", r.name, rev)
	} else {
		t["c.txt"] = fmt.Sprintf("nothing\nneedle %s third r%d", r.name, rev)
	}
	t[fmt.Sprintf("bin%d", rev)] = "\xff\xfe\x00"
	return t
}

// expect is the reference: the matches of a plain substring in the searchable files.
func expect(tree map[string]string, sub string) string {
	var names []string
	for n := range tree {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		if strings.ContainsRune(tree[n], 0) {
			continue
		}
		ls := strings.Split(tree[n], "\n")
		for i, l := range ls {
			if strings.Contains(l, sub) {
				fmt.Fprintf(&sb, "%s:%d:%s\n", n, i+1, l)
			}
		}
	}
	return sb.String()
}

func expectExcluded(tree map[string]string) string {
	var names []string
	for n := range tree {
		if strings.ContainsRune(tree[n], 0) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	return strings.Join(names, ",")
}

func render(r *index.SearchResponse) string {
	var sb strings.Builder
	for _, f := range r.Matches {
		for _, m := range f.Matches {
			fmt.Fprintf(&sb, "%s:%d:%s\n", f.Filename, m.LineNumber, m.Line)
		}
	}
	return sb.String()
}

// ---- operations on searchers ------------------------------------------------

type searchRes struct {
	from, to int // event indices
	got      string
	rev      string
	files    int
	err      string
}

//go:norace
func (e *env) now() int { return e.nev }

func protect(err *string, f func()) {
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			*err = fmt.Sprint("panic: ", r)
			if os.Getenv("VS_DEBUG") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
}

// search records one search of s for sub.
func (e *env) search(s *searcher.Searcher, op int, sub string, out *searchRes) {
	e.log(evCall, -1, op, 0)
	out.from = e.now()
	protect(&out.err, func() {
		r, err := s.Search(sub, &index.SearchOptions{})
		if err != nil {
			out.err = err.Error()
			return
		}
		out.got, out.rev, out.files = render(r), r.Revision, r.FilesWithMatch
	})
	e.log(evRet, -1, op, 0)
	out.to = e.now()
}

func (e *env) excluded(s *searcher.Searcher, op int, out *searchRes) {
	e.log(evCall, -1, op, 0)
	out.from = e.now()
	protect(&out.err, func() { out.got = s.GetExcludedFiles() })
	e.log(evRet, -1, op, 0)
	out.to = e.now()
}

// liveRange returns the revisions of repository r that may have been live during
// the events [from,to): at least the one live before the window (the last one
// whose following pull began before from, or index 0), at most the last one
// pulled before to.
func (e *env) liveRange(r *repo, from, to int) (lo, hi int, revs []int) {
	cur := -1
	last := 0
	for i, x := range e.events() {
		if x.Repo != r.id {
			continue
		}
		switch x.Kind {
		case evPullEnd:
			if x.A > 0 && x.A != last && i < to {
				revs = append(revs, x.A)
				last = x.A
				cur = len(revs) - 1
			}
		case evPullBegin:
			// the revision pulled before this pull is live by now
			if i < from && cur >= 0 {
				lo = cur
			}
		}
	}
	return lo, len(revs) - 1, revs
}

// parseRev turns "r3" into 3.
func parseRev(s string) int {
	var n int
	if _, err := fmt.Sscanf(s, "r%d", &n); err != nil {
		return -1
	}
	return n
}

// checkSearch judges one search result of repository r; min is the least position
// in the sequence of revisions it may show. Returns the position.
func (e *env) checkSearch(r *repo, sr *searchRes, sub string, min int) (int, string) {
	if sr.err != "" {
		return min, "search failed: " + sr.err
	}
	lo, hi, revs := e.liveRange(r, sr.from, sr.to)
	if lo < min {
		lo = min
	}
	n := parseRev(sr.rev)
	for i := lo; i <= hi; i++ {
		if revs[i] == n {
			want := expect(e.tree(r, n), sub)
			if sr.got != want {
				return i, fmt.Sprintf("search labelled %s returned %q, that revision has %q", sr.rev, sr.got, want)
			}
			return i, ""
		}
	}
	return min, fmt.Sprintf("search labelled %q; live revisions were %v[%d..%d]", sr.rev, revs, lo, hi)
}

func (e *env) idxDirs() []string {
	ds, _ := filepath.Glob(filepath.Join(e.db, "idx-*"))
	return ds
}

func (e *env) start() (map[string]*searcher.Searcher, map[string]error) {
	var ss map[string]*searcher.Searcher
	var errs map[string]error
	var err error
	vs.Quiet(func() { ss, errs, err = searcher.MakeAll(e.cfg) })
	must(err)
	vs.Drain()
	return ss, errs
}

// startOne starts a single repository through searcher.New.
func (e *env) startOne(i int) *searcher.Searcher {
	var s *searcher.Searcher
	var err error
	vs.Quiet(func() { s, err = searcher.New(e.db, e.repos[i].name, e.cfg.Repos[e.repos[i].name]) })
	must(err)
	vs.Drain()
	return s
}

func statusName(st int) string {
	return [...]string{"quiescent", "limit", "diverged", "overflow"}[st]
}

var _ = runtime.VOk

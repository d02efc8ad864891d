//go:build vsched

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

const (
	opOpen   = runtime.VOpOpen
	opOpenW  = runtime.VOpOpenW
	opWrite  = runtime.VOpWrite
	opRead   = runtime.VOpRead
	opClose  = runtime.VOpClose
	opPread  = runtime.VOpPread
	mutating = 1<<runtime.VOpOpenW | 1<<runtime.VOpUnlink | 1<<runtime.VOpMkdir | 1<<runtime.VOpRename | 1<<runtime.VOpSymlink |
		1<<runtime.VOpWrite | 1<<runtime.VOpTrunc | 1<<runtime.VOpCopyRange | 1<<runtime.VOpLink
	allOps = 1<<runtime.VOps_ - 1
)

var opNames = []string{"open", "create", "unlink", "mkdir", "rename", "symlink", "write", "truncate", "copy", "link", "read", "mmap", "stat", "readdir", "close", "pread", "seek", "readlink"}

func opName(k uint8) string {
	if int(k) < len(opNames) {
		return opNames[k]
	}
	return "op" + strconv.Itoa(int(k))
}

const (
	fCount = 1
	fCrash = 2
	fFail  = 3
)

type fault struct {
	Mode, K, Errno, Torn, Mask int
	Sticky                     bool
}

type repo struct {
	Name, Url string
	Revs      []int // answers of successive pulls; the last repeats
	Link      bool  // the working copy is a symbolic link
	Dot       bool
	Auto      []string
	Push      bool
}

// spec says what a child does.
type spec struct {
	Phase   string // build, open, start, reindex
	Src     string // build: the tree
	Db      string // directory of the index (build, open) or of the data
	Trees   string // Trees/<url hash>/<rev> is the tree of a revision
	Tmp     string
	Rev     string
	Dot     bool
	Auto    []string
	Repos   []repo
	Max     int
	Updates []string // reindex: repositories to update, in order
	Steps   []string // steps: what to do one after the other, see step
	Fds     int      // open files expected once all is done
	Fault   fault
	Prefix  []uint16 // choices of the schedule
	Points  bool     // scheduling points at file-system and lock operations
	Out     string
}

// result of a child that came to its end.
type result struct {
	Err   string // build, open: error; start: error of MakeAll
	Errs  map[string]string
	Dump  map[string]string // what is served, by repository
	Rev   map[string]string
	Dirs  []string // index directories left
	N     int
	Kinds []byte
	Steps []runtime.VStep
	Live  int // repositories that are served
	Left  left
}

// left is what a finished child still holds.
type left struct {
	Fds, Maps, Temp, Other []string
	Waiting                int // goroutines
}

var sp spec

// arm starts the injection, disarm ends it and keeps the count.
func arm() {
	f := sp.Fault
	if f.Mode != 0 {
		runtime.VFault(f.Mode, f.K, f.Errno, f.Torn, f.Mask, f.Sticky)
	}
}

func (r *result) disarm() {
	runtime.VFaultPause(true)
	n, k := runtime.VFaultCount()
	r.N, r.Kinds = n, k
	runtime.VFault(0, 0, 0, 0, 0, false)
	runtime.VFaultPause(false)
}

func child(f string) {
	b, err := os.ReadFile(f)
	bx.Must(err)
	bx.Must(json.Unmarshal(b, &sp))
	debug.SetGCPercent(-1)
	if os.Getenv("HV_VERBOSE") == "" {
		log.SetOutput(io.Discard)
		if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = n
		}
	}
	os.Setenv("TMPDIR", sp.Tmp)
	r := &result{Errs: map[string]string{}, Dump: map[string]string{}, Rev: map[string]string{}}
	switch sp.Phase {
	case "build":
		r.build()
	case "open":
		r.open()
	case "start", "reindex", "steps":
		r.start()
	}
	r.look()
	runtime.KeepAlive(alive)
	ds, _ := filepath.Glob(filepath.Join(sp.Db, "idx-*"))
	for _, d := range ds {
		r.Dirs = append(r.Dirs, filepath.Base(d))
	}
	o, err := json.Marshal(r)
	bx.Must(err)
	bx.Must(os.WriteFile(sp.Out+".tmp", o, 0644))
	bx.Must(os.Rename(sp.Out+".tmp", sp.Out))
	os.Exit(0)
}

func (r *result) build() {
	arm()
	ref, err := index.Build(&index.IndexOptions{ExcludeDotFiles: sp.Dot, SpecialFiles: []string{".vrev"}, AutoGeneratedFiles: sp.Auto}, sp.Db, sp.Src, "url", sp.Rev)
	r.disarm()
	if err != nil {
		r.Err = err.Error()
		return
	}
	ix, err := ref.Open()
	if err != nil {
		r.Err = "open: " + err.Error()
		return
	}
	alive = append(alive, ix)
	r.Dump[""], err = dumpIndex(ix)
	if err != nil {
		r.Err = "search: " + err.Error()
		r.Dump[""] = r.Err
	}
}

// open opens and searches an index; the faults concern both.
func (r *result) open() {
	arm()
	ix, err := index.Open(sp.Db)
	if err != nil {
		r.disarm()
		r.Err = err.Error()
		return
	}
	d, err := dumpIndex(ix)
	if err == nil {
		err = ix.Close()
	}
	r.disarm()
	if err != nil {
		r.Err = err.Error()
		return
	}
	r.Dump[""] = d
}

// words that the trees contain
func words() []string {
	w := []string{"common", "Needle", "\\.txt", "only0", "only1", "only2"}
	for i := 0; i < 8; i++ {
		w = append(w, fmt.Sprintf("word%d", i))
	}
	return w
}

func dumpResponse(sb *strings.Builder, res *index.SearchResponse) {
	fmt.Fprintf(sb, "%d\n", res.FilesWithMatch)
	ms := append([]*index.FileMatch(nil), res.Matches...)
	sort.SliceStable(ms, func(a, b int) bool { return ms[a].Filename < ms[b].Filename })
	for _, f := range ms {
		fmt.Fprintf(sb, "%q %v\n", f.Filename, f.AutoGenerated)
		for _, m := range f.Matches {
			fmt.Fprintf(sb, "  %d %q\n", m.LineNumber, m.Line)
		}
	}
}

func dumpWith(search func(pat string, o *index.SearchOptions) (*index.SearchResponse, error)) (string, string, error) {
	var sb strings.Builder
	rev := ""
	for i, p := range append([]string{"^"}, words()...) {
		res, err := search(p, &index.SearchOptions{})
		if err != nil {
			return "", "", err
		}
		if i == 0 {
			rev = res.Revision
		} else if res.Revision != rev {
			return "", "", fmt.Errorf("revision %q and %q", rev, res.Revision)
		}
		fmt.Fprintf(&sb, "? %s ", p)
		dumpResponse(&sb, res)
	}
	return sb.String(), rev, nil
}

func canonExcluded(js string) string {
	var fs []struct{ Filename, Reason string }
	if err := json.Unmarshal([]byte(js), &fs); err != nil {
		return "excluded: not the list: " + err.Error()
	}
	sort.Slice(fs, func(a, b int) bool { return fs[a].Filename < fs[b].Filename })
	return fmt.Sprintf("excluded: %q", fs)
}

func dumpIndex(ix *index.Index) (string, error) {
	d, rev, err := dumpWith(ix.Search)
	if err != nil {
		return "", err
	}
	runtime.VFaultPause(true)
	defer runtime.VFaultPause(false)
	b, err := os.ReadFile(filepath.Join(ix.GetDir(), "excluded_files.json"))
	if err != nil {
		return "excluded: " + err.Error(), nil
	}
	return "revision " + rev + "\n" + d + canonExcluded(string(b)), nil
}

func dumpSearcher(s *searcher.Searcher) (string, string) {
	d, rev, err := dumpWith(s.Search)
	if err != nil {
		return "search: " + err.Error(), ""
	}
	return "revision " + rev + "\n" + d + canonExcluded(s.GetExcludedFiles()), rev
}

// ---- driver -------------------------------------------------------------

type drv struct {
	r *repo
	n int
}

var drvs = map[string]*drv{}

func init() {
	vcs.Register(func(b []byte) (vcs.Driver, error) {
		var c struct{ Repo string }
		if err := json.Unmarshal(b, &c); err != nil {
			return nil, err
		}
		return drvs[c.Repo], nil
	}, "vcrash")
}

// quiet runs f without faults and without scheduling points.
func quiet(f func()) {
	old := runtime.VFaultPause(true)
	fr := runtime.VFreeze(true)
	f()
	runtime.VFreeze(fr)
	runtime.VFaultPause(old)
}

func (d *drv) update(dir string) (rev string, err error) {
	quiet(func() {
		k := d.n
		if k >= len(d.r.Revs) {
			k = len(d.r.Revs) - 1
		}
		d.n++
		if n := d.r.Revs[k]; n <= 0 {
			// no answer, or a new revision whose tree is not there
			rev = strconv.Itoa(-n)
			err = os.RemoveAll(dir)
			if n == 0 {
				err = errors.New("pull failed")
			}
			return
		}
		rev = strconv.Itoa(d.r.Revs[k])
		old, e := os.ReadFile(filepath.Join(dir, ".vrev"))
		if e == nil && string(old) == rev {
			return
		}
		src := treeDir(sp.Trees, d.r.Url, d.r.Revs[k])
		err = os.RemoveAll(dir)
		if err == nil && d.r.Link {
			err = os.Symlink(src, dir)
		} else if err == nil {
			err = copyTree(dir, src)
		}
	})
	return
}

func (d *drv) Clone(dir, url string) (string, error) { return d.update(dir) }
func (d *drv) Pull(dir string) (string, error)       { return d.update(dir) }
func (d *drv) HeadRev(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, ".vrev"))
	return string(b), err
}
func (d *drv) SpecialFiles() []string                 { return []string{".vrev"} }
func (d *drv) AutoGeneratedFiles(dir string) []string { return nil }

func bp(b bool) *bool { return &b }

// start runs MakeAll, and with Phase reindex updates.
func (r *result) start() {
	cfg := &config.Config{DbPath: sp.Db, Repos: map[string]*config.Repo{}, MaxConcurrentIndexers: sp.Max, ResultLimit: 5000}
	for i := range sp.Repos {
		p := &sp.Repos[i]
		m := config.SecretMessage([]byte(fmt.Sprintf(`{"repo":%q}`, p.Name)))
		drvs[p.Name] = &drv{r: p}
		cfg.Repos[p.Name] = &config.Repo{Url: p.Url, Vcs: "vcrash", MsBetweenPolls: 1000, VcsConfigMessage: &m, ExcludeDotFiles: p.Dot, AutoGeneratedFiles: p.Auto,
			EnablePollUpdates: bp(false), EnablePushUpdates: bp(sp.Phase != "start" || p.Push)}
	}
	var ss map[string]*searcher.Searcher
	var errs map[string]error
	var err error
	done := false
	body := func() {
		defer func() { done = true }()
		if sp.Phase == "start" || sp.Phase == "steps" && (len(sp.Steps) == 0 || sp.Steps[0] != "arm") {
			arm()
		}
		ss, errs, err = searcher.MakeAll(cfg)
		if sp.Phase == "reindex" && err == nil {
			for i, n := range sp.Updates {
				if ss[n] == nil {
					continue
				}
				if i == 0 {
					arm()
				}
				ss[n].Update()
			}
		}
		if sp.Phase == "steps" && err == nil {
			for _, x := range sp.Steps {
				step(ss, x)
			}
		}
	}
	mask := 0
	if sp.Points {
		mask = runtime.VPLock | runtime.VPFS | runtime.VPChan | runtime.VPAtomic | runtime.VPUser
	}
	trace := make([]runtime.VStep, 1<<14)
	vr := runtime.VRun(body, sp.Prefix, trace, 0, 1<<20, mask)
	r.disarm()
	r.Steps = trace[:vr.Steps]
	if vr.Status != runtime.VOk {
		r.Err = "schedule not usable: " + strconv.Itoa(vr.Status)
		return
	}
	r.Left.Waiting = vr.Blocked
	r.Live = len(ss)
	alive = append(alive, ss)
	if !done {
		r.Err = "start-up or the request for updates does not come to its end"
		return
	}
	if err != nil {
		r.Err = err.Error()
		return
	}
	for n, e := range errs {
		r.Errs[n] = e.Error()
	}
	for n, s := range ss {
		r.Dump[n], r.Rev[n] = dumpSearcher(s)
	}
}

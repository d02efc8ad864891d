//go:build vsched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"

	"hv/bx"
	"hv/vs"
)

// R01: what is left of finished work. Every case runs in a process of its own, which
// looks at its own open files, mappings, goroutines and directories at the end.

var alive []interface{}

// look fills in what is left. Files that nothing refers to any more are closed by
// the garbage collector, which gets the time it needs.
func (r *result) look() {
	under := func(p string) bool {
		for _, d := range []string{sp.Db, sp.Tmp, sp.Src, sp.Trees} {
			if d != "" && strings.HasPrefix(p, d+"/") {
				return true
			}
		}
		return false
	}
	for try := 0; ; try++ {
		if try > 0 {
			runtime.GC()
			time.Sleep(time.Duration(try) * time.Millisecond)
		}
		l := &r.Left
		l.Fds, l.Maps = nil, nil
		fs, err := os.ReadDir("/proc/self/fd")
		bx.Must(err)
		for _, f := range fs {
			if p, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && under(p) {
				l.Fds = append(l.Fds, p)
			}
		}
		if len(l.Fds) > sp.Fds && try < 40 {
			continue
		}
		b, err := os.ReadFile("/proc/self/maps")
		bx.Must(err)
		for _, x := range strings.Split(string(b), "\n") {
			if i := strings.IndexByte(x, '/'); i >= 0 && under(x[i:]) {
				l.Maps = append(l.Maps, x[i:])
			}
		}
		break
	}
	names := func(d string) (o []string) {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			o = append(o, e.Name())
		}
		return
	}
	r.Left.Temp = names(sp.Tmp)
	if sp.Phase != "build" && sp.Phase != "open" {
		for _, n := range names(sp.Db) {
			if !strings.HasPrefix(n, "idx-") && !strings.HasPrefix(n, "vcs-") {
				r.Left.Other = append(r.Left.Other, n)
			}
		}
	}
}

// step performs one step: a letter and the name of a repository.
func step(ss map[string]*searcher.Searcher, x string) {
	if x == "arm" {
		arm()
		return
	}
	s := ss[x[1:]]
	if s == nil {
		return
	}
	search := func(pat string, o index.SearchOptions) {
		o.LinesOfContext = 1
		s.Search(pat, &o)
	}
	switch x[0] {
	case 'u': // update
		s.Update()
		vs.Drain()
	case 's':
		search("common", index.SearchOptions{})
	case 'm': // one match
		search("common", index.SearchOptions{MaxResults: 1})
	case 'b': // malformed
		search("a(", index.SearchOptions{})
	case 'f':
		search("common", index.SearchOptions{FileRegexp: "a("})
	case 'x':
		search("common", index.SearchOptions{ExcludeFileRegexp: "a("})
	case 'e':
		s.GetExcludedFiles()
	case 'S': // the end
		s.Stop()
		vs.Drain()
	}
}

// excess says what a child left behind. One index may be open for each of the
// served repositories, in the way k has it for one; more are its superseded
// directories that could not be removed.
func (r *result) excess(k *result, live, dirs, waiting int) (o []string) {
	add := func(f string, a ...interface{}) { o = append(o, fmt.Sprintf(f, a...)) }
	if n := len(k.Left.Fds) * live; len(r.Left.Fds) > n {
		add("%d files are open, %d are enough: %s", len(r.Left.Fds), n, short(r.Left.Fds))
	}
	if n := len(k.Left.Maps) * live; len(r.Left.Maps) > n {
		add("%d files are mapped, %d are enough: %s", len(r.Left.Maps), n, short(r.Left.Maps))
	}
	if n := len(k.Left.Temp) * live; len(r.Left.Temp) > n {
		add("temporary files are left: %s", short(r.Left.Temp))
	}
	if n := len(k.Left.Other) * live; len(r.Left.Other) > n {
		add("the data directory holds %s", short(r.Left.Other))
	}
	if len(r.Dirs) > dirs {
		add("%d index directories are left, %d are in use", len(r.Dirs), dirs)
	}
	if r.Left.Waiting > waiting {
		add("%d goroutines are waiting, %d are enough", r.Left.Waiting, waiting)
	}
	return
}

func short(l []string) string {
	var o []string
	for _, x := range l {
		o = append(o, filepath.Base(strings.TrimSuffix(x, " (deleted)")))
	}
	sort.Strings(o)
	s := strings.Join(o, " ")
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// faults that say nothing about what has to be closed or removed: those of other
// operations than closing and removing.
const leftOps = allOps &^ (1<<runtime.VOpUnlink | 1<<opClose)

func leftFailures(kind uint8, k, bound int) (fs []fault) {
	for _, f := range failures(kind, k, bound) {
		if f.Sticky || f.Errno == 4 {
			continue
		}
		f.Mask = leftOps
		fs = append(fs, f)
	}
	return
}

// runLeftBuild: one failing operation of building an index.
func runLeftBuild(c *bx.Ctx) {
	w := newWorker(c)
	for _, bc := range buildCases() {
		src := w.fresh()
		writeTree(src, bc.es)
		base := spec{Phase: "build", Src: src, Rev: "7", Dot: bc.dot, Auto: bc.auto, Fds: 1}
		run := func(f fault) (*result, int, string) {
			s := base
			s.Db = w.fresh()
			s.Fault = f
			defer os.RemoveAll(s.Db)
			return w.call(s)
		}
		ref, code, msg := run(fault{Mode: fCount, Mask: leftOps})
		if code != 0 || ref.Err != "" {
			c.Fail("", bc.name, fmt.Sprint("without any fault: ", code, msg, ref))
			return
		}
		c.Sample(fmt.Sprintf("building %s leaves %d open, %d mapped files, %s", bc.name, len(ref.Left.Fds), len(ref.Left.Maps), ref.Left.Temp))
		if c.Shard == 0 && len(ref.Left.Temp) > 0 {
			c.Fail("", bc.name, "a complete build leaves the temporary files "+short(ref.Left.Temp))
		}
		for k := 0; k < ref.N && k < len(ref.Kinds); k++ {
			for _, f := range leftFailures(ref.Kinds[k], k, c.Bound) {
				if !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				c.States++
				f := f
				c.Do(fmt.Sprintf("build of %s, %s (%s)", bc.name, f, opName(ref.Kinds[k])), func() []string {
					r, code, msg := run(f)
					switch {
					case code == -1 || code > 200:
						return []string{"the process " + msg}
					case code != 0:
						c.Outcome(fmt.Sprintf("exit %d", code))
						return nil
					}
					n := 0
					if r.Err == "" {
						c.Outcome("built")
						n = 1
					} else {
						c.Outcome("error")
					}
					return r.excess(ref, n, 0, 0)
				})
			}
		}
	}
}

// runLeftServe: histories of start-up, updates, searches and the end, without a
// fault and with every single one.
func runLeftServe(c *bx.Ctx) {
	w := newWorker(c)
	a := repo{Name: "A", Url: "u://a", Revs: []int{1}}
	b := repo{Name: "B", Url: "u://b", Revs: []int{1}, Link: true, Dot: true, Auto: []string{"a.txt"}}
	all := []repo{a, b}
	w.putTrees(all, true, 1, 2, 3)
	one := w.fresh()
	bx.Must(os.MkdirAll(one, 0755))
	w.call(spec{Phase: "start", Db: one, Repos: withRevs(all, 1)})
	call := func(s spec, from string) (*result, int, string) {
		s.Db = w.fresh()
		if from == "" {
			bx.Must(os.MkdirAll(s.Db, 0755))
		} else {
			bx.Must(copyTree(s.Db, from))
		}
		defer os.RemoveAll(s.Db)
		s.Phase = "steps"
		s.Fds = len(s.Repos)
		return w.call(s)
	}
	ref, code, msg := call(spec{Repos: []repo{a}}, "")
	if code != 0 || ref.Err != "" || len(ref.Errs) > 0 {
		c.Fail("", "one repository", fmt.Sprint("without any fault: ", code, msg, ref))
		return
	}
	c.Sample(fmt.Sprintf("one repository: %d open, %d mapped files, %d goroutines", len(ref.Left.Fds), len(ref.Left.Maps), ref.Left.Waiting))
	judge := func(r *result, code int, msg string, stopped, old int) []string {
		switch {
		case code == -1 || code > 200:
			return []string{"the process " + msg}
		case code != 0:
			c.Outcome(fmt.Sprintf("exit %d", code))
			return nil
		case r.Err != "":
			c.Outcome("start failed")
			return nil
		}
		c.Outcome(fmt.Sprintf("%d served, %d failed", r.Live, len(r.Errs)))
		return r.excess(ref, r.Live, r.Live+old, ref.Left.Waiting*(r.Live-stopped))
	}

	// every history of pulls, followed by every kind of search
	outs := []int{1, 2, 0, -3}
	n := 3
	if c.Bound >= 4 {
		n = 4
	}
	var rec func(revs []int)
	rec = func(revs []int) {
		for _, tail := range []string{"", "s", "mbfxe", "S", "Suu"} {
			for _, two := range []bool{false, true} {
				if !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				c.States++
				s := spec{Repos: withRevs([]repo{a}, revs...)}
				if two {
					s.Repos = append(s.Repos, withRevs([]repo{b}, 1, 2, 3)...)
				}
				for i := 1; i < len(revs); i++ {
					s.Steps = append(s.Steps, "uA")
					if two {
						s.Steps = append(s.Steps, "uB")
					}
				}
				stopped := 0
				for _, x := range tail {
					s.Steps = append(s.Steps, string(x)+"A")
					if x == 'S' && revs[0] > 0 {
						stopped = 1
					}
				}
				from := ""
				if len(revs)%2 == 0 {
					from = one
				}
				c.Do(fmt.Sprint("pulls ", revs, " then ", s.Steps, " existing ", from != ""), func() []string {
					r, code, msg := call(s, from)
					if code != 0 {
						return []string{fmt.Sprint("ended with status ", code, ": ", msg)}
					}
					return judge(r, code, msg, stopped, 0)
				})
			}
		}
		if len(revs) < n && revs[0] > 0 {
			for _, o := range outs {
				rec(append(append([]int(nil), revs...), o))
			}
		}
	}
	for _, o := range outs {
		rec([]int{o})
	}

	// every single fault of a start-up and of two updates
	type world struct {
		name, from string
		old        int
		s          spec
	}
	worlds := []world{
		{"start", "", 0, spec{Repos: withRevs([]repo{a}, 1), Steps: []string{"sA"}}},
		{"start again", one, 2, spec{Repos: withRevs(all, 1), Steps: []string{"sA"}}},
		{"start on older", one, 2, spec{Repos: withRevs([]repo{b}, 2), Steps: []string{"sB"}}},
		{"update", one, 1, spec{Repos: withRevs([]repo{a}, 1, 2, 3), Steps: []string{"arm", "uA", "sA", "uA", "eA"}}},
		{"update to the same", one, 1, spec{Repos: withRevs([]repo{b}, 1, 2, 2), Steps: []string{"arm", "uB", "uB", "mB"}}},
		{"search", one, 0, spec{Repos: withRevs([]repo{a}, 1), Steps: []string{"arm", "sA", "mA", "eA", "sA"}}},
	}
	for _, wd := range worlds {
		run := func(f fault) (*result, int, string) {
			s := wd.s
			s.Fault = f
			return call(s, wd.from)
		}
		cnt, code, msg := run(fault{Mode: fCount, Mask: leftOps})
		if code != 0 || cnt.Err != "" || len(cnt.Errs) > 0 {
			c.Fail("", wd.name, fmt.Sprint("without any fault: ", code, msg, cnt))
			return
		}
		c.Sample(fmt.Sprintf("%s: %d operations", wd.name, cnt.N))
		for k := 0; k < cnt.N && k < len(cnt.Kinds); k++ {
			for _, f := range leftFailures(cnt.Kinds[k], k, c.Bound) {
				if !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				c.States++
				f := f
				c.Do(fmt.Sprintf("%s, %s (%s)", wd.name, f, opName(cnt.Kinds[k])), func() []string {
					r, code, msg := run(f)
					// old directories may be what could not be listed or removed
					return judge(r, code, msg, 0, wd.old)
				})
			}
		}
	}
}

func init() {
	bx.Register(&bx.Job{Name: "r01-build", Desc: "what is left of building an index, with every failing operation", Run: runLeftBuild})
	bx.Register(&bx.Job{Name: "r01-serve", Desc: "what is left of start-up, updates and searches, with every failing operation", Run: runLeftServe})
}

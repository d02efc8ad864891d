//go:build vsched

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/hound-search/hound/index"

	"hv/bx"
)

// failures are the ways in which one operation of a kind fails.
func failures(kind uint8, k, bound int) []fault {
	var fs []fault
	add := func(errno syscall.Errno, torn int, sticky bool) {
		fs = append(fs, fault{Mode: fFail, K: k, Errno: int(errno), Torn: torn, Mask: allOps, Sticky: sticky})
	}
	add(syscall.EIO, 0, false)
	add(syscall.EIO, 0, true)
	switch kind {
	case opOpen, opOpenW:
		add(syscall.EACCES, 0, false)
		add(syscall.EMFILE, 0, true)
		add(syscall.EINTR, 0, false)
		if kind == opOpenW {
			add(syscall.ENOSPC, 0, true)
		}
	case opWrite:
		add(syscall.ENOSPC, 0, true)
		add(syscall.ENOSPC, 1, true)
		add(syscall.EIO, 1, false)
		add(syscall.EINTR, 0, false)
		add(0, 9, false)
	case opRead, opPread:
		add(0, 1, false)
		add(0, 1, true)
		add(syscall.EINTR, 0, false)
	case opClose:
		add(syscall.ENOSPC, 0, false)
	default:
		add(syscall.EACCES, 0, false)
		if mutating>>kind&1 != 0 {
			add(syscall.ENOSPC, 0, true)
		}
	}
	if bound >= 4 {
		add(syscall.EACCES, 0, true)
		add(syscall.EDQUOT, 0, true)
		add(syscall.ESTALE, 0, false)
		add(syscall.ENOMEM, 0, false)
	}
	return fs
}

type buildCase struct {
	name string
	es   []entry
	link bool
	dot  bool
	auto []string
}

func buildCases() []buildCase {
	return []buildCase{
		{name: "small", es: smallTree(1)},
		{name: "full", es: fullTree(1, false), auto: []string{"a.txt"}},
		{name: "linked", es: fullTree(1, false), link: true, dot: true},
		{name: "big", es: fullTree(1, true)},
		{name: "empty", es: []entry{{".vrev", "1", 0}}},
	}
}

func runBuild(c *bx.Ctx) {
	w := newWorker(c)
	for _, bc := range buildCases() {
		src := w.fresh()
		writeTree(src, bc.es)
		if bc.link {
			// through two links
			a, b := w.fresh(), w.fresh()
			bx.Must(os.Symlink(src, a))
			bx.Must(os.Symlink(a, b))
			src = b
		}
		base := spec{Phase: "build", Src: src, Rev: "7", Dot: bc.dot, Auto: bc.auto}
		run := func(f fault) (*result, int, string, string) {
			s := base
			s.Db = w.fresh()
			s.Fault = f
			r, code, msg := w.call(s)
			return r, code, msg, s.Db
		}
		ref, code, msg, db := run(fault{Mode: fCount, Mask: allOps})
		if code != 0 || ref.Err != "" {
			if c.Shard == 0 {
				c.Fail("", bc.name, fmt.Sprint("without any fault: ", code, msg, ref))
			}
			return
		}
		want := ref.Dump[""]
		os.RemoveAll(db)
		c.Sample(fmt.Sprintf("building %s: %d operations; %.200q", bc.name, ref.N, want))
		for k := 0; k < ref.N && k < len(ref.Kinds); k++ {
			for _, f := range failures(ref.Kinds[k], k, c.Bound) {
				if !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				c.States++
				f := f
				desc := fmt.Sprintf("build of %s, %s (%s)", bc.name, f, opName(ref.Kinds[k]))
				c.Do(desc, func() []string {
					r, code, msg, db := run(f)
					defer os.RemoveAll(db)
					switch {
					case code == -1 || code > 200:
						return []string{"the process " + msg}
					case code == 0 && r.Err == "":
						c.Outcome("built")
						if r.Dump[""] != want {
							return []string{"built without error but incomplete: " + diffText(r.Dump[""], want)}
						}
						return nil
					case code == 0:
						c.Outcome("error")
					default:
						c.Outcome(fmt.Sprintf("exit %d", code))
					}
					// reported; a restart must not take what is there for complete unless it is
					if m, err := index.Read(db); err == nil && m.Url == "url" && m.Rev == "7" {
						c.Outcome("manifest left")
						r, code, msg := w.call(spec{Phase: "open", Db: db})
						if code != 0 || r.Err != "" {
							return []string{fmt.Sprint("the failed build left a manifest for an index that cannot be opened: ", code, msg)}
						}
						if r.Dump[""] != want {
							return []string{"the failed build left an incomplete index with its manifest: " + diffText(r.Dump[""], want)}
						}
					}
					return nil
				})
			}
		}
	}
}

func runOpen(c *bx.Ctx) {
	w := newWorker(c)
	for _, bc := range buildCases() {
		src, db := w.fresh(), w.fresh()
		writeTree(src, bc.es)
		r, code, msg := w.call(spec{Phase: "build", Src: src, Db: db, Rev: "7"})
		if code != 0 || r.Err != "" {
			c.Fail("", bc.name, fmt.Sprint("without any fault: ", code, msg))
			return
		}
		want := r.Dump[""]
		ref, code, msg := w.call(spec{Phase: "open", Db: db, Fault: fault{Mode: fCount, Mask: allOps}})
		if code != 0 || ref.Dump[""] != want {
			c.Fail("", bc.name, fmt.Sprint("reopened without any fault: ", code, msg, ref))
			return
		}
		for k := 0; k < ref.N && k < len(ref.Kinds); k++ {
			for _, f := range failures(ref.Kinds[k], k, c.Bound) {
				if !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				c.States++
				f := f
				c.Do(fmt.Sprintf("opening and searching %s, %s (%s)", bc.name, f, opName(ref.Kinds[k])), func() []string {
					r, code, msg := w.call(spec{Phase: "open", Db: db, Fault: f})
					switch {
					case code == -1 || code > 200:
						return []string{"the process " + msg}
					case code != 0:
						c.Outcome(fmt.Sprintf("exit %d", code))
					case r.Err != "":
						c.Outcome("error")
					default:
						c.Outcome("complete")
						if r.Dump[""] != want {
							return []string{"no error but incomplete: " + diffText(r.Dump[""], want)}
						}
					}
					return nil
				})
			}
		}
	}
}

// ---- the searcher -----------------------------------------------------------

type world struct {
	name  string
	repos []repo
	max   int
}

// clean starts on an empty directory with the last revision of each repository and
// returns what is served.
func (w *worker) clean(repos []repo) map[string]string {
	db := w.fresh()
	bx.Must(os.MkdirAll(db, 0755))
	defer os.RemoveAll(db)
	r, code, msg := w.call(spec{Phase: "start", Db: db, Repos: last(repos)})
	if code != 0 || r.Err != "" || len(r.Errs) > 0 {
		w.c.Fail("", "fresh start", fmt.Sprint("a start on an empty directory failed: ", code, " ", msg, r))
		return nil
	}
	return r.Dump
}

func last(rs []repo) []repo {
	o := append([]repo(nil), rs...)
	for i := range o {
		o[i].Revs = o[i].Revs[len(o[i].Revs)-1:]
	}
	return o
}

func withRevs(rs []repo, revs ...int) []repo {
	o := append([]repo(nil), rs...)
	for i := range o {
		o[i].Revs = revs
	}
	return o
}

func (w *worker) putTrees(rs []repo, full bool, revs ...int) {
	for _, r := range rs {
		for _, v := range revs {
			d := treeDir(w.trees, r.Url, v)
			if _, err := os.Stat(d); err == nil {
				continue
			}
			es := smallTree(v)
			if full {
				es = fullTree(v, false)
			}
			writeTree(d, es)
			bx.Must(os.WriteFile(filepath.Join(d, "name.txt"), []byte("common "+r.Name+"\n"), 0644))
		}
	}
}

// restart starts on db without faults and says what is wrong.
func (w *worker) restart(db string, repos []repo, want map[string]string) []string {
	r, code, msg := w.call(spec{Phase: "start", Db: db, Repos: last(repos)})
	if code != 0 {
		return []string{fmt.Sprintf("the restart ended with status %d: %s", code, msg)}
	}
	if r.Err != "" || len(r.Errs) > 0 {
		return []string{fmt.Sprint("the restart failed: ", r.Err, " ", r.Errs)}
	}
	for n := range want {
		if r.Dump[n] != want[n] {
			return []string{fmt.Sprintf("after the restart %s differs from a fresh start: %s", n, diffText(r.Dump[n], want[n]))}
		}
	}
	if len(r.Dirs) != len(repos) {
		return []string{fmt.Sprintf("after the restart %d index directories are left for %d repositories", len(r.Dirs), len(repos))}
	}
	return nil
}

func d02Worlds() []world {
	a := repo{Name: "A", Url: "u://a", Revs: []int{1}}
	b := repo{Name: "B", Url: "u://b", Revs: []int{1}, Link: true, Dot: true, Auto: []string{"a.txt"}}
	return []world{{"one", []repo{a}, 1}, {"link", []repo{b}, 1}, {"two", []repo{a, b}, 1}}
}

// runServe injects faults into start-up on several data directories and into a
// reindex of a running searcher.
func runServe(c *bx.Ctx) {
	w := newWorker(c)
	for _, wd := range d02Worlds() {
		w.putTrees(wd.repos, len(wd.repos) == 1, 1, 2)
		dumps := map[string]map[string]string{} // revision -> served
		for _, v := range []int{1, 2} {
			dumps[fmt.Sprint(v)] = w.clean(withRevs(wd.repos, v))
		}
		one := w.fresh()
		bx.Must(os.MkdirAll(one, 0755))
		w.call(spec{Phase: "start", Db: one, Repos: withRevs(wd.repos, 1)})
		for _, act := range []string{"empty", "reuse", "newrev", "reindex"} {
			base := spec{Phase: "start", Max: wd.max, Repos: withRevs(wd.repos, 1)}
			switch act {
			case "newrev":
				base.Repos = withRevs(wd.repos, 2)
			case "reindex":
				base.Repos = withRevs(wd.repos, 1, 2, 2)
				base.Phase = "reindex"
				for _, r := range wd.repos {
					base.Updates = append(base.Updates, r.Name)
				}
			}
			run := func(f fault) (*result, int, string, string) {
				s := base
				s.Db = w.fresh()
				if act == "empty" {
					bx.Must(os.MkdirAll(s.Db, 0755))
				} else {
					bx.Must(copyTree(s.Db, one))
				}
				s.Fault = f
				r, code, msg := w.call(s)
				return r, code, msg, s.Db
			}
			ref, code, msg, db := run(fault{Mode: fCount, Mask: allOps})
			os.RemoveAll(db)
			if code != 0 || ref.Err != "" || len(ref.Errs) > 0 {
				c.Fail("", wd.name+" "+act, fmt.Sprint("without any fault: ", code, msg, ref))
				return
			}
			c.Sample(fmt.Sprintf("%s %s: %d operations", wd.name, act, ref.N))
			for k := 0; k < ref.N && k < len(ref.Kinds); k++ {
				for _, f := range failures(ref.Kinds[k], k, c.Bound) {
					if !c.Mine() {
						continue
					}
					if c.Over() {
						return
					}
					c.States++
					f := f
					c.Do(fmt.Sprintf("%s %s, %s (%s)", wd.name, act, f, opName(ref.Kinds[k])), func() []string {
						r, code, msg, db := run(f)
						defer os.RemoveAll(db)
						switch {
						case code == -1 || code > 200:
							return []string{"the process " + msg}
						case code != 0:
							c.Outcome(fmt.Sprintf("exit %d", code))
						case r.Err != "":
							c.Outcome("start failed")
						default:
							for _, p := range wd.repos {
								if e, ok := r.Errs[p.Name]; ok {
									c.Outcome("repository failed")
									if act == "reindex" {
										return []string{"error without a fault: " + e}
									}
									continue
								}
								d, ok := r.Dump[p.Name]
								if !ok {
									return []string{p.Name + " is neither served nor reported"}
								}
								rev := r.Rev[p.Name]
								c.Outcome("serves " + rev)
								if d != dumps[rev][p.Name] {
									return []string{fmt.Sprintf("%s serves revision %q incompletely: %s", p.Name, rev, diffText(d, dumps[rev][p.Name]))}
								}
								if act != "reindex" && rev != fmt.Sprint(base.Repos[0].Revs[0]) {
									return []string{p.Name + " serves revision " + rev}
								}
							}
						}
						rev := base.Repos[0].Revs[len(base.Repos[0].Revs)-1]
						return w.restart(db, withRevs(wd.repos, rev), dumps[fmt.Sprint(rev)])
					})
				}
			}
		}
		os.RemoveAll(one)
	}
}

func init() {
	bx.Register(&bx.Job{Name: "d02-build", Desc: "every failing operation of building an index", Run: runBuild})
	bx.Register(&bx.Job{Name: "d02-open", Desc: "every failing operation of opening and searching an index", Run: runOpen})
	bx.Register(&bx.Job{Name: "d02-serve", Desc: "every failing operation of start-up and reindexing", Run: runServe})
}

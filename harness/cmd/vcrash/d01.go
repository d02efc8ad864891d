//go:build vsched

package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"strings"

	"hv/bx"
)

// action is one run of the server that may be killed.
type action struct {
	name    string
	phase   string
	revs    []int // answers of successive pulls
	updates bool
}

var (
	actStart1  = action{"start at revision 1", "start", []int{1}, false}
	actStart2  = action{"start at revision 2", "start", []int{2}, false}
	actReindex = action{"start at 1 and reindex to 2", "reindex", []int{1, 2}, true}
	actBack    = action{"start at 2 and reindex back to 1", "reindex", []int{2, 1}, true}
	actTwice   = action{"reindex to 2, then to 1", "reindex2", []int{1, 2, 1}, true}
)

type d01world struct {
	name   string
	repos  []repo
	max    int
	full   bool
	init   [][]int // what ran to its end before: revisions of complete starts (each superseding nothing: other data directories merged)
	acts   []action
	points bool
}

// tornModes are the ways in which a kill can cut a write.
func tornModes(kind uint8, bound, depth int) []int {
	if kind != opWrite {
		return []int{0}
	}
	if bound >= 4 {
		return []int{0, 1, 2, 3, 4}
	}
	if depth > 1 {
		return []int{0, 1}
	}
	return []int{0, 1, 4}
}

type explorer struct {
	*worker
	wd   d01world
	want map[int]map[string]string
	seen map[string]bool
}

func (x *explorer) spec(a action, db string) spec {
	s := spec{Phase: a.phase, Max: x.wd.max, Repos: withRevs(x.wd.repos, a.revs...), Db: db, Points: x.wd.points}
	if a.updates {
		s.Phase = "reindex"
		for _, r := range x.wd.repos {
			s.Updates = append(s.Updates, r.Name)
		}
	}
	return s
}

// check restarts copies of db at each revision.
func (x *explorer) check(db string) []string {
	for _, v := range []int{1, 2} {
		d := x.fresh()
		bx.Must(copyTree(d, db))
		bad := x.restart(d, withRevs(x.wd.repos, v), x.want[v])
		os.RemoveAll(d)
		if bad != nil {
			return append(bad, fmt.Sprintf("(restarted at revision %d)", v))
		}
	}
	return nil
}

// kill runs the action on a copy of db and kills it; it returns what is left.
func (x *explorer) kill(a action, db string, prefix []uint16, f fault) (string, int, string) {
	d := x.fresh()
	bx.Must(copyTree(d, db))
	s := x.spec(a, d)
	s.Fault, s.Prefix = f, prefix
	_, code, msg := x.call(s)
	return d, code, msg
}

// explore kills every action on db at every operation, checks what is left and
// goes on from there.
func (x *explorer) explore(db string, acts []action, depth int, path string, prefixes func(a action) [][]uint16, top bool) {
	for _, a := range acts {
		for _, pre := range prefixes(a) {
			d := x.fresh()
			bx.Must(copyTree(d, db))
			s := x.spec(a, d)
			s.Prefix = pre
			s.Fault = fault{Mode: fCount, Mask: mutating}
			ref, code, msg := x.call(s)
			if code != 0 || ref.Err != "" || len(ref.Errs) > 0 {
				if !strings.HasPrefix(msg, "schedule") {
					x.c.Fail("", path+a.name, fmt.Sprint("without a kill: ", code, " ", msg, ref))
				}
				os.RemoveAll(d)
				return
			}
			os.RemoveAll(d)
			if top && x.c.Shard == 0 {
				x.c.Sample(fmt.Sprintf("%s %s: %d points of kill", x.wd.name, a.name, ref.N))
			}
			for k := 0; k < ref.N && k < len(ref.Kinds); k++ {
				for _, t := range tornModes(ref.Kinds[k], x.c.Bound, depth) {
					if top && !x.c.Mine() {
						continue
					}
					if x.c.Over() {
						return
					}
					f := fault{Mode: fCrash, K: k, Torn: t, Mask: mutating}
					desc := fmt.Sprintf("%s%s, %s (%s)", path, a.name, f, opName(ref.Kinds[k]))
					if len(pre) > 0 {
						desc += fmt.Sprint(" schedule ", pre)
					}
					var left string
					fresh := false
					x.c.Do(desc, func() []string {
						if left != "" {
							os.RemoveAll(left)
						}
						var code int
						var msg string
						left, code, msg = x.kill(a, db, pre, f)
						if code != 97 {
							if code == 0 {
								x.c.Outcome("not reached")
								return nil
							}
							return []string{fmt.Sprintf("ended with status %d: %s", code, msg)}
						}
						h := sha1.Sum([]byte(state(left)))
						key := string(h[:])
						if x.seen[key] {
							x.c.Outcome("state seen")
							return nil
						}
						fresh = true
						bad := x.check(left)
						if bad == nil {
							x.seen[key] = true
						}
						return bad
					})
					if fresh {
						x.c.States++
						x.c.Outcome(fmt.Sprintf("restarted, kill %d", x.level(path)))
						if depth > 1 && !x.c.Over() {
							x.explore(left, x.acts(), depth-1, desc+"; ", func(action) [][]uint16 { return [][]uint16{nil} }, false)
						}
					}
					os.RemoveAll(left)
				}
			}
		}
	}
}

func (x *explorer) level(path string) int { return strings.Count(path, "; ") + 1 }

// acts are the actions after a first kill.
func (x *explorer) acts() []action {
	if x.c.Bound >= 4 {
		return []action{actStart1, actStart2, actReindex}
	}
	return []action{actStart1, actStart2}
}

func noSchedule(action) [][]uint16 { return [][]uint16{nil} }

func (x *explorer) prepare(wd d01world) {
	x.wd = wd
	x.putTrees(wd.repos, wd.full, 1, 2)
	x.want = map[int]map[string]string{}
	for _, v := range []int{1, 2} {
		x.want[v] = x.clean(withRevs(wd.repos, v))
	}
	x.seen = map[string]bool{}
}

// initial is a data directory with the complete indexes of the given revisions.
func (x *explorer) initial(revs []int) string {
	db := x.fresh()
	bx.Must(os.MkdirAll(db, 0755))
	for _, v := range revs {
		d := x.fresh()
		bx.Must(os.MkdirAll(d, 0755))
		x.call(spec{Phase: "start", Db: d, Repos: withRevs(x.wd.repos, v)})
		bx.Must(copyTree(db, d))
		os.RemoveAll(d)
	}
	return db
}

func newExplorer(c *bx.Ctx) *explorer { return &explorer{worker: newWorker(c)} }

var (
	repoA = repo{Name: "A", Url: "u://a", Auto: []string{"a.txt"}}
	repoL = repo{Name: "L", Url: "u://l", Link: true, Dot: true}
)

func runKill(c *bx.Ctx) {
	x := newExplorer(c)
	for _, wd := range []d01world{
		{name: "one", repos: []repo{repoA}, max: 1, full: true},
		{name: "linked", repos: []repo{repoL}, max: 1, full: true},
		{name: "two", repos: []repo{repoA, repoL}, max: 1},
	} {
		x.prepare(wd)
		for _, init := range [][]int{{}, {1}, {2}, {1, 2}, {2, 2}} {
			if len(wd.repos) > 1 && len(init) > 1 {
				continue
			}
			db := x.initial(init)
			x.explore(db, []action{actStart1, actStart2, actReindex, actBack}, 1, fmt.Sprintf("%s with %v: ", wd.name, init), noSchedule, true)
			os.RemoveAll(db)
			if c.Over() {
				return
			}
		}
	}
}

// runKill2: two and more kills one after another.
func runKill2(c *bx.Ctx) {
	x := newExplorer(c)
	x.prepare(d01world{name: "one", repos: []repo{repoA}, max: 1})
	for _, init := range [][]int{{}, {1}, {1, 2}} {
		db := x.initial(init)
		x.explore(db, []action{actStart1, actReindex}, 2, fmt.Sprintf("one with %v: ", init), noSchedule, true)
		os.RemoveAll(db)
		if c.Over() {
			return
		}
	}
}

// runKillConc: two repositories at the same time; every schedule with one deviation.
func runKillConc(c *bx.Ctx) {
	x := newExplorer(c)
	x.prepare(d01world{name: "two", repos: []repo{repoA, repoL}, max: 2, points: true})
	for _, init := range [][]int{{1}, {}} {
		db := x.initial(init)
		for _, a := range []action{actReindex, actStart2} {
			if c.Bound < 4 && (len(init) == 0 || a.phase == "start") {
				continue
			}
			x.explore(db, []action{a}, 1, fmt.Sprintf("two at once with %v: ", init), func(a action) [][]uint16 {
				d := x.fresh()
				bx.Must(copyTree(d, db))
				defer os.RemoveAll(d)
				r, code, _ := x.call(x.spec(a, d))
				out := [][]uint16{nil}
				if code != 0 {
					return out
				}
				for i, st := range r.Steps {
					for v := uint16(1); v < st.NT; v++ {
						p := make([]uint16, i+1)
						p[i] = v
						out = append(out, p)
					}
				}
				return out
			}, true)
			if c.Over() {
				return
			}
		}
		os.RemoveAll(db)
	}
}

func init() {
	bx.Register(&bx.Job{Name: "d01-kill", Desc: "every kill of starting and reindexing", Run: runKill})
	bx.Register(&bx.Job{Name: "d01-kill2", Desc: "every kill, then every kill of the restart", Run: runKill2})
	bx.Register(&bx.Job{Name: "d01-conc", Desc: "every kill of two repositories at work at once", Run: runKillConc})
}

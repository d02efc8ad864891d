package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"

	"hv/bx"
)

// ---- G02: a restart over the data of any earlier configurations serves what a start
// over an empty data directory would serve

var optTree = []file{{"a.go", "needle a\n"}, {"gen.go", "needle gen\n"}, {".dot", "needle dot\n"}, {".h/x", "needle hx\n"}, {"skip", "needle skip\n"}, {"d/skip", "needle dskip\n"},
	{"d/x", "needle dx\n"}, {"d/.y", "needle dy\n"}, {"d/gen.go", "needle dgen\n"}, {"e/q", "hay\n"}}

// optset is how a repository is configured: fields of its entry and of its vcs-config.
type optset struct {
	repo, vcs map[string]interface{}
}

func (o optset) String() string { return canon(o.repo) + canon(o.vcs) }

func optsets(dots []bool, autos, ign [][]string, watch []bool) (l []optset) {
	for _, d := range dots {
		for _, a := range autos {
			for _, g := range ign {
				for _, w := range watch {
					o := optset{map[string]interface{}{}, map[string]interface{}{}}
					if d {
						o.repo["exclude-dot-files"] = true
					}
					if a != nil {
						o.repo["auto-generated-files"] = a
					}
					if g != nil {
						o.vcs["ignored-files"] = g
					}
					if w {
						o.vcs["watch-changes"] = true
					}
					l = append(l, o)
				}
			}
		}
	}
	return
}

// orepo is one entry of a configuration.
type orepo struct {
	name, url, kind string
	opt             optset
}

type oconf []orepo

func (l oconf) String() string {
	var s []string
	for _, r := range l {
		s = append(s, fmt.Sprintf("%s(%s)%v", r.name, filepath.Base(r.url), r.opt))
	}
	return strings.Join(s, " + ")
}

// text is the configuration file.
func (l oconf) text(db string) string {
	repos := map[string]interface{}{}
	for _, r := range l {
		m := map[string]interface{}{"url": r.url, "vcs": r.kind, "enable-poll-updates": false}
		for k, v := range r.opt.repo {
			m[k] = v
		}
		if len(r.opt.vcs) > 0 {
			m["vcs-config"] = r.opt.vcs
		}
		repos[r.name] = m
	}
	return canon(map[string]interface{}{"dbpath": db, "max-concurrent-indexers": 1, "repos": repos})
}

// start starts the searchers as the server does and tells what each one serves.
func (l oconf) start(c *bx.Ctx, db string) (map[string]string, error) {
	bx.Must(os.MkdirAll(db, 0755))
	f := filepath.Join(c.Dir, "opt.json")
	bx.Must(os.WriteFile(f, []byte(l.text(db)), 0644))
	cfg := &config.Config{}
	if err := cfg.LoadFromFile(f); err != nil {
		return nil, err
	}
	c.Transitions++
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil {
		return nil, err
	}
	defer unmapAll(db)
	out := map[string]string{}
	for n, s := range ss {
		res, err := s.Search("needle", &index.SearchOptions{})
		if err != nil {
			return nil, err
		}
		res.Duration = 0
		b, err := json.Marshal(res)
		bx.Must(err)
		out[n] = string(b) + " excluded " + s.GetExcludedFiles()
	}
	for n, err := range errs {
		out[n] = "error " + err.Error()
	}
	return out, nil
}

func judgeOpt(got, want map[string]string, err error) []string {
	if err != nil {
		return []string{"the start failed: " + err.Error()}
	}
	for n := range want {
		if got[n] != want[n] {
			return []string{fmt.Sprintf("%s is served from other options than its own: %s", n, firstDiff(got[n], want[n]))}
		}
	}
	if len(got) != len(want) {
		return []string{"other repositories are served than are configured"}
	}
	return nil
}

func copyTree(dst, src string) {
	bx.Must(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		t := filepath.Join(dst, strings.TrimPrefix(p, src))
		switch {
		case d.IsDir():
			return os.MkdirAll(t, 0755)
		case d.Type()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, t)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0644)
	}))
}

type ostart struct {
	conf oconf
	db   string // what a fresh start leaves behind
	want map[string]string
}

// restarts tries every sequence of up to n configurations over one data directory.
func restarts(c *bx.Ctx, confs []oconf, n int) {
	var all []*ostart
	for _, l := range confs {
		db := fresh(c)
		want, err := l.start(c, db)
		bx.Must(err)
		for _, w := range want {
			if strings.HasPrefix(w, "error ") {
				bx.Must(fmt.Errorf("%v: %s", l, w))
			}
		}
		all = append(all, &ostart{l, db, want})
	}
	kinds := map[string]bool{}
	for _, s := range all {
		for _, w := range s.want {
			kinds[w] = true
		}
	}
	c.Outcome(fmt.Sprintf("%d different answers", len(kinds)))
	var rec func(seq []*ostart, db string)
	rec = func(seq []*ostart, db string) {
		for _, s := range all {
			if len(seq) == 1 && !c.Mine() {
				continue
			}
			if c.Over() {
				return
			}
			next := append(append([]*ostart{}, seq...), s)
			if db == "" {
				rec(next, s.db)
				continue
			}
			at := fresh(c)
			c.DoKey(func() string {
				var ls []string
				for _, s := range next {
					ls = append(ls, s.conf.String())
				}
				return strings.Join(ls, "; restarted as ")
			}, func() (string, []string) {
				os.RemoveAll(at)
				copyTree(at, db)
				got, err := s.conf.start(c, at)
				bad := judgeOpt(got, s.want, err)
				if bad == nil {
					// what lies there is for this configuration only
					ds, _ := filepath.Glob(filepath.Join(at, "idx-*"))
					if len(ds) != len(s.conf) {
						bad = []string{fmt.Sprintf("%d index directories for %d repositories", len(ds), len(s.conf))}
					}
				}
				return "", bad
			})
			c.States++
			if len(next) < n {
				rec(next, at)
			}
			os.RemoveAll(at)
		}
	}
	rec(nil, "")
}

func optDirs(c *bx.Ctx) (string, string) {
	a, b := filepath.Join(c.Dir, "src", "A"), filepath.Join(c.Dir, "src", "B")
	writeTree(a, optTree)
	writeTree(b, append([]file{{"b", "needle b\n"}}, optTree...))
	return "file://" + a, "file://" + b
}

var (
	bools  = []bool{false, true}
	autoL  = [][]string{nil, {"gen.go"}, {"a.go", "gen.go"}, {"gen.go", "a.go"}}
	ignL   = [][]string{nil, {"skip"}, {"skip", "d"}}
	fewOpt = []optset{
		{nil, nil},
		{map[string]interface{}{"exclude-dot-files": true}, nil},
		{map[string]interface{}{"auto-generated-files": []string{"gen.go"}}, nil},
		{nil, map[string]interface{}{"ignored-files": []string{"skip"}}},
		{nil, map[string]interface{}{"watch-changes": true}},
		{map[string]interface{}{"exclude-dot-files": true, "auto-generated-files": []string{"gen.go"}}, map[string]interface{}{"ignored-files": []string{"skip"}}},
	}
)

// one repository, every change of its options
func g02One(c *bx.Ctx) {
	a, _ := optDirs(c)
	var ls []oconf
	for _, o := range optsets(bools, autoL, ignL, bools) {
		ls = append(ls, oconf{{"x", a, "local", o}})
	}
	restarts(c, ls, [5]int{2, 2, 2, 3, 3}[c.Bound])
}

// repositories that come and go, swap their options or names, or share a directory
func g02Two(c *bx.Ctx) {
	a, b := optDirs(c)
	few := fewOpt[:[5]int{3, 3, 4, 6, 6}[c.Bound]]
	var ls []oconf
	for _, o := range few {
		ls = append(ls, oconf{{"x", a, "local", o}}, oconf{{"y", a, "local", o}})
		for _, p := range few {
			ls = append(ls, oconf{{"x", a, "local", o}, {"y", b, "local", p}}, oconf{{"x", a, "local", o}, {"y", a, "local", p}}, oconf{{"x", b, "local", o}, {"y", a, "local", p}})
		}
	}
	restarts(c, ls, 2)
}

// g02URLs: repositories whose urls or names are much alike, one after the other over one data
// directory and side by side; each serves what it serves on its own.
func g02URLs(c *bx.Ctx) {
	long := strings.Repeat("l", 200)
	dirs := []string{"src/repo", "src/Repo", "src/repo.git", "src/repo-", "src/re/po", "src/re-po", "oth/repo", "src/repo#a", "src/repo?a", "src/repo@a", "src/repo ", "src/r\u00e9po", "src/re\u0301po",
		long + "/" + long + "/a", long + "/" + long + "/b", "p/" + long + "/" + long + "/a"}
	var urls []string
	for i, d := range dirs {
		at := filepath.Join(c.Dir, "u", d)
		writeTree(at, []file{{"f", fmt.Sprintf("needle %d\n", i)}, {"g", "needle\n"}})
		urls = append(urls, "file://"+at)
	}
	urls = append(urls, urls[0]+"/", "file://"+filepath.Join(c.Dir, "u")+"/./src/repo")
	alone := map[string]string{}
	var ls []oconf
	for _, u := range urls {
		l := oconf{{"x", u, "local", optset{}}}
		ls = append(ls, l)
		got, err := l.start(c, fresh(c))
		bx.Must(err)
		alone[u] = got["x"]
	}
	kinds := map[string]bool{}
	for i, u := range urls {
		// the right tree in the first place
		if i < len(dirs) && !strings.Contains(alone[u], fmt.Sprintf("needle %d\"", i)) {
			c.Fail("", "a start over an empty directory", fmt.Sprintf("%s is served from another tree: %s", u, alone[u]))
		}
		kinds[alone[u]] = true
	}
	c.Outcome(fmt.Sprintf("%d different answers", len(kinds)))
	names := [][2]string{{"x", "y"}, {"x", "X"}, {"a/x", "x"}, {"x", "x "}, {"x-y", "x/y"}, {"x", ""}}
	dbs := []string{"db", "d[b]", "d*b", "d?", "d\\b", "[d", "-d", "{d}", "d b", "d\u00e9", "vcs-1", "idx-1", "~", "$HOME", "%d"}
	for i, u := range urls {
		for j, v := range urls {
			if i == j {
				continue
			}
			if !c.Mine() {
				continue
			}
			if c.Over() {
				return
			}
			at := filepath.Join(fresh(c), dbs[(i+j)%len(dbs)])
			nm := names[(i+j)%len(names)]
			both := oconf{{nm[0], u, "local", optset{}}, {nm[1], v, "local", optset{}}}
			c.Do(fmt.Sprintf("%s at %q and %s at %q side by side", nm[0], u, nm[1], v), func() []string {
				os.RemoveAll(at)
				got, err := both.start(c, at)
				return judgeOpt(got, map[string]string{nm[0]: alone[u], nm[1]: alone[v]}, err)
			})
			c.States++
			c.Do(fmt.Sprintf("x at %q, then at %q", u, v), func() []string {
				os.RemoveAll(at)
				if _, err := ls[i].start(c, at); err != nil {
					return []string{"the start failed: " + err.Error()}
				}
				got, err := ls[j].start(c, at)
				bad := judgeOpt(got, map[string]string{"x": alone[v]}, err)
				if bad == nil {
					before := indexDirs(at)
					if len(before) != 1 {
						return []string{fmt.Sprintf("%d index directories for one repository in %q", len(before), filepath.Base(at))}
					}
					// and it is reused
					got, err := ls[j].start(c, at)
					bad = judgeOpt(got, map[string]string{"x": alone[v]}, err)
					if after := indexDirs(at); bad == nil && (len(after) != 1 || after[0] != before[0]) {
						return []string{fmt.Sprintf("%d index directories, and not the one that was there, after a restart in %q", len(after), filepath.Base(at))}
					}
				}
				return bad
			})
			c.States++
			os.RemoveAll(at)
		}
	}
}

func indexDirs(db string) (l []string) {
	es, err := os.ReadDir(db)
	bx.Must(err)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), "idx-") {
			l = append(l, e.Name())
		}
	}
	return
}

// the tracked branch of a git repository
func g02Git(c *bx.Ctx) {
	gitEnv(c)
	remote := filepath.Join(c.Dir, "remote")
	bx.Must(os.MkdirAll(remote, 0755))
	git(remote, nil, "init", "-q", "--bare")
	mk := func(s string) map[string]gfile {
		return map[string]gfile{"f": {"644", "needle " + s + "\n"}, ".dot": {"644", "needle\n"}, "gen.go": {"644", "needle gen\n"}, ".gitattributes": {"644", "gen.go linguist-generated\n"}, s: {"644", "needle\n"}}
	}
	hs := fastImport(remote, []map[string]gfile{mk("m"), mk("d"), mk("e")}, [][]int{{}, {0}, {}})
	for i, n := range []string{"master", "dev", "x/dev"} {
		git(remote, nil, "update-ref", "refs/heads/"+n, hs[i])
	}
	git(remote, nil, "symbolic-ref", "HEAD", "refs/heads/dev")
	var ls []oconf
	for _, v := range []map[string]interface{}{nil, {"ref": "master"}, {"ref": "dev"}, {"ref": "x/dev"}, {"detect-ref": true}} {
		for i, r := range []map[string]interface{}{nil, {"exclude-dot-files": true}, {"auto-generated-files": []string{"f"}}} {
			if i > 0 && c.Bound < 3 && v == nil {
				continue
			}
			ls = append(ls, oconf{{"x", "file://" + remote, "git", optset{r, v}}})
		}
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].String() < ls[j].String() })
	restarts(c, ls, [5]int{2, 2, 2, 2, 3}[c.Bound])
}

// g02VCS: the kind of a repository changed before a restart, and repositories of
// different kinds at one url. The directory at the url is not touched.
func g02VCS(c *bx.Ctx) {
	gitEnv(c)
	src := filepath.Join(c.Dir, "work")
	bx.Must(os.MkdirAll(src, 0755))
	git(src, nil, "init", "-q")
	mk := func(s string) map[string]gfile {
		return map[string]gfile{"f": {"644", "needle " + s + "\n"}, "edited": {"644", "needle committed\n"}, s: {"644", "needle\n"}}
	}
	hs := fastImport(src, []map[string]gfile{mk("m"), mk("d")}, [][]int{{}, {0}})
	git(src, nil, "update-ref", "refs/heads/master", hs[0])
	git(src, nil, "update-ref", "refs/heads/dev", hs[1])
	git(src, nil, "remote", "add", "origin", src)
	git(src, nil, "reset", "-q", "--hard", hs[0])
	writeTree(src, []file{{"edited", "needle edited\n"}, {"new", "needle new\n"}})
	before := treeText(src)
	url := "file://" + src
	none, watch, dev := optset{}, optset{nil, map[string]interface{}{"watch-changes": true}}, optset{nil, map[string]interface{}{"ref": "dev"}}
	one := []orepo{{"x", url, "git", none}, {"x", url, "git", dev}, {"x", url, "local", none}, {"x", url, "local", watch}}
	var ls []oconf
	for i, a := range one {
		ls = append(ls, oconf{a})
		for j, b := range one {
			if i < j {
				b.name = "y"
				ls = append(ls, oconf{a, b})
				a, b := a, b
				a.name, b.name = b.name, a.name
				ls = append(ls, oconf{a, b})
			}
		}
	}
	same := func(when string) {
		if after := treeText(src); after != before {
			c.Fail("", when, "the directory at the url was changed: "+firstDiff(after, before))
		}
	}
	// what each serves on its own
	alone := map[string]string{}
	for _, a := range one {
		got, err := oconf{a}.start(c, fresh(c))
		bx.Must(err)
		alone[a.kind+a.opt.String()] = got["x"]
	}
	same("a start over an empty directory")
	var rec func(seq []oconf, n int)
	rec = func(seq []oconf, n int) {
		if len(seq) > 0 {
			c.States++
			c.DoKey(func() string {
				var d []string
				for _, l := range seq {
					var s []string
					for _, r := range l {
						s = append(s, r.name+" "+r.kind+" "+r.opt.String())
					}
					d = append(d, strings.Join(s, " and "))
				}
				return strings.Join(d, "; restarted as ")
			}, func() (string, []string) {
				at := fresh(c)
				defer os.RemoveAll(at)
				for i, l := range seq {
					got, err := l.start(c, at)
					if i < len(seq)-1 {
						continue
					}
					want := map[string]string{}
					for _, r := range l {
						want[r.name] = alone[r.kind+r.opt.String()]
					}
					if bad := judgeOpt(got, want, err); bad != nil {
						return "", bad
					}
				}
				if after := treeText(src); after != before {
					return "", []string{"the directory at the url was changed: " + firstDiff(after, before)}
				}
				return "", nil
			})
		}
		if n == 0 {
			return
		}
		for _, l := range ls {
			if len(seq) == 0 && !c.Mine() || c.Over() {
				continue
			}
			rec(append(append([]oconf{}, seq...), l), n-1)
		}
	}
	rec(nil, [5]int{2, 2, 2, 2, 3}[c.Bound])
}

// treeText gives the files of a tree, but for what git keeps.
func treeText(dir string) string {
	var b strings.Builder
	bx.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.Name() == ".git" {
			return fs.SkipDir
		}
		if !d.IsDir() {
			t, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, "%s %q\n", strings.TrimPrefix(p, dir), t)
		}
		return nil
	}))
	return b.String()
}

func init() {
	bx.Register(&bx.Job{Name: "g02-vcs", Desc: "the kind of a repository changed before a restart, and repositories of different kinds at one url", Run: g02VCS})
	bx.Register(&bx.Job{Name: "g02-one", Desc: "options of one repository changed before a restart", Run: g02One})
	bx.Register(&bx.Job{Name: "g02-two", Desc: "repositories added, removed, renamed and swapped before a restart", Run: g02Two})
	bx.Register(&bx.Job{Name: "g02-urls", Desc: "repositories with similar urls and names, side by side and in succession", Run: g02URLs})
	bx.Register(&bx.Job{Name: "g02-git", Desc: "the tracked ref of a repository changed before a restart", Run: g02Git})
}

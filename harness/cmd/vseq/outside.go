package main

import (
	"crypto/sha1"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"

	"hv/bx"
)

// ---- D04: whatever the repositories are and whatever happened to the data directory
// before, a start, searches and an update change nothing but index directories and
// working copies in the data directory.

// allOf describes everything below a directory but what Hound keeps in the data
// directory: kind, mode, times, size, content, number.
func allOf(root, db string) map[string]string {
	out := map[string]string{}
	real, err := filepath.EvalSymlinks(db)
	bx.Must(err)
	bx.Must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if filepath.Dir(p) == real && (strings.HasPrefix(d.Name(), "idx-") || strings.HasPrefix(d.Name(), "vcs-")) {
			if d.IsDir() {
				return fs.SkipDir
			}
			return nil
		}
		// an index that was moved and linked is still Hound's own
		if strings.HasPrefix(p, filepath.Join(root, "moved-")) {
			return fs.SkipDir
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		s := i.Mode().String()
		if p != real && p != filepath.Join(root, "tmp") {
			s += " " + i.ModTime().Format(time.StampNano)
		}
		switch {
		case i.Mode()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			s += " -> " + l
		case i.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %d bytes %x", len(b), sha1.Sum(b))
		}
		out[strings.TrimPrefix(p, root)] = s
		return nil
	}))
	return out
}

func diffAllOf(a, b map[string]string) []string {
	var bad []string
	for p := range a {
		if _, ok := b[p]; !ok {
			bad = append(bad, p+" was removed")
		} else if a[p] != b[p] {
			bad = append(bad, fmt.Sprintf("%s was changed from %s to %s", p, a[p], b[p]))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			bad = append(bad, p+" was made")
		}
	}
	sort.Strings(bad)
	if len(bad) > 6 {
		bad = append(bad[:6], fmt.Sprintf("and %d more", len(bad)-6))
	}
	return bad
}

type outworld struct {
	root, db string
}

// newOutworld makes the sources and much else, with the data directory at db, which is a
// link if linked, in a repository of the user if inside.
func newOutworld(root, place string) *outworld {
	w := &outworld{root, filepath.Join(root, "data")}
	writeTree(filepath.Join(root, "precious"), []file{{"a", "needle\n"}, {"d/b", "needle\n"}, {"d/.c", "x\n"}, {"idx-0/metadata.gob", "x"}})
	writeTree(filepath.Join(root, "src"), []file{{"f", "needle\n"}, {"d/g", "needle g\n"}, {"idx-0/tri", "x"}, {"vcs-0/f", "needle\n"}, {"ro", "needle\n"}, {".git/HEAD", "none\n"}})
	bx.Must(os.Chmod(filepath.Join(root, "src", "ro"), 0400))
	bx.Must(os.MkdirAll(filepath.Join(root, "src", "empty"), 0700))
	bx.Must(os.Symlink("../precious", filepath.Join(root, "src", "link")))
	bx.Must(os.Symlink("nowhere", filepath.Join(root, "src", "broken")))
	bx.Must(os.Symlink("src", filepath.Join(root, "tosrc")))
	writeTree(root, []file{{"idx-0/metadata.gob", "x"}, {"vcs-0/f", "x"}, {"data.old/idx-0/tri", "x"}, {"tmp/x", ""}})
	bare := filepath.Join(root, "remote.git")
	bx.Must(os.MkdirAll(bare, 0755))
	git(bare, nil, "init", "-q", "--bare")
	mk := func(s string) map[string]gfile {
		return map[string]gfile{"f": {"644", "needle " + s + "\n"}, s: {"644", "needle\n"}, "edited": {"644", "needle committed\n"}, "out": {"120000", "../../precious"}}
	}
	hs := fastImport(bare, []map[string]gfile{mk("m"), mk("d"), mk("e")}, [][]int{{}, {0}, {0}})
	git(bare, nil, "update-ref", "refs/heads/master", hs[0])
	git(bare, nil, "update-ref", "refs/heads/dev", hs[1])
	work := filepath.Join(root, "work")
	git(root, nil, "clone", "-q", "--no-hardlinks", bare, work)
	git(bare, nil, "update-ref", "refs/heads/master", hs[2])
	writeTree(work, []file{{"edited", "needle edited\n"}, {"new", "needle new\n"}})
	switch place {
	case "link":
		bx.Must(os.MkdirAll(filepath.Join(root, "far", "db"), 0755))
		bx.Must(os.Symlink("far/db", w.db))
	case "in a working copy":
		w.db = filepath.Join(work, "data")
	}
	bx.Must(os.MkdirAll(w.db, 0755))
	// things of others in the data directory
	writeTree(w.db, []file{{"notes", "mine\n"}, {"old/idx-0/tri", "x"}, {"idx/f", "x"}, {"myidx-0/f", "x"}, {".keep", ""}, {"Idx-0/f", "x"}, {"vcs/f", "x"}})
	return w
}

type outop struct {
	name string
	do   func(c *bx.Ctx, w *outworld) []string
}

// outConfs are the configurations a server is started with.
func outConfs() (ops []outop) {
	push := map[string]interface{}{"enable-push-updates": true}
	none, watch, dev := optset{push, nil}, optset{push, map[string]interface{}{"watch-changes": true}}, optset{push, map[string]interface{}{"ref": "dev"}}
	type spec struct {
		url, kind string
		opt       optset
	}
	for _, l := range [][]spec{
		{{"src", "local", none}}, {{"src", "local", watch}}, {{"tosrc", "local", watch}}, {{"remote.git", "git", none}}, {{"remote.git", "git", dev}},
		{{"work", "git", none}}, {{"work", "local", watch}}, {{"gone", "local", watch}}, {{"gone", "git", none}}, {{"precious", "git", none}},
		{{"remote.git", "git", none}, {"work", "git", none}}, {{"src", "local", watch}, {"src", "local", none}},
	} {
		var name []string
		for _, s := range l {
			name = append(name, fmt.Sprintf("%s %s %v", s.kind, s.url, s.opt))
		}
		for _, up := range []bool{false, true} {
			up, what := up, "start with "+strings.Join(name, " and ")
			if up && (len(l) > 1 || l[0].url != "src" && l[0].url != "remote.git" || l[0].opt.String() == dev.String() || l[0].url == "src" && l[0].opt.vcs == nil) {
				continue
			}
			if up {
				what += ", change it and update"
			}
			ops = append(ops, outop{what, func(c *bx.Ctx, w *outworld) []string {
				var conf oconf
				for i, s := range l {
					conf = append(conf, orepo{fmt.Sprintf("r%d", i), "file://" + filepath.Join(w.root, s.url), s.kind, s.opt})
				}
				f := filepath.Join(w.root, "tmp", "c.json")
				bx.Must(os.WriteFile(f, []byte(conf.text(w.db)), 0644))
				cfg := &config.Config{}
				bx.Must(cfg.LoadFromFile(f))
				before := allOf(w.root, w.db)
				c.Transitions++
				ss, errs, err := searcher.MakeAll(cfg)
				c.Outcome(fmt.Sprintf("%d repositories served, %d not, %v", len(ss), len(errs), err))
				for _, s := range ss {
					s.Search("needle", &index.SearchOptions{}) //nolint
					s.GetExcludedFiles()
					if up {
						// what is changed here is ours
						sameBut := diffAllOf(before, allOf(w.root, w.db))
						change(w)
						before = allOf(w.root, w.db)
						if sameBut != nil {
							return sameBut
						}
						s.Update()
						for i := 0; i < 400; i++ {
							res, err := s.Search("needle (new|d)", &index.SearchOptions{})
							if err == nil && len(res.Matches) > 0 {
								c.Outcome("updated")
								break
							}
							time.Sleep(5 * time.Millisecond)
						}
					}
					s.Stop()
					s.Wait()
				}
				real, err := filepath.EvalSymlinks(w.db)
				if err == nil {
					unmapAll(real)
					unmapAll(w.db)
				}
				if _, err := os.Stat(w.db); err != nil {
					return []string{"the data directory is gone"}
				}
				return diffAllOf(before, allOf(w.root, w.db))
			}})
		}
	}
	return
}

func each(pattern, db string, f func(p string)) {
	es, err := os.ReadDir(db)
	bx.Must(err)
	for _, e := range es {
		if strings.HasPrefix(e.Name(), pattern) {
			f(filepath.Join(db, e.Name()))
		}
	}
}

func isdir(p string) bool { i, err := os.Lstat(p); return err == nil && i.IsDir() }

// change gives the sources new content.
func change(w *outworld) {
	n := fmt.Sprint(len(allOf(w.root, w.db)))
	for _, d := range []string{"src", "work"} {
		if isdir(filepath.Join(w.root, d)) {
			writeTree(filepath.Join(w.root, d), []file{{"new" + n, "needle new\n"}})
		}
	}
	if bare := filepath.Join(w.root, "remote.git"); isdir(bare) {
		git(bare, nil, "update-ref", "refs/heads/master", "refs/heads/dev")
	}
}

// outDamage is what else happens between starts; all of it is ours, not Hound's.
func outDamage() []outop {
	do := func(name string, f func(w *outworld)) outop {
		return outop{name, func(c *bx.Ctx, w *outworld) []string { f(w); return nil }}
	}
	return []outop{
		do("the manifests are lost", func(w *outworld) { each("idx-", w.db, func(p string) { os.Remove(filepath.Join(p, "metadata.gob")) }) }),
		do("the indexes are moved away and linked", func(w *outworld) {
			each("idx-", w.db, func(p string) {
				if isdir(p) {
					to := filepath.Join(w.root, "moved-"+filepath.Base(p))
					bx.Must(os.Rename(p, to))
					bx.Must(os.Symlink(to, p))
				}
			})
		}),
		do("a link to other files is called as an index", func(w *outworld) {
			os.Symlink(filepath.Join(w.root, "precious"), filepath.Join(w.db, "idx-link")) //nolint
		}),
		do("the git directories lose their HEAD", func(w *outworld) {
			each("vcs-", w.db, func(p string) {
				if isdir(p) {
					os.Remove(filepath.Join(p, ".git", "HEAD"))
				}
			})
		}),
		do("the git directories are lost", func(w *outworld) {
			each("vcs-", w.db, func(p string) {
				if isdir(p) {
					os.RemoveAll(filepath.Join(p, ".git"))
				}
			})
		}),
		do("the source changes", change),

		do("the source can no longer be hashed", func(w *outworld) {
			os.WriteFile(filepath.Join(w.root, "src", "a\nb"), nil, 0644) //nolint
		}),
		do("the sources are moved away", func(w *outworld) {
			for _, n := range []string{"src", "remote.git"} {
				if isdir(filepath.Join(w.root, n)) {
					bx.Must(os.Rename(filepath.Join(w.root, n), filepath.Join(w.root, n+"-moved")))
				}
			}
		}),
	}
}

func outside(c *bx.Ctx) {
	gitEnv(c)
	starts := outConfs()
	ops := append(append([]outop{}, starts...), outDamage()...)
	depth := [5]int{2, 2, 3, 3, 4}[c.Bound]
	for at, place := range []string{"plain", "link", "in a working copy"} {
		// what a new world looks like is copied with its times
		proto := filepath.Join(fresh(c), "w")
		var rec func(seq []int)
		rec = func(seq []int) {
			if len(seq) == 2 && !c.Mine() {
				return
			}
			// damage only tells something between two starts, a history ends with a start
			if n := len(seq); n > 0 && seq[n-1] < len(starts) && (n == depth || n > 1) {
				c.States++
				c.DoKey(func() string {
					var d []string
					for _, o := range seq {
						d = append(d, ops[o].name)
					}
					return "data directory " + place + ": " + strings.Join(d, "; ")
				}, func() (string, []string) {
					bx.Must(os.RemoveAll(proto))
					w := newOutworld(proto, place)
					os.Setenv("TMPDIR", filepath.Join(w.root, "tmp"))
					copyTree(filepath.Join(w.root, "home"), filepath.Join(c.Dir, "home"))
					os.Setenv("HOME", filepath.Join(w.root, "home"))
					for _, o := range seq {
						if bad := ops[o].do(c, w); bad != nil {
							return "", append([]string{ops[o].name + ":"}, bad...)
						}
					}
					return "", nil
				})
			}
			if len(seq) == depth || c.Over() {
				return
			}
			for o := range ops {
				// the longer ones in part only: a mishap between two starts, in one of the places
				if n := len(seq); c.Bound < 3 && n == 2 && (seq[0] >= len(starts) || seq[1] < len(starts) || (seq[0]+seq[1]+o)%3 != at) {
					continue
				}
				if len(seq) == 0 && o >= len(starts) && strings.HasPrefix(ops[o].name, "the ") && !strings.HasPrefix(ops[o].name, "the source") {
					continue // nothing there to damage
				}
				rec(append(append([]int{}, seq...), o))
			}
		}
		rec(nil)
		bx.Must(os.RemoveAll(proto))
	}
}

func init() {
	bx.Register(&bx.Job{Name: "d04-outside", Desc: "starts and mishaps in any order, and what lies outside the data directory", Run: outside})
}

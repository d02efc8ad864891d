package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"hv/bx"
)

// v01-half: working copies of which parts are missing, as after a clone that was cut
// short, in a data directory inside or outside another repository. What a pull reports
// is true, and the other repository is left alone.

func halves(c *bx.Ctx) {
	g := newGworld(c)
	cf := gconfs()[0]
	g.apply(cf.init)
	// the other repository, which has a remote of its own
	far := filepath.Join(c.Dir, "far.git")
	git(c.Dir, nil, "init", "--quiet", "--bare", far)
	fs := fastImport(far, []map[string]gfile{{"theirs": {"644", "theirs, newer\n"}}}, [][]int{{}})
	git(far, nil, "update-ref", "refs/heads/master", fs[0])
	outer := filepath.Join(c.Dir, "outer")
	parts := []string{"HEAD", "config", "objects", "refs", "packed-refs", "index", "shallow", "FETCH_HEAD", "logs", "*"}
	for _, in := range []string{outer, filepath.Join(c.Dir, "plain")} {
		for _, depth := range []string{"", "data", "a/b"} {
			dir := filepath.Join(in, depth, "vcs-1")
			for set := 0; set <= 1<<len(parts); set++ {
				n := 0
				var gone []string
				for i, p := range parts {
					if set>>i&1 == 1 {
						n++
						gone = append(gone, p)
					}
				}
				if set == 1<<len(parts) {
					gone = []string{".git"}
				}
				if n > c.Bound+1 && n < len(parts)-c.Bound || !c.Mine() || c.Over() {
					continue
				}
				c.States++
				c.DoKey(func() string { return fmt.Sprintf("in %s, without %v", strings.TrimPrefix(dir, c.Dir), gone) }, func() (string, []string) {
					bx.Must(os.RemoveAll(outer))
					bx.Must(os.RemoveAll(filepath.Join(c.Dir, "plain")))
					bx.Must(os.MkdirAll(outer, 0755))
					git(outer, nil, "init", "--quiet")
					git(outer, nil, "remote", "add", "origin", "file://"+far)
					writeTree(outer, []file{{"mine", "committed\n"}})
					git(outer, nil, "add", "-A")
					git(outer, nil, "commit", "--quiet", "-m", "m")
					writeTree(outer, []file{{"mine", "edited\n"}, {"new", "new\n"}})
					mine := func() string {
						return git(outer, nil, "rev-parse", "HEAD") + git(outer, nil, "for-each-ref") + " " + treeText2(outer, filepath.Join(in, depth))
					}
					bx.Must(os.MkdirAll(filepath.Dir(dir), 0755))
					before := mine()
					drv := cf.driver()
					c.Transitions++
					rev, err := drv.PullOrClone(dir, "file://"+g.dir)
					if err != nil || rev != g.shas[cf.init.refs[master]] {
						return "", []string{fmt.Sprintf("the clone: %q, %v", rev, err)}
					}
					for _, p := range gone {
						switch p {
						case ".git":
							bx.Must(os.RemoveAll(filepath.Join(dir, ".git")))
						case "*":
							for f := range workFiles(dir) {
								os.Remove(filepath.Join(dir, f))
							}
						default:
							bx.Must(os.RemoveAll(filepath.Join(dir, ".git", p)))
						}
					}
					c.Transitions++
					rev, err = drv.PullOrClone(dir, "file://"+g.dir)
					if after := mine(); after != before {
						return "", []string{"the repository around it was changed: " + firstDiff(after, before)}
					}
					if err != nil {
						c.Outcome("an error")
						return "", nil
					}
					if rev != g.shas[cf.init.refs[master]] {
						return "", []string{fmt.Sprintf("the pull succeeds with revision %q, the remote is at %s", rev, g.shas[cf.init.refs[master]])}
					}
					if d := diffFiles(workFiles(dir), gtrees[cf.init.refs[master]]); d != "" {
						key := ""
						for _, p := range gone {
							if p == "config" {
								key = keyRef // nowhere to fetch from, which is not reported
							}
						}
						return key, []string{"the pull succeeds, and the working copy differs: " + d}
					}
					c.Outcome("at the commit")
					return "", nil
				})
			}
		}
	}
}

// treeText2 gives the files of a tree but those below without and what git keeps.
func treeText2(dir, without string) string {
	if without == dir {
		without = filepath.Join(dir, "vcs-1")
	}
	out, err := exec.Command("find", dir, "(", "-path", without, "-o", "-name", ".git", ")", "-prune", "-o", "-type", "f", "-printf", "%P ", "-exec", "cat", "{}", ";").CombinedOutput()
	bx.Must(err)
	return string(out)
}

func init() {
	bx.Register(&bx.Job{Name: "v01-half", Desc: "working copies of which parts are missing, inside another repository", Run: halves})
}

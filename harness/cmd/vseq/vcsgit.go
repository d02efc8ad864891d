package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// ---- a remote whose commits exist from the start; only its refs move ------------

type gfile struct{ mode, text string } // mode 644, 755 or 120

var gtrees = []map[string]gfile{
	{"a": {"644", "1\n"}, "d/b": {"644", "x\n"}},
	{"a": {"644", "2\n"}, "d/b": {"644", "x\n"}},
	{"n": {"644", "2\n"}, "d/b": {"644", "x\n"}, "d/.gitignore": {"644", "b\n*.o\n"}, "d/q.o": {"644", "q"}},
	{"a/x": {"644", "2\n"}, "d": {"644", "now a file"}},
	{"a": {"755", "2\n"}, "d/b": {"120", "../a"}, "l": {"120", "nowhere"}},
	{"z": {"644", ""}},
	{},
	{"sp ace": {"644", "s\r\n"}, "\u00fc/\u00fc": {"644", "u"}, "-x": {"644", "-"}, "a": {"120", "-x"}, ".hid/.den": {"644", "h"}, "d/b/c/e": {"644", "deep"}, "D": {"644", "\x00\xff"}},
}

// parent of each commit; -1 for a root
var gparents = [][]int{{}, {0}, {1}, {1}, {1}, {}, {5}, {2, 3}}

func gitEnv(c *bx.Ctx) {
	home := filepath.Join(c.Dir, "home")
	bx.Must(os.MkdirAll(home, 0755))
	for k, v := range map[string]string{"HOME": home, "GIT_CONFIG_NOSYSTEM": "1", "GIT_TEMPLATE_DIR": home, "GIT_TERMINAL_PROMPT": "0", "LC_ALL": "C", "GIT_CEILING_DIRECTORIES": c.Dir,
		"GIT_AUTHOR_DATE": "1600000000 +0000", "GIT_COMMITTER_DATE": "1600000000 +0000"} {
		os.Setenv(k, v)
	}
	bx.Must(os.WriteFile(filepath.Join(home, ".gitconfig"), []byte("[user]\n\tname=v\n\temail=v@v\n[gc]\n\tauto=0\n[maintenance]\n\tauto=false\n[advice]\n\tdetachedHead=false\n[init]\n\tdefaultBranch=master\n"), 0644))
}

func git(dir string, in []byte, args ...string) string {
	cmd := exec.Command("git", args...)
	cmd.Dir = dir
	if in != nil {
		cmd.Stdin = bytes.NewReader(in)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		bx.Must(fmt.Errorf("git %v: %v: %s", args, err, e.String()))
	}
	return strings.TrimSpace(o.String())
}

func fastImport(dir string, trees []map[string]gfile, parents [][]int) []string {
	var b bytes.Buffer
	for i, t := range trees {
		fmt.Fprintf(&b, "commit refs/heads/pool%d\nmark :%d\ncommitter v <v@v> %d +0000\ndata 1\nc\n", i, i+1, 1600000000+i)
		for j, p := range parents[i] {
			fmt.Fprintf(&b, "%s :%d\n", map[bool]string{true: "from", false: "merge"}[j == 0], p+1)
		}
		b.WriteString("deleteall\n")
		var ns []string
		for n := range t {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			m := "100" + t[n].mode
			if t[n].mode == "120" {
				m = "120000"
			}
			fmt.Fprintf(&b, "M %s inline %s\ndata %d\n%s\n", m, quoteC(n), len(t[n].text), t[n].text)
		}
	}
	git(dir, b.Bytes(), "fast-import", "--quiet")
	var out []string
	for i := range trees {
		out = append(out, git(dir, nil, "rev-parse", fmt.Sprintf("refs/heads/pool%d", i)))
	}
	for i := range trees {
		git(dir, nil, "update-ref", "-d", fmt.Sprintf("refs/heads/pool%d", i))
	}
	os.RemoveAll(filepath.Join(dir, "packed-refs"))
	return out
}

func quoteC(s string) string {
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(s) + `"`
}

// workFiles are the files of a working copy, links and modes included.
func workFiles(dir string) map[string]gfile {
	m := map[string]gfile{}
	bx.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == ".git" {
			return filepath.SkipDir
		}
		if d.IsDir() {
			return nil
		}
		if d.Type()&fs.ModeSymlink != 0 {
			l, err := os.Readlink(p)
			m[rel] = gfile{"120", l}
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		mode := "644"
		if i.Mode()&0100 != 0 {
			mode = "755"
		}
		m[rel] = gfile{mode, string(b)}
		return err
	}))
	return m
}

func diffFiles(got, want map[string]gfile) string {
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			return fmt.Sprintf("file %q is missing", n)
		}
		if g != w {
			return fmt.Sprintf("file %q is %q, expected %q", n, g, w)
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			return fmt.Sprintf("file %q should not be there", n)
		}
	}
	return ""
}

// ---- model ------------------------------------------------------------------

type remote struct {
	refs map[string]int // full ref name -> commit
	head string         // what HEAD points to
	gone bool           // cannot be reached
}

func (r remote) clone() remote {
	m := map[string]int{}
	for k, v := range r.refs {
		m[k] = v
	}
	return remote{m, r.head, r.gone}
}

type gconf struct {
	name    string
	cfg     string
	tracked func(r remote) string // full name of the tracked ref
	init    remote
	ops     []gop
}

type gop struct {
	name   string
	remote func(r *remote)
	local  func(c *gworld, wd string)
	conf   *gconf // the server is started again with this configuration
}

type gworld struct {
	c    *bx.Ctx
	dir  string // remote
	shas []string
	tags map[int]string // annotated tag objects by commit
	n    int
}

func set(ref string, c int) gop {
	return gop{name: fmt.Sprintf("%s=c%d", strings.TrimPrefix(ref, "refs/"), c), remote: func(r *remote) { r.refs[ref] = c }}
}
func del(ref string) gop {
	return gop{name: "delete " + strings.TrimPrefix(ref, "refs/"), remote: func(r *remote) { delete(r.refs, ref) }}
}
func head(ref string) gop {
	return gop{name: "HEAD->" + strings.TrimPrefix(ref, "refs/heads/"), remote: func(r *remote) { r.head = ref }}
}

var (
	opEdit = gop{name: "local edits", local: func(g *gworld, wd string) {
		for n, f := range workFiles(wd) {
			p := filepath.Join(wd, n)
			if f.mode != "120" {
				bx.Must(os.WriteFile(p, []byte("0\n"), 0644)) // of the same size as some
			}
		}
	}}
	opWipe = gop{name: "local files deleted", local: func(g *gworld, wd string) {
		es, err := os.ReadDir(wd)
		bx.Must(err)
		for _, e := range es {
			if e.Name() != ".git" {
				bx.Must(os.RemoveAll(filepath.Join(wd, e.Name())))
			}
		}
	}}
	opRetype = gop{name: "local types changed", local: func(g *gworld, wd string) {
		for n, f := range workFiles(wd) {
			p := filepath.Join(wd, n)
			if f.mode == "644" {
				bx.Must(os.Chmod(p, 0755))
			} else {
				bx.Must(os.Remove(p))
				bx.Must(os.Mkdir(p, 0755))
			}
		}
	}}
)

// apply makes the repository of the remote be as the model says.
func (g *gworld) apply(r remote) {
	if _, err := os.Stat(g.dir); err != nil {
		bx.Must(os.Rename(g.dir+".away", g.dir))
	}
	bx.Must(os.RemoveAll(filepath.Join(g.dir, "refs")))
	bx.Must(os.MkdirAll(filepath.Join(g.dir, "refs", "heads"), 0755))
	for n, c := range r.refs {
		p := filepath.Join(g.dir, n)
		bx.Must(os.MkdirAll(filepath.Dir(p), 0755))
		s := g.shas[c%100]
		if c >= 100 {
			s = g.tags[c-100]
		}
		bx.Must(os.WriteFile(p, []byte(s+"\n"), 0644))
	}
	bx.Must(os.WriteFile(filepath.Join(g.dir, "HEAD"), []byte("ref: "+r.head+"\n"), 0644))
	if r.gone {
		bx.Must(os.Rename(g.dir, g.dir+".away"))
	}
}

func newGworld(c *bx.Ctx) *gworld {
	gitEnv(c)
	g := &gworld{c: c, dir: filepath.Join(c.Dir, "remote.git"), tags: map[int]string{}}
	git(c.Dir, nil, "init", "--quiet", "--bare", g.dir)
	g.shas = fastImport(g.dir, gtrees, gparents)
	for _, i := range []int{0, 2, 5} {
		g.tags[i] = git(g.dir, []byte(fmt.Sprintf("object %s\ntype commit\ntag v1\ntagger v <v@v> 1600000000 +0000\n\nm\n", g.shas[i])), "mktag")
	}
	return g
}

const (
	master = "refs/heads/master"
	keyRef = "git-failure-swallowed"
)

func gconfs() []gconf {
	all := func(ref string) (o []gop) {
		for i := range gtrees {
			o = append(o, set(ref, i))
		}
		return
	}
	local := []gop{opEdit, opWipe, opRetype}
	fixed := func(ref string) func(remote) string { return func(remote) string { return ref } }
	detect := func(r remote) string {
		if _, ok := r.refs[r.head]; ok {
			return r.head
		}
		return ""
	}
	return []gconf{
		{"default", "", fixed(master), remote{map[string]int{master: 0}, master, false},
			append(append(all(master), local...), del(master), set("refs/heads/dev", 5), head("refs/heads/dev"), set("refs/tags/origin/master", 1))},
		{"ref", `{"ref":"dev"}`, fixed("refs/heads/dev"), remote{map[string]int{master: 1, "refs/heads/dev": 0}, master, false},
			append(append(all("refs/heads/dev"), local...), del("refs/heads/dev"), set(master, 7), del(master), head("refs/heads/dev"), set("refs/tags/dev2", 3))},
		{"ref with slash", `{"ref":"fe/at.ure"}`, fixed("refs/heads/fe/at.ure"), remote{map[string]int{"refs/heads/fe/at.ure": 4}, "refs/heads/fe/at.ure", false},
			[]gop{set("refs/heads/fe/at.ure", 3), set("refs/heads/fe/at.ure", 7), opEdit, set("refs/heads/origin/fe/at.ure", 2)}},
		{"detect", `{"detect-ref":true}`, detect, remote{map[string]int{"refs/heads/main": 0}, "refs/heads/main", false},
			[]gop{set("refs/heads/main", 1), set("refs/heads/main", 3), set("refs/heads/main", 7), set("refs/heads/trunk", 2), set("refs/heads/trunk", 5), head("refs/heads/trunk"), head("refs/heads/main"), del("refs/heads/main"),
				set(master, 4), opEdit, opWipe}},
		{"detect nested", `{"detect-ref":true}`, detect, remote{map[string]int{"refs/heads/rel": 0}, "refs/heads/rel", false},
			[]gop{{name: "rel becomes rel/1", remote: func(r *remote) {
				delete(r.refs, "refs/heads/rel")
				r.refs["refs/heads/rel/1"] = 2
				r.head = "refs/heads/rel/1"
			}}, {name: "rel/1 becomes rel", remote: func(r *remote) {
				delete(r.refs, "refs/heads/rel/1")
				r.refs["refs/heads/rel"] = 3
				r.head = "refs/heads/rel"
			}}, opEdit}},
		{"ref over detect", `{"ref":"dev","detect-ref":true}`, fixed("refs/heads/dev"), remote{map[string]int{"refs/heads/main": 5, "refs/heads/dev": 0}, "refs/heads/main", false},
			[]gop{set("refs/heads/dev", 1), set("refs/heads/main", 7), head("refs/heads/dev"), head("refs/heads/main")}},
		{"tag", `{"ref":"v1"}`, fixed("refs/tags/v1"), remote{map[string]int{master: 1, "refs/tags/v1": 0}, master, false},
			[]gop{set("refs/tags/v1", 2), set("refs/tags/v1", 102), set("refs/tags/v1", 105), set("refs/tags/v1", 6), set(master, 3), opEdit, del("refs/tags/v1")}},
		{"tag in the way", "", fixed(master), remote{map[string]int{master: 1, "refs/tags/origin/master": 1, "refs/heads/origin/master": 5}, master, false},
			[]gop{set(master, 2), set(master, 0), opEdit}},
		{"full name", `{"ref":"refs/heads/master"}`, fixed(master), remote{map[string]int{master: 1}, master, false},
			[]gop{set(master, 2), set(master, 0), opEdit}},
		changing(fixed, detect),
		{"master beside HEAD", "", fixed(master), remote{map[string]int{master: 3, "refs/heads/main": 7}, "refs/heads/main", false},
			[]gop{set("refs/heads/main", 2), set(master, 0), head(master), opEdit}},
		{"empty ref", `{"ref":"","detect-ref":false}`, fixed(master), remote{map[string]int{master: 2, "refs/heads/main": 4}, "refs/heads/main", false},
			[]gop{set("refs/heads/main", 2), set(master, 0), opWipe}},
		{"empty ref, detected", `{"ref":"","detect-ref":true}`, detect, remote{map[string]int{master: 2, "refs/heads/main": 4}, "refs/heads/main", false},
			[]gop{set("refs/heads/main", 2), set(master, 0), head(master), opWipe}},
		{"ref named like a commit", `{"ref":"abcdef0"}`, fixed("refs/heads/abcdef0"), remote{map[string]int{master: 2, "refs/heads/abcdef0": 4}, master, false},
			[]gop{set("refs/heads/abcdef0", 2), set(master, 0), opEdit}},
		{"mixed case", `{"ref":"Rel/V1.X"}`, fixed("refs/heads/Rel/V1.X"), remote{map[string]int{master: 2, "refs/heads/Rel/V1.X": 4, "refs/heads/rel/v1.x": 6}, master, false},
			[]gop{set("refs/heads/Rel/V1.X", 3), set("refs/heads/rel/v1.x", 0), opEdit}},
		{"mixed case, detected", `{"detect-ref":true}`, detect, remote{map[string]int{master: 2, "refs/heads/Main": 4, "refs/heads/main": 6}, "refs/heads/Main", false},
			[]gop{set("refs/heads/Main", 3), head("refs/heads/main"), head("refs/heads/Main"), opEdit}},
		{"unusual characters", `{"ref":"a#b@c%d=é+'q\"&$(x);|!,<>"}`, fixed("refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>"), remote{map[string]int{master: 2, "refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>": 4}, master, false},
			[]gop{set("refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>", 3), set(master, 0), opEdit}},
		{"unusual characters, detected", `{"detect-ref":true}`, detect, remote{map[string]int{master: 2, "refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>": 4}, "refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>", false},
			[]gop{set("refs/heads/a#b@c%d=é+'q\"&$(x);|!,<>", 3), head(master), set(master, 0), opEdit}},
		{"no master", "", fixed(master), remote{map[string]int{"refs/heads/main": 1}, "refs/heads/main", false},
			[]gop{set("refs/heads/main", 2), set(master, 0), opEdit}},
	}
}

// changing is one whose configuration changes too, beside the branches.
func changing(fixed func(string) func(remote) string, detect func(remote) string) gconf {
	cs := []*gconf{
		{name: "default", tracked: fixed(master)},
		{name: "ref dev", cfg: `{"ref":"dev"}`, tracked: fixed("refs/heads/dev")},
		{name: "ref v1", cfg: `{"ref":"v1"}`, tracked: fixed("refs/tags/v1")},
		{name: "detect", cfg: `{"detect-ref":true}`, tracked: detect},
	}
	var ops []gop
	for _, c := range cs {
		ops = append(ops, gop{name: "configured " + c.name, conf: c})
	}
	ops = append(ops, set(master, 3), set("refs/heads/dev", 4), set("refs/tags/v1", 102), head("refs/heads/dev"), opEdit,
		gop{name: "remote gone", remote: func(r *remote) { r.gone = true }}, gop{name: "remote back", remote: func(r *remote) { r.gone = false }})
	return gconf{"changing", "", fixed(master), remote{map[string]int{master: 0, "refs/heads/dev": 2, "refs/tags/v1": 5}, master, false}, ops}
}

// driver gives a driver with that configuration.
func (cf gconf) driver() *vcs.WorkDir {
	var cfg []byte
	if cf.cfg != "" {
		cfg = []byte(cf.cfg)
	}
	w, err := vcs.New("git", cfg)
	if err != nil {
		panic("the configuration is not accepted: " + err.Error())
	}
	return w
}

// driverCopy gives one that went through the same as w, for another future.
func driverCopy(w *vcs.WorkDir) *vcs.WorkDir {
	v := reflect.ValueOf(w.Driver)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return w
	}
	n := reflect.New(v.Elem().Type())
	n.Elem().Set(v.Elem())
	return &vcs.WorkDir{Driver: n.Interface().(vcs.Driver)}
}

func (g *gworld) copyWd(from string) string {
	g.n++
	to := filepath.Join(g.c.Dir, fmt.Sprintf("vcs-%d", g.n))
	bx.Must(filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		q := filepath.Join(to, rel)
		i, err := d.Info()
		if err != nil {
			return err
		}
		switch {
		case d.IsDir():
			return os.Mkdir(q, 0755)
		case d.Type()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, q)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, i.Mode().Perm())
	}))
	return to
}

// pull updates wd and compares; prev is the commit it had (-1: none).
func (g *gworld) pull(cf gconf, r remote, wd string, prev *string, prevLocal string, w *vcs.WorkDir) (string, []string) {
	g.apply(r)
	g.c.Transitions++
	rev, err := w.PullOrClone(wd, "file://"+g.dir)
	ref := cf.tracked(r)
	ci, ok := r.refs[ref]
	if r.gone {
		ok = false
	}
	if !ok {
		if err != nil {
			g.c.Outcome("no such ref, error")
			return "", nil
		}
		// nothing at the remote that the revision could be
		if *prev == "" || rev == *prev {
			for i, s := range g.shas {
				if s == *prev && prevLocal == "" {
					if d := diffFiles(workFiles(wd), gtrees[i]); d != "" {
						return "", []string{fmt.Sprintf("the tracked ref %q does not exist at the remote, the pull reports the old revision, and %s", ref, d)}
					}
				}
			}
			g.c.Outcome("no such ref, stale")
			return keyRef, []string{fmt.Sprintf("the tracked ref %q cannot be had from the remote, and the pull reports success with revision %s", ref, rev)}
		}
		return "", []string{fmt.Sprintf("the tracked ref %q does not exist at the remote, and the pull reports success with revision %s, before it was %s", ref, rev, *prev)}
	}
	if err != nil {
		g.c.Outcome("error")
		return "", []string{fmt.Sprintf("the tracked ref %q exists at the remote, and the pull fails: %v", ref, err)}
	}
	ci %= 100
	if rev != g.shas[ci] {
		at := "unknown"
		for i, s := range g.shas {
			if s == rev {
				at = fmt.Sprintf("c%d", i)
			}
		}
		return "", []string{fmt.Sprintf("the tracked ref %q is at c%d %s at the remote, and the revision reported is %q (%s)", ref, ci, g.shas[ci], rev, at)}
	}
	if d := diffFiles(workFiles(wd), gtrees[ci]); d != "" {
		return "", []string{fmt.Sprintf("at c%d: %s", ci, d)}
	}
	*prev = rev
	g.c.Outcome("at the commit")
	return "", nil
}

func runGit(c *bx.Ctx) {
	g := newGworld(c)
	for _, cf := range gconfs() {
		depth := c.Bound
		if len(cf.ops) > 12 && c.Bound > 2 {
			depth--
		}
		wd := filepath.Join(c.Dir, "vcs-first")
		prev := ""
		var key string
		var drv *vcs.WorkDir
		c.DoKey(func() string { return cf.name + ": clone" }, func() (string, []string) {
			os.RemoveAll(wd)
			prev = ""
			drv = cf.driver()
			k, bad := g.pull(cf, cf.init, wd, &prev, "", drv)
			key = k
			return k, bad
		})
		_ = key
		// files of the first working copy by commit, for later
		// one driver goes through a history, until the configuration changes
		var walk func(cf gconf, drv *vcs.WorkDir, wd string, r remote, prev, loc string, d int, path string, top bool)
		walk = func(cf gconf, drv *vcs.WorkDir, wd string, r remote, prev, loc string, d int, path string, top bool) {
			for _, op := range cf.ops {
				if top && !c.Mine() {
					continue
				}
				if c.Over() {
					return
				}
				r2 := r.clone()
				if op.remote != nil {
					op.remote(&r2)
				}
				cf2 := cf
				if op.conf != nil {
					cf2.cfg, cf2.tracked = op.conf.cfg, op.conf.tracked
				}
				if conflict(r2) {
					continue
				}
				desc := path + "; " + op.name
				var next, p2, loc2 string
				var drv2 *vcs.WorkDir
				failed := false
				c.DoKey(func() string { return desc }, func() (string, []string) {
					if next != "" {
						os.RemoveAll(next)
					}
					next = g.copyWd(wd)
					p2 = prev
					loc2 = loc
					if op.local != nil {
						loc2 = op.name
						op.local(g, next)
					}
					if drv2 = driverCopy(drv); op.conf != nil {
						drv2 = cf2.driver()
					}
					k, bad := g.pull(cf2, r2, next, &p2, loc2, drv2)
					failed = len(bad) > 0 && k == ""
					if len(bad) == 0 && k == "" {
						loc2 = ""
					}
					return k, bad
				})
				c.States++
				if d > 1 && !failed {
					walk(cf2, drv2, next, r2, p2, loc2, d-1, desc, false)
				}
				os.RemoveAll(next)
			}
		}
		if _, err := os.Stat(wd); err == nil {
			walk(cf, drv, wd, cf.init, prev, "", depth, cf.name+": clone", true)
		}
		c.Sample(fmt.Sprintf("%s %s: %d operations, depth %d", cf.name, cf.cfg, len(cf.ops), depth))
		os.RemoveAll(wd)
		if c.Over() {
			return
		}
	}
}

// conflict: git itself does not allow such refs.
func conflict(r remote) bool {
	for a := range r.refs {
		for b := range r.refs {
			if strings.HasPrefix(b, a+"/") {
				return true
			}
		}
	}
	return false
}

func init() {
	bx.Register(&bx.Job{Name: "v01-git", Desc: "every history of a remote and of local disturbances", Run: runGit})
}

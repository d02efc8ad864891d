package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// ---- a watched local directory --------------------------------------------------

var t0 = time.Unix(1600000000, 0)

// lop changes the model (path -> text, "/" at the end for a directory) and the tree.
type lop struct {
	name string
	do   func(src string, m map[string]string) bool // false: not applicable
}

// put writes without changing the modification time, the size or the inode where
// these stay the same, so that only the content tells.
func putFile(src, name, text string) {
	p := filepath.Join(src, name)
	bx.Must(os.MkdirAll(filepath.Dir(p), 0755))
	bx.Must(os.WriteFile(p, []byte(text), 0644))
	bx.Must(os.Chtimes(p, t0, t0))
	for d := filepath.Dir(p); ; d = filepath.Dir(d) {
		bx.Must(os.Chtimes(d, t0, t0))
		if d == src {
			break
		}
	}
}

func isUnder(m map[string]string, name string) bool {
	for n := range m {
		if strings.HasPrefix(n, name+"/") {
			return true
		}
	}
	for d := filepath.Dir(name); d != "."; d = filepath.Dir(d) {
		if _, ok := m[d]; ok {
			return true
		}
	}
	return false
}

func lops(bound int) []lop {
	var o []lop
	names := []string{"a", "b", "d/a", "d e/x", ".h"}
	texts := []string{"", "1\n", "2\n", "12\n"}
	if bound > 2 {
		names = append(names, "d/f/a", "\xff\u00fc", "-b", "a  b")
	}
	for _, n := range names {
		for _, t := range texts {
			n, t := n, t
			o = append(o, lop{fmt.Sprintf("%s=%q", n, t), func(src string, m map[string]string) bool {
				if isUnder(m, n) {
					return false
				}
				m[n] = t
				putFile(src, n, t)
				return true
			}})
		}
		n := n
		o = append(o, lop{"delete " + n, func(src string, m map[string]string) bool {
			if _, ok := m[n]; !ok {
				return false
			}
			delete(m, n)
			bx.Must(os.Remove(filepath.Join(src, n)))
			return true
		}})
	}
	mv := func(a, b string) lop {
		return lop{a + "->" + b, func(src string, m map[string]string) bool {
			if _, ok := m[a]; !ok || isUnder(m, b) {
				return false
			}
			m[b] = m[a]
			delete(m, a)
			bx.Must(os.MkdirAll(filepath.Dir(filepath.Join(src, b)), 0755))
			bx.Must(os.Rename(filepath.Join(src, a), filepath.Join(src, b)))
			return true
		}}
	}
	o = append(o, mv("a", "b"), mv("b", "a"), mv("a", "d/a"), mv("d/a", "c"),
		lop{"swap a,b", func(src string, m map[string]string) bool {
			x, k1 := m["a"]
			y, k2 := m["b"]
			if !k1 || !k2 {
				return false
			}
			m["a"], m["b"] = y, x
			bx.Must(os.Rename(filepath.Join(src, "a"), filepath.Join(src, "t")))
			bx.Must(os.Rename(filepath.Join(src, "b"), filepath.Join(src, "a")))
			bx.Must(os.Rename(filepath.Join(src, "t"), filepath.Join(src, "b")))
			return true
		}},
		lop{"rename directory d", func(src string, m map[string]string) bool {
			ok := false
			for n, t := range m {
				if strings.HasPrefix(n, "d/") {
					ok = true
					delete(m, n)
					m["D"+n[1:]] = t
				}
			}
			if !ok || os.Rename(filepath.Join(src, "d"), filepath.Join(src, "D")) != nil {
				for n, t := range m {
					if strings.HasPrefix(n, "D/") {
						delete(m, n)
						m["d"+n[1:]] = t
					}
				}
				return false
			}
			return true
		}},
		lop{"touch", func(src string, m map[string]string) bool {
			for n := range m {
				bx.Must(os.Chtimes(filepath.Join(src, n), t0.Add(time.Hour), t0.Add(time.Hour)))
			}
			bx.Must(os.Chtimes(src, t0.Add(time.Hour), t0.Add(time.Hour)))
			return true
		}},
		lop{"chmod", func(src string, m map[string]string) bool {
			for n := range m {
				bx.Must(os.Chmod(filepath.Join(src, n), 0755))
			}
			return true
		}},
		lop{"rewritten in other files", func(src string, m map[string]string) bool {
			for n, t := range m {
				bx.Must(os.Remove(filepath.Join(src, n)))
				putFile(src, n, t)
			}
			return true
		}},
		lop{"empty directory", func(src string, m map[string]string) bool {
			return os.Mkdir(filepath.Join(src, "empty"), 0755) == nil
		}},
	)
	return o
}

// snapshot is everything about a tree that looking at it must not change.
func lsnap(dir string) string {
	var sb strings.Builder
	bx.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		fmt.Fprintf(&sb, "%s %v %v %d", p, i.Mode(), i.ModTime(), i.Size())
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&sb, " %q", b)
		}
		sb.WriteByte('\n')
		return nil
	}))
	return sb.String()
}

func modelKey(m map[string]string) string {
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var sb strings.Builder
	for _, n := range ns {
		fmt.Fprintf(&sb, "%q=%q ", n, m[n])
	}
	return sb.String()
}

// withTimeout: a pull of a handful of small files that takes a minute hangs.
func withTimeout(f func() (string, error)) (string, error, bool) {
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		s, e := f()
		ch <- res{s, e}
	}()
	select {
	case r := <-ch:
		return r.s, r.e, true
	case <-time.After(time.Minute):
		return "", nil, false
	}
}

type others struct {
	name string
	make func(src string)
}

// what else may lie in the directory all the time
var otherKinds = []others{
	{"nothing", func(string) {}},
	{"link to a directory", func(s string) {
		bx.Must(os.MkdirAll(filepath.Join(s, "d"), 0755))
		bx.Must(os.Symlink("d", filepath.Join(s, "ln")))
	}},
	{"link to nothing", func(s string) { bx.Must(os.Symlink("nowhere/at/all", filepath.Join(s, "ln"))) }},
	{"link to itself", func(s string) { bx.Must(os.Symlink("ln", filepath.Join(s, "ln"))) }},
	{"link to the directory itself", func(s string) { bx.Must(os.Symlink(".", filepath.Join(s, "ln"))) }},
	{"link to a device", func(s string) { bx.Must(os.Symlink("/dev/zero", filepath.Join(s, "ln"))) }},
	{"named pipe", func(s string) { bx.Must(syscall.Mkfifo(filepath.Join(s, "pipe"), 0644)) }},
	{"link to a named pipe", func(s string) {
		bx.Must(syscall.Mkfifo(s+".pipe", 0644))
		bx.Must(os.Symlink(s+".pipe", filepath.Join(s, "ln")))
	}},
	{"socket", func(s string) {
		fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		bx.Must(err)
		wd, err := os.Getwd()
		bx.Must(err)
		bx.Must(os.Chdir(s))
		bx.Must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: "sock"}))
		bx.Must(os.Chdir(wd))
		syscall.Close(fd)
	}},
}

// ways to name the directory
var localWays = []struct {
	name string
	url  func(base, src string) string
}{
	{"direct", func(b, s string) string { return "file://" + s }},
	{"trailing slash", func(b, s string) string { return "file://" + s + "/" }},
	{"through a link", func(b, s string) string {
		l := filepath.Join(b, "way1")
		os.Remove(l)
		bx.Must(os.Symlink(s, l))
		return "file://" + l
	}},
	{"through two links", func(b, s string) string {
		l, k := filepath.Join(b, "way2"), filepath.Join(b, "way3")
		os.Remove(l)
		os.Remove(k)
		bx.Must(os.Symlink(s, l))
		bx.Must(os.Symlink("way2", k))
		return "file://" + k
	}},
}

type lconf struct {
	cfg   string
	watch bool
}

var lconfs = []lconf{{`{"watch-changes":true}`, true}, {`{"watch-changes":true,"ignored-files":["b","d"]}`, true}, {`{"watch-changes":false}`, false}, {``, false}}

type lworld struct {
	c        *bx.Ctx
	revOf    map[string]string // content -> revision
	contents map[string]string // revision -> content
	n        int
}

// history replays one and judges every pull.
func (l *lworld) history(base string, cf lconf, way, other int, ops []lop, judgeIndex bool) (applicable bool, bad []string) {
	l.n++
	os.RemoveAll(base)
	src := filepath.Join(base, "my vcs-src")
	bx.Must(os.MkdirAll(src, 0755))
	m := map[string]string{"a": "1\n", "b": "2\n", "d/a": "1\n"}
	for n, t := range m {
		putFile(src, n, t)
	}
	otherKinds[other].make(src)
	url := localWays[way].url(base, src)
	var cfg []byte
	if cf.cfg != "" {
		cfg = []byte(cf.cfg)
	}
	w, err := vcs.New("local", cfg)
	if err != nil {
		return true, []string{"configuration not accepted: " + err.Error()}
	}
	db := filepath.Join(base, "vcs-data", "my vcs-db")
	bx.Must(os.MkdirAll(db, 0755))
	vd := filepath.Join(db, "vcs-0123456789abcdef0123456789abcdef01234567")
	scope := fmt.Sprintf("%d %v ", other, cf)
	first := ""
	for i := 0; ; i++ {
		if i > 0 {
			if !ops[i-1].do(src, m) {
				return false, nil
			}
		}
		before := lsnap(src)
		l.c.Transitions++
		rev, err, ok := withTimeout(func() (string, error) { return w.PullOrClone(vd, url) })
		at := fmt.Sprintf("pull %d: ", i)
		if !ok {
			return true, []string{at + "it does not return"}
		}
		if err != nil {
			return true, []string{at + "it fails: " + err.Error()}
		}
		if s := lsnap(src); s != before {
			return true, []string{at + "it changed the directory from\n" + before + "to\n" + s}
		}
		if rev == "" {
			return true, []string{at + "no revision"}
		}
		if !cf.watch {
			if first == "" {
				first = rev
			}
			if rev != first {
				return true, []string{fmt.Sprintf("%sthe revision is %q, it was %q, though the directory is not watched", at, rev, first)}
			}
		} else {
			k := scope + modelKey(m)
			if r, ok := l.revOf[k]; ok && r != rev {
				return true, []string{fmt.Sprintf("%sthe revision is %q, and was %q at another time with the same files %s", at, rev, r, modelKey(m))}
			}
			if o, ok := l.contents[scope+rev]; ok && o != k {
				return true, []string{fmt.Sprintf("%sthe revision is %q with the files %s, and was the same with %s", at, rev, k, o)}
			}
			l.revOf[k], l.contents[scope+rev] = rev, k
		}
		if judgeIndex && i == len(ops) {
			if b := indexesLocal(l.c, vd, src, m, w.SpecialFiles()); b != nil {
				return true, append([]string{at + "index of the files " + modelKey(m)}, b...)
			}
			if s := lsnap(src); s != before {
				return true, []string{at + "indexing changed the directory from\n" + before + "to\n" + s}
			}
		}
		if i < len(ops) {
			continue
		}
		// the same data directory named in another way, and moved elsewhere
		wd, err := os.Getwd()
		bx.Must(err)
		bx.Must(os.Chdir(db))
		r1, err := w.PullOrClone(filepath.Base(vd), url)
		bx.Must(os.Chdir(wd))
		if err != nil || r1 != rev {
			return true, []string{fmt.Sprintf("%sthe revision is %q, and %q (%v) when the data directory is named relative to another directory", at, rev, r1, err)}
		}
		moved := filepath.Join(base, "vcs-moved")
		bx.Must(os.Rename(db, moved))
		if r1, err = w.PullOrClone(filepath.Join(moved, filepath.Base(vd)), url); err != nil || r1 != rev {
			return true, []string{fmt.Sprintf("%sthe revision is %q, and %q (%v) when the data directory is moved", at, rev, r1, err)}
		}
		return true, nil
	}
}

// indexesLocal: what is served is the directory's files.
func indexesLocal(c *bx.Ctx, vd, src string, m map[string]string, special []string) []string {
	dst := fresh(c)
	defer os.RemoveAll(dst)
	r, err := index.Build(&index.IndexOptions{SpecialFiles: special}, dst, vd, "u", "r")
	if err != nil {
		return []string{"not indexed: " + err.Error()}
	}
	ix, err := r.Open()
	if err != nil {
		return []string{"not opened: " + err.Error()}
	}
	defer ix.Close()
	res, err := ix.Search("[12]", &index.SearchOptions{})
	if err != nil {
		return []string{err.Error()}
	}
	got := map[string]string{}
	for _, f := range res.Matches {
		for _, x := range f.Matches {
			got[f.Filename] += x.Line + "\n"
		}
	}
	want := map[string]string{}
	for n, t := range m {
		skip := t == ""
		for _, s := range special {
			if n == s || strings.HasPrefix(n, s+"/") {
				skip = true
			}
		}
		if filepath.Base(n) == "" || skip {
			continue
		}
		want[n] = t
	}
	if a, b := modelKey(got), modelKey(want); a != b {
		return []string{"searches find " + a + ", expected " + b}
	}
	return nil
}

func runLocal(c *bx.Ctx) {
	l := &lworld{c: c, revOf: map[string]string{}, contents: map[string]string{}}
	base := filepath.Join(c.Dir, "w")
	ops := lops(c.Bound)
	one := func(cf lconf, way, other int, seq []lop, ix bool) bool {
		var ns []string
		for _, o := range seq {
			ns = append(ns, o.name)
		}
		app := true
		c.DoKey(func() string {
			return fmt.Sprintf("%s, named %s, with %s: clone; %s", cf.cfg, localWays[way].name, otherKinds[other].name, strings.Join(ns, "; "))
		}, func() (string, []string) {
			a, b := l.history(base, cf, way, other, seq, ix)
			app = a
			return "", b
		})
		c.States++
		return app
	}
	// every kind of entry, way and configuration with every single operation
	for other := range otherKinds {
		for way := range localWays {
			for _, cf := range lconfs {
				if c.Over() {
					return
				}
				if c.Mine() {
					one(cf, way, other, nil, true)
					for _, o := range ops {
						if c.Over() {
							return
						}
						one(cf, way, other, []lop{o}, true)
					}
				}
			}
		}
	}
	// every history
	for _, cf := range lconfs {
		for _, a := range ops {
			if c.Over() {
				return
			}
			if !c.Mine() {
				continue
			}
			if !one(cf, 0, 0, []lop{a}, false) {
				continue
			}
			var rec func(seq []lop)
			rec = func(seq []lop) {
				for _, b := range ops {
					if c.Over() {
						return
					}
					if one(cf, 0, 0, append(append([]lop{}, seq...), b), len(seq) < 2) && len(seq)+1 < c.Bound {
						rec(append(append([]lop{}, seq...), b))
					}
				}
			}
			if c.Bound > 1 {
				rec([]lop{a})
			}
		}
	}
	// gone for a while
	if c.Mine() {
		c.Do("the directory is away, then back", func() []string {
			os.RemoveAll(base)
			src := filepath.Join(base, "src")
			putFile(src, "a", "1\n")
			w, err := vcs.New("local", []byte(lconfs[0].cfg))
			bx.Must(err)
			vd := filepath.Join(base, "vcs-x")
			r1, err := w.PullOrClone(vd, "file://"+src)
			if err != nil {
				return []string{err.Error()}
			}
			bx.Must(os.Rename(src, src+".away"))
			// the link leads nowhere: an update, or a first one
			if r, err := w.Pull(vd); err == nil {
				return []string{"a pull of the missing directory reports revision " + r}
			}
			if r, err := w.PullOrClone(vd, "file://"+src); err == nil {
				return []string{"a pull or clone of the missing directory reports revision " + r}
			}
			bx.Must(os.WriteFile(src, nil, 0644))
			if r, err := w.PullOrClone(vd, "file://"+src); err == nil {
				return []string{"a pull of a file reports revision " + r}
			}
			bx.Must(os.Remove(src))
			bx.Must(os.Rename(src+".away", src))
			r2, err := w.PullOrClone(vd, "file://"+src)
			if err != nil || r1 != r2 {
				return []string{fmt.Sprintf("when it is back the revision is %q (%v), before it was %q", r2, err, r1)}
			}
			return nil
		})
	}
	c.Sample(fmt.Sprintf("%d operations, depth %d, %d configurations, %d other kinds of entry, %d ways of naming; %d distinct contents seen", len(ops), c.Bound, len(lconfs), len(otherKinds), len(localWays), len(l.contents)))
	c.Outcome("pulled")
}

func init() {
	bx.Register(&bx.Job{Name: "v02-local", Desc: "every history of a local directory", Run: runLocal})
}

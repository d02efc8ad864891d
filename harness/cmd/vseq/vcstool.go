package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// ---- svn, hg and bzr with scripted tools -----------------------------------------

// The script plays all tools: it records its name, directory and arguments, and
// does what the files of the directory V tell.
const toolScript = `#!/bin/sh
V='@V@'
n=${0##*/}
{ printf '%s\n%s\n' "$n" "$PWD"; for a in "$@"; do printf '%s\n' "$a"; done; printf '\036\n'; } >> "$V/log"
rev() {
	read m < "$V/rev"
	case $m in
	noisy) i=0; while [ $i -lt 3000 ]; do echo "warning: something is not as it should be $i" >&2; i=$((i+1)); done;;
	esac
	case $m in
	ok|noisy) cat "$V/out"; exit 0;;
	fail) echo "cannot tell" >&2; exit 1;;
	failout) cat "$V/out"; exit 3;;
	killed) cat "$V/out"; kill -9 $$;;
	esac
}
sync() { # directory
	read m < "$V/sync"
	case $m in
	ok) mkdir -p "$1"; echo x >> "$1/file"; exit 0;;
	noisy) mkdir -p "$1"; echo x >> "$1/file"; i=0; while [ $i -lt 3000 ]; do echo "Updating this and that $i"; echo "warning $i" >&2; i=$((i+1)); done; exit 0;;
	fail) echo "abort: no such thing" >&2; exit 1;;
	half) mkdir -p "$1"; echo x >> "$1/file"; echo "lost" >&2; exit 2;;
	killed) mkdir -p "$1"; kill -9 $$;;
	esac
}
for a in "$@"; do last=$a; done
case "$n $1" in
"svn checkout"|"hg clone"|"bzr branch") sync "$last";;
"svn update"|"hg pull"|"bzr pull") sync .;;
"svnversion "*|"hg log"|"bzr revno") rev;;
esac
echo "tool: unexpected call: $n $*" >&2
exit 99
`

type tdriver struct {
	names   []string
	special string
	sync    [2]string // tool and sub-command of a first and a later update
	syncTo  string
	rev     string
}

var tdrivers = []tdriver{
	{[]string{"svn", "subversion"}, ".svn", [2]string{"svn checkout", "svn update"}, "", "svnversion"},
	{[]string{"hg", "mercurial"}, ".hg", [2]string{"hg clone", "hg pull"}, "", "hg log"},
	{[]string{"bzr"}, ".bzr", [2]string{"bzr branch", "bzr pull"}, "", "bzr revno"},
}

type call struct {
	tool, cwd string
	args      []string
}

type tworld struct {
	c    *bx.Ctx
	v    string // scripts
	path string
}

func newTworld(c *bx.Ctx) *tworld {
	w := &tworld{c: c, v: filepath.Join(c.Dir, "v"), path: os.Getenv("PATH")}
	b := filepath.Join(c.Dir, "toolbin")
	bx.Must(os.MkdirAll(w.v, 0755))
	bx.Must(os.MkdirAll(b, 0755))
	for _, n := range []string{"svn", "svnversion", "hg", "bzr"} {
		bx.Must(os.WriteFile(filepath.Join(b, n), []byte(strings.ReplaceAll(toolScript, "@V@", w.v)), 0755))
	}
	bx.Must(os.Setenv("PATH", b+":"+w.path))
	return w
}

func (w *tworld) set(sync, rev, out string) {
	for n, s := range map[string]string{"sync": sync + "\n", "rev": rev + "\n", "out": out} {
		bx.Must(os.WriteFile(filepath.Join(w.v, n), []byte(s), 0644))
	}
	os.Remove(filepath.Join(w.v, "log"))
}

func (w *tworld) calls() []call {
	b, _ := os.ReadFile(filepath.Join(w.v, "log"))
	var cs []call
	for _, s := range strings.Split(string(b), "\036\n") {
		if s == "" {
			continue
		}
		l := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		cs = append(cs, call{l[0], l[1], l[2:]})
	}
	return cs
}

var (
	syncs   = []string{"ok", "noisy", "fail", "half", "killed"}
	revs    = []string{"ok", "noisy", "fail", "failout", "killed"}
	outs    = []string{"1234\n", " 12:34M \n", "a1b2c3", "one two\nthree\n", "r\u00e9v\t1\n"}
	urls3   = []string{"https://h/r", "https://u:p@h/a b/$HOME/`x`/'q'\"?a=b&c#d", "file:///tmp/r", "h", "ssh://\u00fc/*"}
	creds   = []struct{ u, p string }{{"user", "secret"}, {"a b", "p'\"$x`;&|"}, {"\u00fc", "-p"}, {"--password", "--username"}, {"", ""}}
	badName = []string{"", "SVN", "Git", "svn ", " hg", "foo", "mercurial2", "bazaar", "cvs", "local ", "git\n", "svn/", "loca"}
)

type tstep struct{ sync, rev, out string }

// attempts performs the updates and judges each.
func (w *tworld) attempts(d tdriver, name, cfg, url, db string, user, pass string, steps []tstep, restart bool) []string {
	os.RemoveAll(filepath.Join(w.c.Dir, "db 1"))
	bx.Must(os.MkdirAll(filepath.Join(w.c.Dir, "db 1", "in"), 0755))
	bx.Must(os.Chdir(w.c.Dir))
	dir := filepath.Join(db, "vcs-0123")
	abs := dir
	if !filepath.IsAbs(abs) {
		abs = filepath.Join(w.c.Dir, dir)
	}
	mk := func() (*vcs.WorkDir, error) {
		var b []byte
		if cfg != "" {
			b = []byte(cfg)
		}
		return vcs.New(name, b)
	}
	wd, err := mk()
	if err != nil {
		return []string{"the driver is not made: " + err.Error()}
	}
	for i, s := range steps {
		at := fmt.Sprintf("update %d: ", i)
		if i > 0 && restart {
			if wd, err = mk(); err != nil {
				return []string{at + "the driver is not made: " + err.Error()}
			}
		}
		_, e := os.Stat(abs)
		first := e != nil
		w.set(s.sync, s.rev, s.out)
		w.c.Transitions++
		rev, err, ok := withTimeout(func() (string, error) { return wd.PullOrClone(dir, url) })
		if !ok {
			return []string{at + "it does not return"}
		}
		cs := w.calls()
		syncOK := s.sync == "ok" || s.sync == "noisy"
		good := syncOK && (s.rev == "ok" || s.rev == "noisy")
		w.c.Outcome(fmt.Sprint("first ", first, ", good ", good))
		if good && err != nil {
			return []string{at + "the tools succeed and it fails: " + err.Error() + fmt.Sprintf(" (calls %q)", cs)}
		}
		if !good && err == nil {
			return []string{at + fmt.Sprintf("a tool fails and the revision %q is reported (calls %q)", rev, cs)}
		}
		if want := strings.TrimSpace(s.out); good && rev != want {
			return []string{at + fmt.Sprintf("the revision is %q, the tool says %q", rev, want)}
		}
		// the calls
		kind := d.sync[1]
		if first {
			kind = d.sync[0]
		}
		n := 0
		for _, c := range cs {
			sub := ""
			if len(c.args) > 0 {
				sub = " " + c.args[0]
			}
			if c.tool+sub == d.sync[0] || c.tool+sub == d.sync[1] {
				n++
				if c.tool+sub != kind {
					return []string{at + fmt.Sprintf("the working directory exists: %v, and %q is called", !first, c)}
				}
				target := c.cwd
				if first {
					target = c.args[len(c.args)-1]
					if !filepath.IsAbs(target) {
						target = filepath.Join(c.cwd, target)
					}
					if !contains(c.args, url) {
						return []string{at + fmt.Sprintf("the URL %q is not among %q", url, c.args)}
					}
				}
				if target != abs {
					return []string{at + fmt.Sprintf("it is for the directory %q, which should be %q: %q", target, abs, c)}
				}
				if user != "" && (after(c.args, "--username") != user || after(c.args, "--password") != pass) {
					return []string{at + fmt.Sprintf("user %q and password %q are configured: %q", user, pass, c.args)}
				}
				if user == "" && pass == "" && contains(c.args, "secret") {
					return []string{at + fmt.Sprintf("a password out of nowhere: %q", c.args)}
				}
			} else if c.cwd != abs {
				return []string{at + fmt.Sprintf("the revision is asked for in %q, which should be %q: %q", c.cwd, abs, c)}
			} else if n == 0 {
				return []string{at + fmt.Sprintf("%q is called before the update", c)}
			}
		}
		if n != 1 {
			return []string{at + fmt.Sprintf("%d updates were made: %q", n, cs)}
		}
		// nothing beside the directory itself
		if es, err := os.ReadDir(filepath.Dir(abs)); err == nil {
			for _, e := range es {
				if e.Name() != "vcs-0123" && e.Name() != "in" {
					return []string{at + "there is now " + e.Name() + " beside the working directory"}
				}
			}
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// after is the value that follows the option, also joined by =.  Options whose values
// look like options are found by going from left to right.
func after(l []string, opt string) string {
	for i := 0; i < len(l); i++ {
		a := l[i]
		if strings.HasPrefix(a, opt+"=") {
			return a[len(opt)+1:]
		}
		if a == "--username" || a == "--password" {
			if a == opt && i+1 < len(l) {
				return l[i+1]
			}
			i++
		}
	}
	return "\x00none"
}

func runTools(c *bx.Ctx) {
	w := newTworld(c)
	defer os.Chdir("/")
	dbs := []string{filepath.Join(c.Dir, "db 1"), "db 1", "db 1/in"}
	one := func(d tdriver, name, cfg, url, db, u, p string, steps []tstep, restart bool) {
		c.States++
		c.Do(fmt.Sprintf("%s %s, URL %q, in %q, tools %q, restarted %v", name, cfg, url, db, steps, restart), func() []string {
			return w.attempts(d, name, cfg, url, db, u, p, steps, restart)
		})
	}
	var all []tstep
	for _, s := range syncs {
		for _, r := range revs {
			if s != "ok" && s != "noisy" && r != "ok" && r != "failout" {
				continue // the revision is not asked for; one that would succeed and one that would not
			}
			all = append(all, tstep{s, r, "r-" + s + "-" + r + "\n"})
		}
	}
	for _, d := range tdrivers {
		for _, n := range d.names {
			for _, restart := range []bool{false, true} {
				var rec func(pre []tstep)
				rec = func(pre []tstep) {
					if c.Over() {
						return
					}
					for _, s := range all {
						if len(pre) == 0 && !c.Mine() {
							continue
						}
						seq := append(append([]tstep{}, pre...), s)
						if len(seq) == c.Bound {
							one(d, n, "", urls3[0], dbs[0], "", "", seq, restart)
						} else {
							rec(seq)
						}
						if c.Over() {
							return
						}
					}
				}
				rec(nil)
			}
			ok := func(o string) []tstep { return []tstep{{"ok", "ok", o}, {"ok", "ok", o + "2"}} }
			for _, db := range dbs {
				for _, u := range urls3 {
					for _, o := range outs {
						if c.Mine() && !c.Over() {
							one(d, n, "", u, db, "", "", ok(o), false)
						}
					}
				}
			}
			if d.special == ".svn" {
				for _, cr := range creds {
					cfg := js(map[string]string{"username": cr.u, "password": cr.p})
					for _, db := range dbs {
						if c.Mine() && !c.Over() {
							one(d, n, cfg, urls3[1], db, cr.u, cr.p, ok("7\n"), false)
						}
					}
				}
			}
			// no tool at all
			if c.Mine() {
				c.Do(n+": the tool is missing", func() []string {
					p := os.Getenv("PATH")
					os.Setenv("PATH", c.Dir)
					defer os.Setenv("PATH", p)
					wd, err := vcs.New(n, nil)
					if err != nil {
						return []string{err.Error()}
					}
					dir := filepath.Join(c.Dir, "db 2")
					os.RemoveAll(dir)
					if r, err := wd.PullOrClone(dir, "u"); err == nil {
						return []string{"a first update reports " + r}
					}
					bx.Must(os.MkdirAll(dir, 0755))
					if r, err := wd.PullOrClone(dir, "u"); err == nil {
						return []string{"an update reports " + r}
					}
					if r, err := wd.HeadRev(dir); err == nil {
						return []string{"the revision is " + r}
					}
					return nil
				})
			}
		}
	}
	c.Sample(fmt.Sprintf("%d outcomes of the tools of one update, sequences of %d", len(all), c.Bound))
}

// ---- tools that behave like the real ones ------------------------------------------

// The remote is a directory with the numbers of the revisions: main, the newest one of
// the branch that is followed, and tip, the newest one at all (hg has several heads).
// A working directory has the number of what is checked out (parent), of the newest one
// that was fetched (tip), that branch's (main), and a file with the content.
const simScript = `#!/bin/sh
n=${0##*/}
sub=
opts=' '
pos=
rev=
tpl=
up=
ign=
while [ $# -gt 0 ]; do
	case $1 in
	-r|--rev|--revision) rev=$2; shift;;
	--rev=*|--revision=*) rev=${1#*=};;
	-T|--template) tpl=$2; shift;;
	--template=*) tpl=${1#*=};;
	--username|--password|--config) shift;;
	-R|--repository|--cwd) cd "$2" || exit 9; shift;;
	-u|--update) up=1;;
	--ignore-externals) ign=1;;
	--) ;;
	-*) ;;
	*) if [ "$n" != svnversion ] && [ -z "$sub" ]; then sub=$1; else src=$dst; dst=$1; fi;;
	esac
	shift
done
get() { cat "$1"; }
fetch() { cp "$(cat .wc/from)/main" .wc/main; cp "$(cat .wc/from)/tip" .wc/tip; }
out() { cp .wc/main .wc/parent; echo "content of $(cat .wc/parent)" > content; [ -n "$ign" ] || [ $n != svn ] || echo other > external; }
show() { # the revision of which number
	case $n in
	hg) if [ "$tpl" = '{node}' ]; then printf 'node%s' "$1"; elif [ -n "$tpl" ]; then echo "$tpl" | sed "s/{node}/node$1/; s/{rev}/$1/"; else printf 'changeset:   %s:node%s
summary:     something

' "$1" "$1"; fi;;
	*) echo "$1";;
	esac
}
case "$n $sub" in
"svn checkout"|"svn co"|"hg clone"|"bzr branch"|"bzr checkout"|"bzr co")
	[ -n "$src" ] || { src=$dst; dst=${src##*/}; }
	[ -e "$dst" ] && exit 5
	mkdir "$dst" && cd "$dst" && mkdir .wc && echo "${src#file://}" > .wc/from && fetch && out; exit;;
esac
[ -d .wc ] || { echo "not a working directory: $PWD" >&2; exit 255; }
case "$n $sub" in
"svn update"|"svn up") fetch; out;;
"hg pull") fetch; [ -z "$up" ] || out;;
"hg update"|"hg up"|"hg checkout") out;;
"bzr pull"|"bzr update"|"bzr up") fetch; out;;
"svnversion "|"bzr revno") show $(cat .wc/parent);;
"hg id"|"hg identify") show $(cat .wc/parent);;
"hg parent"|"hg parents") show $(cat .wc/parent);;
"hg log") case $rev in .) show $(cat .wc/parent);; tip) show $(cat .wc/tip);; '') i=$(cat .wc/tip); while [ $i -gt 0 ]; do show $i; i=$((i-1)); done;; *) show $rev;; esac;;
*) echo "$n: unknown command $sub" >&2; exit 99;;
esac
`

func runSim(c *bx.Ctx) {
	defer os.Chdir("/")
	b := filepath.Join(c.Dir, "simbin")
	bx.Must(os.MkdirAll(b, 0755))
	for _, n := range []string{"svn", "svnversion", "hg", "bzr"} {
		bx.Must(os.WriteFile(filepath.Join(b, n), []byte(simScript), 0755))
	}
	bx.Must(os.Setenv("PATH", b+":"+os.Getenv("PATH")))
	remote := []struct {
		name      string
		main, tip int // added
	}{{"nothing new", 0, 0}, {"a commit", 1, 1}, {"a commit to another branch", 0, 2}, {"commits to both", 2, 3}}
	run := func(d tdriver, name string, steps []int, restart, rel bool) []string {
		base := filepath.Join(c.Dir, "sim")
		os.RemoveAll(base)
		r, db := filepath.Join(base, "remote dir"), filepath.Join(base, "db 1")
		bx.Must(os.MkdirAll(r, 0755))
		bx.Must(os.MkdirAll(db, 0755))
		bx.Must(os.Chdir(base))
		main, tip := 3, 4
		if d.special != ".hg" {
			tip = 3
		}
		vd := filepath.Join(db, "vcs-1")
		if rel {
			vd = "db 1/vcs-1"
		}
		var w *vcs.WorkDir
		for i := 0; i <= len(steps); i++ {
			at := fmt.Sprintf("update %d: ", i)
			if i > 0 {
				s := remote[steps[i-1]]
				if d.special == ".hg" {
					if s.tip > 0 {
						if s.main > 0 {
							main = tip + s.main
						}
						tip += s.tip
					}
				} else {
					main += s.main
					tip = main
				}
			}
			bx.Must(os.WriteFile(filepath.Join(r, "main"), []byte(fmt.Sprint(main, "\n")), 0644))
			bx.Must(os.WriteFile(filepath.Join(r, "tip"), []byte(fmt.Sprint(tip, "\n")), 0644))
			if w == nil || restart {
				var err error
				if w, err = vcs.New(name, nil); err != nil {
					return []string{at + err.Error()}
				}
			}
			c.Transitions++
			rev, err, ok := withTimeout(func() (string, error) { return w.PullOrClone(vd, "file://"+r) })
			if !ok || err != nil {
				return []string{at + fmt.Sprintf("it fails: %v", err)}
			}
			want := fmt.Sprint(main)
			if d.special == ".hg" {
				want = "node" + want
			}
			if rev != want {
				return []string{at + fmt.Sprintf("the revision is %q, and %q is checked out", rev, want)}
			}
			got, _ := os.ReadFile(filepath.Join(db, "vcs-1", "content"))
			if want := fmt.Sprintf("content of %d\n", main); string(got) != want {
				return []string{at + fmt.Sprintf("the working directory has the %q, the remote has the %q", got, want)}
			}
			if _, err := os.Stat(filepath.Join(db, "vcs-1", "external")); err == nil {
				return []string{at + "files of external definitions were fetched"}
			}
			c.Outcome("mirrors")
		}
		return nil
	}
	depth := c.Bound
	for _, d := range tdrivers {
		for _, n := range d.names {
			for _, restart := range []bool{false, true} {
				for _, rel := range []bool{false, true} {
					var rec func(seq []int)
					rec = func(seq []int) {
						if c.Over() {
							return
						}
						if len(seq) == depth {
							if !c.Mine() {
								return
							}
							var ns []string
							for _, s := range seq {
								ns = append(ns, remote[s].name)
							}
							c.States++
							c.Do(fmt.Sprintf("%s, restarted %v, relative path %v: %s", n, restart, rel, strings.Join(ns, "; ")), func() []string { return run(d, n, seq, restart, rel) })
							return
						}
						for i := range remote {
							rec(append(append([]int{}, seq...), i))
						}
					}
					rec(nil)
				}
			}
		}
	}
	c.Sample(fmt.Sprintf("%d things happen at the remote, sequences of %d", len(remote), depth))
}

// names, aliases, special files and configurations
func runVcsNames(c *bx.Ctx) {
	type want struct{ names, special []string }
	ws := []want{{[]string{"git"}, []string{".git"}}, {[]string{"svn", "subversion"}, []string{".svn"}}, {[]string{"hg", "mercurial"}, []string{".hg"}}, {[]string{"bzr"}, []string{".bzr"}}, {[]string{"local"}, nil}}
	cfgs := []string{"", "{}", "null", `{"other":1}`, `{"username":"u","password":"p","ref":"r","detect-ref":true,"watch-changes":true,"ignored-files":["x","y"]}`}
	for _, w := range ws {
		for _, n := range w.names {
			for _, cfg := range cfgs {
				c.States++
				c.Do(fmt.Sprintf("driver %s with %s", n, cfg), func() []string {
					var b []byte
					if cfg != "" {
						b = []byte(cfg)
					}
					d, err := vcs.New(n, b)
					if err != nil {
						return []string{err.Error()}
					}
					c.Transitions++
					got, want := append([]string{}, d.SpecialFiles()...), append([]string{}, w.special...)
					if n == "local" && strings.Contains(cfg, "ignored") {
						want = []string{"x", "y"}
					}
					sort.Strings(got)
					if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
						return []string{fmt.Sprintf("special files are %q, expected %q", got, want)}
					}
					c.Outcome("driver")
					return nil
				})
			}
		}
	}
	for _, n := range badName {
		for _, cfg := range cfgs {
			c.States++
			c.Do(fmt.Sprintf("driver %q with %s", n, cfg), func() []string {
				c.Transitions++
				if d, err := vcs.New(n, []byte(cfg)); err == nil || d != nil {
					return []string{fmt.Sprintf("it is made, error %v", err)}
				}
				c.Outcome("error")
				return nil
			})
		}
	}
	bad := map[string][]string{"git": {`{`, `[]`, `"x"`, `{"ref":1}`, `{"detect-ref":"yes"}`}, "svn": {`{`, `[]`, `3`, `{"username":1}`, `{"password":[]}`}, "local": {`{`, `[]`, `{"watch-changes":"x"}`, `{"ignored-files":"x"}`, `{"ignored-files":[1]}`}}
	for n, l := range bad {
		for _, cfg := range l {
			c.States++
			c.Do(fmt.Sprintf("driver %s with %s", n, cfg), func() []string {
				c.Transitions++
				if _, err := vcs.New(n, []byte(cfg)); err == nil {
					return []string{"the configuration is accepted"}
				}
				c.Outcome("error")
				return nil
			})
		}
	}
	c.Sample("5 drivers under 7 names")
}

func init() {
	bx.Register(&bx.Job{Name: "v03-tools", Desc: "every sequence of outcomes of the tools of svn, hg and bzr", Run: runTools})
	bx.Register(&bx.Job{Name: "v03-sim", Desc: "svn, hg and bzr played by simple programs that behave like them", Run: runSim})
	bx.Register(&bx.Job{Name: "v03-names", Desc: "drivers by name and configuration", Run: runVcsNames, Solo: true})
}

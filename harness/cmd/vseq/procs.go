package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/hound-search/hound/vcs"

	"hv/bx"
)

// R01: no process and no pipe is left of the tools that were run.

const procScript = `#!/bin/sh
V='@V@'
n=${0##*/}
k="$n"
case "$n" in svnversion) ;; *) k="$n-$1";; esac
m=ok
if [ -e "$V/$k" ]; then read m < "$V/$k"; fi
for a in "$@"; do last=$a; done
many() { i=0; while [ $i -lt 4000 ]; do printf 'a name that fills the pipe %s\0' $i; i=$((i+1)); done; }
case $m in
fail) echo "abort" >&2; exit 1;;
killed) kill -9 $$;;
manyfail) many; exit 1;;
esac
case "$k" in
git-clone|svn-checkout|hg-clone|bzr-branch) mkdir -p "$last";;
git-rev-parse|svnversion|hg-log|bzr-revno) echo 123;;
git-ls-files) if [ $m = many ]; then many; else printf 'a.txt\0b.txt\0'; fi;;
git-check-attr)
	if [ $m = unread ]; then exit 0; fi
	cat > /dev/null
	if [ $m = late ]; then exit 1; fi
	printf 'a.txt\0linguist-generated\0true\0';;
git-remote) echo "  HEAD branch: main";;
esac
if [ $m = noisy ]; then many; many >&2; fi
exit 0
`

// children lists the processes whose parent is this one, dead ones included.
func children() (o []string) {
	self := strconv.Itoa(os.Getpid())
	ds, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, d := range ds {
		b, err := os.ReadFile(d)
		if err != nil {
			continue
		}
		s := string(b)
		i := strings.LastIndexByte(s, ')')
		if i < 0 {
			continue
		}
		if f := strings.Fields(s[i+1:]); len(f) > 1 && f[1] == self {
			o = append(o, s[strings.IndexByte(s, '('):i+1]+" "+f[0])
		}
	}
	return
}

func pipes() (n int) {
	fs, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fs {
		if p, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && (strings.HasPrefix(p, "pipe:") || strings.Contains(p, "/vcs-0123")) {
			n++
		}
	}
	return
}

type procDriver struct {
	name, cfg string
	keys      []string
	modes     map[string][]string
}

func runProcs(c *bx.Ctx) {
	v, b := filepath.Join(c.Dir, "v"), filepath.Join(c.Dir, "procbin")
	bx.Must(os.MkdirAll(b, 0755))
	for _, n := range []string{"git", "svn", "svnversion", "hg", "bzr"} {
		bx.Must(os.WriteFile(filepath.Join(b, n), []byte(strings.ReplaceAll(procScript, "@V@", v)), 0755))
	}
	bx.Must(os.Setenv("PATH", b+":"+os.Getenv("PATH")))
	gm := map[string][]string{
		"git-ls-files":   {"many", "fail", "killed", "manyfail"},
		"git-check-attr": {"fail", "killed", "late", "unread"},
	}
	ds := []procDriver{
		{"git", "", []string{"git-clone", "git-fetch", "git-reset", "git-rev-parse", "git-ls-files", "git-check-attr"}, gm},
		{"git", `{"detect-ref":true}`, []string{"git-clone", "git-remote", "git-fetch", "git-reset", "git-rev-parse", "git-ls-files", "git-check-attr"}, gm},
		{"svn", "", []string{"svn-checkout", "svn-update", "svnversion"}, nil},
		{"hg", "", []string{"hg-clone", "hg-pull", "hg-log"}, nil},
		{"bzr", "", []string{"bzr-branch", "bzr-pull", "bzr-revno"}, nil},
	}
	most := 2
	if c.Bound >= 4 {
		most = 3
	}
	for _, d := range ds {
		d := d
		one := func(mode map[string]string) {
			c.States++
			c.Do(fmt.Sprint(d.name, " ", d.cfg, ", tools ", mode), func() []string {
				os.RemoveAll(v)
				bx.Must(os.MkdirAll(v, 0755))
				for k, m := range mode {
					bx.Must(os.WriteFile(filepath.Join(v, k), []byte(m+"\n"), 0644))
				}
				db := filepath.Join(c.Dir, "db 3")
				os.RemoveAll(db)
				bx.Must(os.MkdirAll(db, 0755))
				var cfg []byte
				if d.cfg != "" {
					cfg = []byte(d.cfg)
				}
				wd, err := vcs.New(d.name, cfg)
				if err != nil {
					return []string{err.Error()}
				}
				runtime.GC()
				before := pipes()
				dir := filepath.Join(db, "vcs-0123")
				for i := 0; i < 2; i++ {
					c.Transitions++
					_, err, ok := withTimeout(func() (string, error) {
						rev, err := wd.PullOrClone(dir, "https://h/r")
						if err == nil {
							wd.AutoGeneratedFiles(dir)
						}
						return rev, err
					})
					if !ok {
						return []string{"it does not return"}
					}
					c.Outcome(fmt.Sprint(d.name, " error ", err != nil))
					var left []string
					n := 0
					for try := 0; try < 40; try++ {
						left, n = children(), pipes()
						if len(left) == 0 && n <= before {
							break
						}
						runtime.GC()
						time.Sleep(time.Duration(try) * time.Millisecond)
					}
					if len(left) > 0 {
						return []string{fmt.Sprintf("update %d leaves the processes %v", i, left)}
					}
					if n > before {
						return []string{fmt.Sprintf("update %d leaves %d more pipes or files open", i, n-before)}
					}
				}
				return nil
			})
		}
		var rec func(i, n int, mode map[string]string)
		rec = func(i, n int, mode map[string]string) {
			if i == len(d.keys) {
				if c.Mine() && !c.Over() {
					one(mode)
				}
				return
			}
			rec(i+1, n, mode)
			if n == most {
				return
			}
			ms := d.modes[d.keys[i]]
			if ms == nil {
				ms = []string{"fail", "killed", "noisy"}
			}
			for _, m := range ms {
				x := map[string]string{d.keys[i]: m}
				for k, y := range mode {
					x[k] = y
				}
				rec(i+1, n+1, x)
			}
		}
		rec(0, 0, nil)
	}
}

func init() {
	bx.Register(&bx.Job{Name: "r01-procs", Desc: "processes and pipes left by the version control tools, for every way in which they fail", Run: runProcs})
}

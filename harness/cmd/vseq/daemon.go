package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"hv/bx"
)

// ---- the daemon as a process -------------------------------------------------------

// The scripted svn of these repositories: the URL names the repository; what it does is
// told by files of V: NAME.rev, NAME.fail.(sync|rev), NAME.block.(sync|rev).
const daemonScript = `#!/bin/sh
V='@V@'
n=${0##*/}
phase() { # name phase
	if [ -e "$V/$1.block.$2" ]; then
		: > "$V/$1.waiting.$2"
		while [ -e "$V/$1.block.$2" ]; do sleep 0.01; done
	fi
	if [ -e "$V/$1.fail.$2" ]; then echo "told to fail" >&2; exit 1; fi
}
fill() { # name dir
	read r < "$V/$1.rev"
	echo "needle $1 $r" > "$2/a.txt"
	echo "head
needle $1 other $r" > "$2/f-$r.txt"
	printf '\000' > "$2/bin-$r"
	echo "$r" > "$2/.svn/rev"
}
case "$n $1" in
"svn checkout")
	for a in "$@"; do u=$last; last=$a; done
	name=${u##*/}
	phase "$name" sync
	mkdir -p "$last/.svn"
	echo "$name" > "$last/.svn/name"
	fill "$name" "$last"
	;;
"svn update")
	read name < .svn/name
	phase "$name" sync
	rm -f f-* bin-*
	fill "$name" .
	;;
"svnversion ")
	read name < .svn/name
	phase "$name" rev
	cat .svn/rev
	;;
*) exit 99;;
esac
exit 0
`

type dkind struct {
	name       string
	vcs, conf  string
	fail       string // phase that fails at startup
	good       bool
	poll, push bool
}

var dkinds = []dkind{
	{"still", "svn", ``, "", true, false, false},
	{"polls", "svn", `{"username":"u","password":"p"}`, "", true, true, false},
	{"pushed", "subversion", `{}`, "", true, false, true},
	{"both", "svn", ``, "", true, true, true},
	{"nosync", "svn", ``, "sync", false, false, true},
	{"norev", "svn", ``, "rev", false, true, false},
	{"novcs", "none", ``, "", false, true, true},
	{"badconf", "svn", `{"username":1}`, "", false, false, true},
}

type drepo struct {
	dkind
	id  string
	rev int
}

type dworld struct {
	c     *bx.Ctx
	dir   string
	v     string
	path  string
	repos []*drepo
	lim   int
	db    string
	p     *dproc
}

type dproc struct {
	cmd  *exec.Cmd
	addr string
	log  string
	done chan error
}

// Steps of these take milliseconds; what takes this long does not happen.
const dWait = 90 * time.Second

func (w *dworld) file(name string) string { return filepath.Join(w.v, name) }

func (w *dworld) touch(name string) { bx.Must(os.WriteFile(w.file(name), nil, 0644)) }

func (w *dworld) setRev(r *drepo, n int) {
	r.rev = n
	bx.Must(os.WriteFile(w.file(r.id+".rev.new"), []byte(fmt.Sprintf("r%d\n", n)), 0644))
	bx.Must(os.Rename(w.file(r.id+".rev.new"), w.file(r.id+".rev")))
}

func newDworld(c *bx.Ctx, kinds []int, lim int) *dworld {
	w := &dworld{c: c, dir: fresh(c), lim: lim, db: "db"}
	if lim == 2 && len(kinds) != 1 {
		w.db = "var/lib/db"
	}
	w.v = filepath.Join(w.dir, "v")
	bx.Must(os.MkdirAll(w.v, 0755))
	b := filepath.Join(w.dir, "bin")
	bx.Must(os.MkdirAll(b, 0755))
	for _, n := range []string{"svn", "svnversion"} {
		bx.Must(os.WriteFile(filepath.Join(b, n), []byte(strings.ReplaceAll(daemonScript, "@V@", w.v)), 0755))
	}
	w.path = b + ":" + os.Getenv("PATH")
	repos := map[string]interface{}{}
	for i, k := range kinds {
		r := &drepo{dkind: dkinds[k], id: fmt.Sprintf("repo%d", i)}
		w.repos = append(w.repos, r)
		w.setRev(r, 1)
		if r.fail != "" {
			w.touch(r.id + ".fail." + r.fail)
		}
		m := map[string]interface{}{"url": "svn://host/" + r.id, "vcs": r.vcs, "ms-between-poll": 25, "enable-poll-updates": r.poll, "enable-push-updates": r.push}
		if r.conf != "" {
			m["vcs-config"] = json.RawMessage(r.conf)
		}
		repos[r.id] = m
	}
	cfg := map[string]interface{}{"dbpath": w.db, "repos": repos, "max-concurrent-indexers": lim, "health-check-uri": "/health"}
	bx.Must(os.WriteFile(filepath.Join(w.dir, "conf.json"), []byte(js(cfg)), 0644))
	return w
}

// start starts the daemon; it answers its health check when this returns.
func (w *dworld) start() string {
	for try := 0; ; try++ {
		// an address of this process's own, and a port that no connection gets
		pid := os.Getpid()
		dport++
		addr := fmt.Sprintf("127.%d.%d.%d:%d", 1+pid>>16&0x7f, pid>>8&0xff, 1+pid&0xff%254, 10000+dport%20000)
		l, err := net.Listen("tcp", addr)
		if err != nil && try < 50 {
			continue
		}
		bx.Must(err)
		l.Close()
		p := &dproc{addr: addr, log: filepath.Join(w.dir, "log"), done: make(chan error, 1)}
		lf, err := os.Create(p.log)
		bx.Must(err)
		p.cmd = exec.Command(filepath.Join(os.Getenv("HV_BIN"), "houndd"), "-conf", filepath.Join(w.dir, "conf.json"), "-addr", addr)
		p.cmd.Dir = w.dir
		p.cmd.Stdout, p.cmd.Stderr = lf, lf
		p.cmd.Env = append(os.Environ(), "PATH="+w.path, "GODEBUG=")
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		bx.Must(p.cmd.Start())
		lf.Close()
		go func() { p.done <- p.cmd.Wait() }()
		w.p = p
		end := time.Now().Add(dWait)
		for {
			code, _, err := w.get("/health")
			if err == nil && code == 200 {
				return ""
			}
			if err == nil {
				return fmt.Sprintf("the health check is answered with %d", code)
			}
			if rc, gone := w.exited(0); gone {
				b, _ := os.ReadFile(p.log)
				w.p = nil
				if strings.Contains(string(b), "address already in use") && try < 5 {
					break
				}
				return fmt.Sprintf("it ends with %s: %s", rc, clip(string(b)))
			}
			if time.Now().After(end) {
				return "the health check is not answered: " + err.Error()
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// exited says how the process ended, waiting that long for it.
func (w *dworld) exited(d time.Duration) (string, bool) {
	t := time.NewTimer(d)
	defer t.Stop()
	var err error
	select {
	case err = <-w.p.done:
	default:
		select {
		case err = <-w.p.done:
		case <-t.C:
			return "", false
		}
	}
	w.p.done <- err
	if err == nil {
		return "status 0", true
	}
	return err.Error(), true
}

func (w *dworld) kill() {
	if w.p != nil {
		syscall.Kill(-w.p.cmd.Process.Pid, syscall.SIGKILL)
		w.exited(dWait)
		w.p = nil
	}
}

var dport int

var dclient = &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: dWait}

func (w *dworld) get(path string) (int, string, error) {
	r, err := dclient.Get("http://" + w.p.addr + path)
	if err != nil {
		return 0, "", err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, string(b), err
}

func (w *dworld) update(r *drepo) string {
	res, err := dclient.Post("http://"+w.p.addr+"/api/v1/update?repos="+r.id, "", nil)
	if err != nil {
		return err.Error()
	}
	defer res.Body.Close()
	b, _ := io.ReadAll(res.Body)
	if res.StatusCode != 200 || strings.TrimSpace(string(b)) != `"ok"` {
		return fmt.Sprintf("an update of %s is answered with %d %s", r.id, res.StatusCode, b)
	}
	return ""
}

// until polls for a condition.
func (w *dworld) until(f func() bool) bool {
	end := time.Now().Add(dWait)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		if _, gone := w.exited(0); gone {
			return f()
		}
		time.Sleep(3 * time.Millisecond)
	}
	return true
}

func (w *dworld) ready() string {
	code := 0
	if !w.until(func() bool {
		c, _, err := w.get("/api/v1/repos")
		code = c
		return err == nil && c != 503
	}) {
		b, _ := os.ReadFile(w.p.log)
		return "it does not become ready: " + clip(string(b))
	}
	if code != 200 {
		return fmt.Sprintf("the list of repositories is answered with %d", code)
	}
	return ""
}

// served is what a search over everything shows.
func (w *dworld) served() (string, error) {
	code, body, err := w.get("/api/v1/search?" + url.Values{"q": {"needle"}, "repos": {"*"}}.Encode())
	if err != nil || code != 200 {
		return "", fmt.Errorf("status %d, %v: %s", code, err, clip(body))
	}
	var res struct {
		Error   string
		Results map[string]struct {
			Revision string
			Matches  []struct {
				Filename string
				Matches  []struct{ Line string }
			}
		}
	}
	if err := json.Unmarshal([]byte(body), &res); err != nil || res.Error != "" {
		return "", fmt.Errorf("%v %s", err, clip(body))
	}
	var l []string
	for n, r := range res.Results {
		for _, f := range r.Matches {
			for _, m := range f.Matches {
				l = append(l, fmt.Sprintf("%s@%s %s: %s", n, r.Revision, f.Filename, m.Line))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), nil
}

func (w *dworld) want() string {
	var l []string
	for _, r := range w.repos {
		if r.good {
			l = append(l, fmt.Sprintf("%s@r%d a.txt: needle %s r%d", r.id, r.rev, r.id, r.rev), fmt.Sprintf("%s@r%d f-r%d.txt: needle %s other r%d", r.id, r.rev, r.rev, r.id, r.rev))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// judgeServing: every repository that could be indexed is there, the others are not.
func (w *dworld) judgeServing(want string) string {
	got, err := w.served()
	if err != nil {
		return "search: " + err.Error()
	}
	if got != want {
		return fmt.Sprintf("a search shows\n%s\nexpected\n%s", got, want)
	}
	code, body, err := w.get("/api/v1/repos")
	var rs map[string]interface{}
	if err != nil || code != 200 || json.Unmarshal([]byte(body), &rs) != nil {
		return fmt.Sprintf("list of repositories: %d %v %s", code, err, clip(body))
	}
	for _, r := range w.repos {
		if _, ok := rs[r.id]; ok != r.good {
			return fmt.Sprintf("repository %s (%s) listed: %v", r.id, r.name, ok)
		}
	}
	code, body, err = w.get("/")
	if err != nil || code != 200 || !strings.Contains(body, "<html") {
		return fmt.Sprintf("the page: %d %v", code, err)
	}
	for _, r := range w.repos {
		if strings.Contains(body, "host/"+r.id) != r.good {
			return fmt.Sprintf("repository %s (%s) offered on the page: %v", r.id, r.name, !r.good)
		}
	}
	return ""
}

func (w *dworld) dirs() string {
	ds, _ := filepath.Glob(filepath.Join(w.dir, w.db, "idx-*"))
	sort.Strings(ds)
	for i := range ds {
		ds[i] = filepath.Base(ds[i])
	}
	return strings.Join(ds, " ")
}

func (w *dworld) goods() (l []*drepo) {
	for _, r := range w.repos {
		if r.good {
			l = append(l, r)
		}
	}
	return
}

// stop sends the signals and judges the end.  unblock, if any, ends what it is to
// wait for.
func (w *dworld) stop(signals int, unblock func()) string {
	for i := 0; i < signals; i++ {
		if err := syscall.Kill(w.p.cmd.Process.Pid, syscall.SIGTERM); err != syscall.ESRCH {
			bx.Must(err)
		}
		if unblock != nil {
			// work is in progress: it cannot end now
			if rc, gone := w.exited(40 * time.Millisecond); gone {
				return "it ended with " + rc + " while the indexing was in progress"
			}
		}
	}
	if unblock != nil {
		unblock()
	}
	rc, gone := w.exited(dWait)
	b, _ := os.ReadFile(w.p.log)
	if !gone {
		return "it does not end after the signal: " + clip(string(b))
	}
	if rc != "status 0" {
		return "it ends with " + rc + ": " + clip(string(b))
	}
	w.kill() // scripts
	return ""
}

const (
	dIdle = iota
	dIdleSearch
	dStart
	dUpdate
	dRestart
)

type dcase struct {
	kinds   []int
	lim     int
	when    int
	phase   string // sync or rev
	which   int    // which of the good ones is blocked
	signals int
}

func (k dcase) String() string {
	var ns []string
	for _, i := range k.kinds {
		ns = append(ns, dkinds[i].name)
	}
	return fmt.Sprintf("repositories %v, %d indexers, %d signals %s (%s of good repository %d)", ns, k.lim, k.signals,
		[]string{"at once when ready", "when idle", "during startup", "during an update", "during startup with indexes"}[k.when], k.phase, k.which)
}

func (k dcase) run(c *bx.Ctx) []string {
	w := newDworld(c, k.kinds, k.lim)
	defer os.RemoveAll(w.dir)
	defer w.kill()
	gs := w.goods()
	fail := func(at, s string) []string { return []string{at + ": " + s} }
	block := ""
	if k.when == dStart {
		block = gs[k.which].id
		w.touch(block + ".block." + k.phase)
	}
	waiting := func() bool {
		_, err := os.Stat(w.file(block + ".waiting." + k.phase))
		return err == nil
	}
	unblock := func() { os.Remove(w.file(block + ".block." + k.phase)) }
	during := func(at string) []string {
		if !w.until(waiting) {
			b, _ := os.ReadFile(w.p.log)
			return fail(at, "the "+k.phase+" never came: "+clip(string(b)))
		}
		return nil
	}
	notReady := func(at string) []string {
		if c, _, err := w.get("/health"); err != nil || c != 200 {
			return fail(at, fmt.Sprintf("health check: %d %v", c, err))
		}
		for _, p := range []string{"/", "/api/v1/repos", "/api/v1/search?q=needle&repos=*"} {
			if c, b, err := w.get(p); err != nil || c != 503 {
				return fail(at, fmt.Sprintf("%s is answered with %d %v: %s", p, c, err, clip(b)))
			}
		}
		return nil
	}
	if s := w.start(); s != "" {
		return fail("start", s)
	}
	c.Transitions++
	switch k.when {
	case dStart:
		if b := during("startup"); b != nil {
			return b
		}
		if b := notReady("startup"); b != nil {
			return b
		}
		if s := w.stop(k.signals, unblock); s != "" {
			return fail("stop during startup", s)
		}
	default:
		if s := w.ready(); s != "" {
			return fail("startup", s)
		}
		if s := w.judgeServing(w.want()); s != "" {
			return fail("ready", s)
		}
		switch k.when {
		case dUpdate:
			r := gs[k.which]
			block = r.id
			old := w.want()
			// the update is first held before it takes the new revision
			phase := k.phase
			k.phase = "sync"
			w.touch(block + ".block.sync")
			if !r.poll {
				if e := w.update(r); e != "" {
					return fail("update", e)
				}
			}
			if b := during("update"); b != nil {
				return b
			}
			w.setRev(r, 2)
			if k.phase = phase; phase == "rev" {
				w.touch(block + ".block.rev")
				os.Remove(w.file(block + ".block.sync"))
				if b := during("update"); b != nil {
					return b
				}
			}
			if s := w.judgeServing(old); s != "" {
				return fail("during the update", s)
			}
			if s := w.stop(k.signals, unblock); s != "" {
				return fail("stop during the update", s)
			}
		case dIdle:
			if s := w.stop(k.signals, nil); s != "" {
				return fail("stop", s)
			}
		case dIdleSearch, dRestart:
			for _, r := range gs {
				if r.push {
					w.setRev(r, 2)
					if e := w.update(r); e != "" {
						return fail("update", e)
					}
				} else if r.poll {
					w.setRev(r, 2)
				}
			}
			var got string
			if !w.until(func() bool { got, _ = w.served(); return got == w.want() }) {
				return fail("after updates", fmt.Sprintf("a search shows\n%s\nexpected\n%s", got, w.want()))
			}
			if s := w.stop(k.signals, nil); s != "" {
				return fail("stop", s)
			}
		}
	}
	// what is left
	before := w.dirs()
	if n := len(strings.Fields(before)); n != len(gs) {
		return fail("after the stop", fmt.Sprintf("index directories %q, good repositories %d", before, len(gs)))
	}
	if k.when == dRestart {
		block = gs[k.which].id
		os.Remove(w.file(block + ".waiting." + k.phase))
		w.touch(block + ".block." + k.phase)
		if s := w.start(); s != "" {
			return fail("second start", s)
		}
		if b := during("second startup"); b != nil {
			return b
		}
		if b := notReady("second startup"); b != nil {
			return b
		}
		if s := w.stop(k.signals, unblock); s != "" {
			return fail("stop during the second startup", s)
		}
		if d := w.dirs(); d != before {
			return fail("after the second stop", fmt.Sprintf("index directories are %q, were %q", d, before))
		}
	}
	if s := w.start(); s != "" {
		return fail("last start", s)
	}
	c.Transitions++
	if s := w.ready(); s != "" {
		return fail("last startup", s)
	}
	if s := w.judgeServing(w.want()); s != "" {
		return fail("after the last start", s)
	}
	if d := w.dirs(); d != before {
		return fail("after the last start", fmt.Sprintf("index directories are %q, were %q: not all were used again", d, before))
	}
	if s := w.stop(1, nil); s != "" {
		return fail("last stop", s)
	}
	return nil
}

func runDaemon(c *bx.Ctx) {
	var combos [][]int
	for i := range dkinds {
		combos = append(combos, []int{i})
		for j := i; j < len(dkinds); j++ {
			combos = append(combos, []int{i, j})
			if c.Bound > 2 {
				for k := j; k < len(dkinds); k++ {
					combos = append(combos, []int{i, j, k})
				}
			}
		}
	}
	if c.Bound <= 2 {
		combos = append(combos, []int{1, 2, 3}) // more repositories than indexers in any case
	}
	for _, lim := range []int{1, 2} {
		for _, ks := range combos {
			var cs []dcase
			ng := 0
			for _, k := range ks {
				if dkinds[k].good {
					ng++
				}
			}
			for sig := 1; sig <= 2; sig++ {
				cs = append(cs, dcase{ks, lim, dIdle, "", 0, sig}, dcase{ks, lim, dIdleSearch, "", 0, sig})
				g := 0
				for _, k := range ks {
					if !dkinds[k].good {
						continue
					}
					for _, ph := range []string{"sync", "rev"} {
						cs = append(cs, dcase{ks, lim, dStart, ph, g, sig}, dcase{ks, lim, dRestart, ph, g, sig})
						if dkinds[k].poll || dkinds[k].push {
							cs = append(cs, dcase{ks, lim, dUpdate, ph, g, sig})
						}
					}
					g++
				}
			}
			for _, k := range cs {
				if c.Over() {
					return
				}
				if c.Bound < 2 && (k.signals+k.lim+len(ks))%2 == 0 {
					continue
				}
				if !c.Mine() {
					continue
				}
				c.States++
				k := k
				c.Do(k.String(), func() []string { return k.run(c) })
				c.Outcome([]string{"stopped when ready", "stopped when idle", "stopped during startup", "stopped during an update", "stopped during a second startup"}[k.when])
			}
		}
	}
	c.Sample(fmt.Sprintf("%d sets of repositories", len(combos)))
}

func init() {
	bx.Register(&bx.Job{Name: "h01-daemon", Desc: "the daemon as a process", Run: runDaemon, GC: true})
}

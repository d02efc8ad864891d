//go:build vsched

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"hv/bx"
)

// worker holds what the cases of one job share.
type worker struct {
	c     *bx.Ctx
	trees string
	n     int
}

func newWorker(c *bx.Ctx) *worker {
	w := &worker{c: c, trees: filepath.Join(c.Dir, "trees")}
	bx.Must(os.MkdirAll(w.trees, 0755))
	return w
}

func (w *worker) fresh() string {
	w.n++
	return filepath.Join(w.c.Dir, fmt.Sprintf("t%d", w.n))
}

// call runs a child.  code is its exit status (97: killed at the chosen operation),
// -1 when it had to be stopped.
func (w *worker) call(s spec) (r *result, code int, msg string) {
	d := w.fresh()
	bx.Must(os.MkdirAll(filepath.Join(d, "tmp"), 0755))
	defer os.RemoveAll(d)
	s.Out = filepath.Join(d, "out")
	s.Tmp = filepath.Join(d, "tmp")
	s.Trees = w.trees
	if s.Max == 0 {
		s.Max = 2
	}
	b, err := json.Marshal(s)
	bx.Must(err)
	bx.Must(os.WriteFile(filepath.Join(d, "spec"), b, 0644))
	cmd := exec.Command(os.Args[0], "child", filepath.Join(d, "spec"))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single")
	var e bytes.Buffer
	cmd.Stderr = &e
	bx.Must(cmd.Start())
	t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	w.c.Transitions++
	if !t.Stop() {
		return nil, -1, "did not finish"
	}
	code = cmd.ProcessState.ExitCode()
	if code == 70 {
		bx.Must(fmt.Errorf("child: %s", e.String()))
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		code = 200 + int(ws.Signal())
	}
	msg = tail(e.String())
	if code != 0 {
		return nil, code, msg
	}
	b, err = os.ReadFile(s.Out)
	bx.Must(err)
	r = &result{}
	bx.Must(json.Unmarshal(b, r))
	return r, 0, msg
}

func tail(s string) string {
	if i := strings.Index(s, "panic:"); i > 0 {
		s = s[i:]
	}
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

func diffText(got, want string) string {
	g, x := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := 0; i < len(g) || i < len(x); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(g) {
			a = g[i]
		}
		if i < len(x) {
			b = x[i]
		}
		if a != b {
			if len(a) > 200 {
				a = a[:200]
			}
			if len(b) > 200 {
				b = b[:200]
			}
			return fmt.Sprintf("line %d: %s; expected: %s", i, a, b)
		}
	}
	return ""
}

func (f fault) String() string {
	s := ""
	switch f.Mode {
	case fCrash:
		s = fmt.Sprintf("kill at operation %d", f.K)
		if f.Torn != 0 {
			s += " after writing " + map[int]string{1: "half of it", 2: "all of it", 3: "one byte", 4: "all but one byte"}[f.Torn]
		}
	case fFail:
		s = fmt.Sprintf("operation %d", f.K)
		switch {
		case f.Errno == 0:
			s += " is short"
		default:
			s += " fails with " + syscall.Errno(f.Errno).Error()
			if f.Torn != 0 {
				s += " half done"
			}
		}
		if f.Sticky {
			s += ", and all after it"
		}
	}
	return s
}

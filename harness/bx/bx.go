// Package bx runs bounded-exhaustive enumerations in worker processes and merges
// what they covered and found.
package bx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Out is what a job covered.  States: distinct cases of the enumerated space;
// Transitions: operations executed on the implementation and compared; Traces:
// complete cases judged.
type Out struct {
	States      int64
	Transitions int64
	Traces      int64
	Bound       int
	Capped      bool
	Outcomes    map[string]int
	Samples     []string
	Violations  []Violation
	Notes       []string
	WallS       float64
	Once        []Violation // failed when first tried, and not again in the same process
}

type Violation struct {
	Key      string
	What     []string
	Schedule []string
}

type Ctx struct {
	Out
	Bound    int
	Dir      string // scratch of this worker
	Shard, N int
	deadline time.Time
	idx      int
	mark     []byte
	stop     bool
	seen     map[string]bool
}

// Mine says whether the next case belongs to this worker.
func (c *Ctx) Mine() bool {
	if c.N == 0 {
		return false
	}
	c.idx++
	return (c.idx-1)%c.N == c.Shard
}

// Over says whether the worker should stop: time is up or enough was found.
func (c *Ctx) Over() bool {
	if !c.stop && time.Now().After(c.deadline) {
		c.stop = true
		c.Capped = true
	}
	return c.stop
}

// At records the case being executed, for the case that the process dies.
func (c *Ctx) At(desc string) {
	n := copy(c.mark[8:], desc)
	for i := 0; i < 8; i++ {
		c.mark[i] = byte(n >> (8 * i))
	}
}

func (c *Ctx) Outcome(s string) { c.Outcomes[s]++ }

func (c *Ctx) Sample(s string) {
	if len(c.Samples) < 3 {
		c.Samples = append(c.Samples, s)
	}
}

// Fail records a violation of one case; at most one per key.
func (c *Ctx) Fail(key, desc string, what ...string) {
	k := key
	if k == "" {
		k = "#" + strconv.Itoa(len(c.Violations))
	}
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.Violations = append(c.Violations, Violation{key, what, []string{desc}})
	n := 0
	for _, v := range c.Violations {
		if v.Key == "" {
			n++
		}
	}
	if n >= 3 {
		c.stop = true
	}
}

// Do executes one case.  f returns what is wrong; a case with something wrong is
// executed twice more and counts only if it is wrong again.
func (c *Ctx) Do(desc string, f func() []string) {
	c.DoKey(func() string { return desc }, func() (string, []string) { return "", f() })
}

func (c *Ctx) DoKey(desc func() string, f func() (string, []string)) {
	d := ""
	if desc != nil {
		d = desc()
	}
	c.At(d)
	c.Traces++
	key, bad := guard(f)
	if len(bad) == 0 {
		return
	}
	for i := 0; i < 2; i++ {
		k, b := guard(f)
		if len(b) == 0 || k != key {
			c.Notes = append(c.Notes, "not reproduced: "+d+": "+strings.Join(bad, "; "))
			if len(c.Once) < 1000 {
				c.Once = append(c.Once, Violation{key, bad, []string{d}})
			}
			return
		}
	}
	c.Fail(key, d, bad...)
}

func guard(f func() (string, []string)) (key string, bad []string) {
	debug.SetPanicOnFault(true)
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			bad = append(bad, fmt.Sprint("panic: ", r), st)
		}
	}()
	return f()
}

type Job struct {
	Name string
	Desc string
	Run  func(c *Ctx)
	Solo bool // one worker only
	GC   bool // leave the collector on
}

var jobs []*Job

func Register(j *Job) { jobs = append(jobs, j) }

func find(n string) *Job {
	for _, j := range jobs {
		if j.Name == n {
			return j
		}
	}
	return nil
}

// Main: list | run JOB BOUND NPROC SECS DIR | worker ...
func Main() {
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		for _, j := range jobs {
			fmt.Printf("%s\t%s\n", j.Name, j.Desc)
		}
	case "run":
		run()
	case "worker":
		worker()
	}
}

func scratch(dir string) string {
	if d := os.Getenv("HV_SCRATCH"); d != "" {
		dir = d
	}
	return dir
}

func worker() {
	j := find(os.Args[2])
	bound, _ := strconv.Atoi(os.Args[3])
	shard, _ := strconv.Atoi(os.Args[4])
	n, _ := strconv.Atoi(os.Args[5])
	dl, _ := strconv.ParseInt(os.Args[6], 10, 64)
	dir := os.Args[7]
	f, err := os.OpenFile(filepath.Join(dir, "mark."+os.Args[4]), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	check(err)
	check(f.Truncate(1 << 16))
	mark, err := syscall.Mmap(int(f.Fd()), 0, 1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	check(err)
	wd := filepath.Join(scratch(dir), "w"+os.Args[4])
	os.RemoveAll(wd)
	check(os.MkdirAll(wd, 0755))
	os.Setenv("TMPDIR", wd)
	c := &Ctx{Bound: bound, Dir: wd, Shard: shard, N: n, deadline: time.Unix(0, dl), mark: mark, seen: map[string]bool{}}
	c.Out.Bound = bound
	c.Outcomes = map[string]int{}
	if os.Getenv("HV_VERBOSE") == "" {
		quiet()
	}
	if j.GC {
		runtime.GOMAXPROCS(2)
	}
	t0 := time.Now()
	j.Run(c)
	c.WallS = time.Since(t0).Seconds()
	os.RemoveAll(wd)
	b, err := json.Marshal(c.Out)
	check(err)
	check(os.WriteFile(filepath.Join(dir, "out."+os.Args[4]), b, 0644))
	os.Exit(0)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(70)
	}
}

// Must is for the harness's own operations: their failure is no verdict.
func Must(err error) { check(err) }

func run() {
	j := find(os.Args[2])
	if j == nil {
		fmt.Fprintln(os.Stderr, "no job", os.Args[2])
		os.Exit(2)
	}
	n, _ := strconv.Atoi(os.Args[4])
	secs, _ := strconv.ParseFloat(os.Args[5], 64)
	dir := os.Args[6]
	if j.Solo {
		n = 1
	}
	dl := time.Now().Add(time.Duration(secs * float64(time.Second)))
	outs := make([]Out, n)
	errs := make([]string, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			outs[i], errs[i] = runOne(j, i, n, dl, dir)
		}(i)
	}
	wg.Wait()
	m := Out{Outcomes: map[string]int{}}
	fail := false
	for i, o := range outs {
		if errs[i] != "" {
			fmt.Fprintln(os.Stderr, errs[i])
			fail = true
			continue
		}
		m.States += o.States
		m.Transitions += o.Transitions
		m.Traces += o.Traces
		m.Bound = o.Bound
		m.Capped = m.Capped || o.Capped
		for k, v := range o.Outcomes {
			m.Outcomes[k] += v
		}
		if len(m.Samples) < 4 {
			m.Samples = append(m.Samples, o.Samples...)
		}
		m.Violations = append(m.Violations, o.Violations...)
		if len(m.Notes) < 10 {
			m.Notes = append(m.Notes, o.Notes...)
		}
		if o.WallS > m.WallS {
			m.WallS = o.WallS
		}
	}
	if fail && len(m.Violations) == 0 {
		os.Exit(2)
	}
	sort.SliceStable(m.Violations, func(a, b int) bool { return len(m.Violations[a].Schedule[0]) < len(m.Violations[b].Schedule[0]) })
	b, _ := json.MarshalIndent(m, "", " ")
	os.Stdout.Write(append(b, '\n'))
}

const hangSecs = 60

// pure tells whether the cases of a job depend on nothing but what ran before them in
// their process: no other processes, no time.
func pure(j *Job) bool {
	switch j.Name[:3] {
	case "h01", "r01", "k02", "c08", "d01", "d02":
		return false
	}
	return j.Name[0] != 'v'
}

// runOne runs a worker. What fails there when it is first tried but not again depends on
// what the process did before; if it does the same in another process it is no accident.
func runOne(j *Job, i, n int, dl time.Time, dir string) (Out, string) {
	t0 := time.Now()
	o, err := runWorker(j, i, n, dl, dir)
	if err != "" || len(o.Once) == 0 || len(o.Violations) > 0 || !pure(j) {
		return o, err
	}
	if d := time.Now().Add(time.Since(t0) + 5*time.Second); d.After(dl) {
		dl = d
	}
	p, err := runWorker(j, i, n, dl, dir)
	if err != "" {
		return p, err
	}
	again := map[string]bool{}
	for _, v := range p.Once {
		again[v.Key+"\x00"+v.Schedule[0]] = true
	}
	for _, v := range o.Once {
		if again[v.Key+"\x00"+v.Schedule[0]] && len(o.Violations) < 20 {
			v.What = append(v.What, "(when it is first tried in a process that ran the cases before it, each time; not when tried again)")
			o.Violations = append(o.Violations, v)
		}
	}
	return o, ""
}

func runWorker(j *Job, i, n int, dl time.Time, dir string) (Out, string) {
	sh := strconv.Itoa(i)
	var died []string
	for try := 0; try < 2; try++ {
		of := filepath.Join(dir, "out."+sh)
		os.Remove(of)
		mf := filepath.Join(dir, "mark."+sh)
		os.Remove(mf)
		cmd := exec.Command(os.Args[0], "worker", j.Name, os.Args[3], sh, strconv.Itoa(n), strconv.FormatInt(dl.UnixNano(), 10), dir)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOGC=400")
		if !j.Solo && !j.GC {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
		}
		var buf bytes.Buffer
		cmd.Stderr = &buf
		if err := cmd.Start(); err != nil {
			return Out{}, err.Error()
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		last, lastAt := "", time.Now()
		hung := false
	loop:
		for {
			select {
			case err = <-done:
				break loop
			case <-time.After(time.Second):
			}
			b, _ := os.ReadFile(mf)
			if s := string(b); s != last {
				last, lastAt = s, time.Now()
			}
			if time.Since(lastAt) > hangSecs*time.Second && time.Now().After(dl) || time.Since(lastAt) > 3*hangSecs*time.Second {
				hung = true
				cmd.Process.Kill()
			}
		}
		if b, e := os.ReadFile(of); e == nil {
			var o Out
			if json.Unmarshal(b, &o) == nil {
				return o, ""
			}
		}
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 70 {
			return Out{}, buf.String()
		}
		desc := ""
		if b, e := os.ReadFile(mf); e == nil && len(b) > 8 {
			k := 0
			for x := 0; x < 8; x++ {
				k |= int(b[x]) << (8 * x)
			}
			if k <= len(b)-8 {
				desc = string(b[8 : 8+k])
			}
		}
		what := "the process died"
		if hung {
			what = "the process hung"
		}
		died = append(died, what, desc, firstLine(buf.String()))
		if hung || try == 1 {
			break
		}
	}
	if len(died) == 3 || died[1] == died[4] {
		return Out{Violations: []Violation{{"", []string{died[0] + ": " + died[2]}, []string{died[1]}}}, Outcomes: map[string]int{}, Traces: 1}, ""
	}
	return Out{}, "worker died at different cases: " + strings.Join(died, " | ")
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return strings.TrimSpace(s)
}

//go:build vsched

// Package vs explores the schedules of a scenario: a depth-first search over choice
// prefixes, bounded by the number of deviations from the default schedule.
package vs

import (
	"bufio"
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Exec is one prepared execution of a scenario.
type Exec struct {
	Body  func()                 // root of the controlled execution
	Check func(r Result) Verdict // runs after quiescence, uncontrolled
	Done  func()                 // releases scratch resources
}

type Result struct {
	runtime.VResult
	Races int // data races reported during this execution
}

// Verdict of one execution: an outcome label for the coverage statistics and the
// violations found (empty: none).
type Verdict struct {
	Outcome string
	Bad     []string
}

type Scenario struct {
	Name   string
	Desc   string
	Timers int // how often timers may fire in one execution
	Clock  bool // timers fire in the order they are due, when nothing else can run
	Limit  int // scheduling points per execution
	Mask   int // classes of scheduling points; 0 = all but unlock
	New    func() *Exec
	// FreeBlock makes the choice among ready threads at a blocking point free
	// (as in CHESS); otherwise every non-first choice is one deviation.
	FreeBlock bool
	// IgnoreRaces: races are not violations in this scenario.
	IgnoreRaces bool
	Recycle     int // executions per worker process
}

const (
	PLock   = runtime.VPLock
	PChan   = runtime.VPChan
	PFS     = runtime.VPFS
	PAtomic = runtime.VPAtomic
	PUser   = runtime.VPUser
	PUnlock = runtime.VPUnlock
	PAll    = PLock | PChan | PFS | PAtomic | PUser
)

func Point()           { runtime.VPoint() }
func Choose(n int) int { return runtime.VChoose(n) }
func Controlled() bool { return runtime.VControlled() }
func Tid() int         { return runtime.VVid() }

// Quiet runs f without scheduling points.
func Quiet(f func()) {
	old := runtime.VFreeze(true)
	defer runtime.VFreeze(old)
	f()
}

// Drain lets every other ready goroutine run until it blocks, without scheduling points.
func Drain() {
	Quiet(func() {
		for i := 0; i < 4; i++ {
			runtime.Gosched()
		}
	})
}

func Freeze(on bool) { runtime.VFreeze(on) }

// item is a prefix of choices still to be executed; only the non-zero choices are kept.
type item struct {
	Len  int
	At   []uint16
	C    []uint16
	Hash uint64 // of the shape of the parent's trace up to the last choice
	Dev  int
}

func (it *item) prefix() []uint16 {
	p := make([]uint16, it.Len)
	for i, a := range it.At {
		p[a] = it.C[i]
	}
	return p
}

// search is the whole state of one worker's depth-first search; it survives the
// recycling of the worker process.
type search struct {
	Dev   int
	Stack []item
	Next  []item
	Alt   int
	St    *Stats
}

type Stats struct {
	Scenario    string
	Executions  int
	Points      int64 // scheduling points executed
	Transitions int64 // choices executed beyond the replayed prefixes
	Overflows   int
	MaxTrace    int
	Bound       int   // deviations completely explored
	Frontier    int   // prefixes left when a cap was hit
	PerLevel    []int // executions per number of deviations
	Outcomes    map[string]int
	Limits      int // executions cut at the step limit
	Diverged    int // replays whose choice structure differed from their parent's
	Capped      bool
	Unconfirmed int
	Violations  []Violation
	WallS       float64
	Sample      []string // readable form of a few schedules
}

type Violation struct {
	Scenario string
	Prefix   []uint16
	What     []string
	Schedule []string
	Dev      int
}

var traceBuf = make([]runtime.VStep, 1<<15)

type runner struct {
	sc  *Scenario
	cur *os.File
}

func (r *runner) run(prefix []uint16) ([]runtime.VStep, Result, Verdict) {
	if r.cur != nil {
		b, _ := json.Marshal(prefix)
		b = append(b, '\n')
		r.cur.Truncate(0)
		r.cur.WriteAt(b, 0)
	}
	ex := r.sc.New()
	mask := r.sc.Mask
	if mask == 0 {
		mask = PAll
	}
	limit := r.sc.Limit
	if limit == 0 {
		limit = 20000
	}
	races := raceErrors()
	runtime.VTimed(r.sc.Clock)
	vr := runtime.VRun(ex.Body, prefix, traceBuf, r.sc.Timers, limit, mask)
	res := Result{VResult: vr, Races: raceErrors() - races}
	tr := append([]runtime.VStep(nil), traceBuf[:vr.Steps]...)
	v := Verdict{}
	if vr.Status == runtime.VDiverged || vr.Status == runtime.VOverflow {
		v.Outcome = "unusable"
	} else {
		v = ex.Check(res)
		if res.Races > 0 && !r.sc.IgnoreRaces {
			v.Bad = append(v.Bad, "data race between unsynchronised accesses (see the race report)")
		}
	}
	if ex.Done != nil {
		ex.Done()
	}
	return tr, res, v
}

func cost(sc *Scenario, s runtime.VStep) int {
	if s.C == 0 {
		return 0
	}
	if s.Kind == runtime.VKBlock && sc.FreeBlock && s.C < s.NT {
		return 0
	}
	if s.Kind == runtime.VKUser {
		return 0
	}
	return 1
}

func altCost(sc *Scenario, s runtime.VStep, c int) int {
	s.C = uint16(c)
	return cost(sc, s)
}

func shape(tr []runtime.VStep, n int) uint64 {
	h := fnv.New64a()
	for i := 0; i < n; i++ {
		s := tr[i]
		h.Write([]byte{byte(s.N), byte(s.N >> 8), byte(s.NT), s.Kind, byte(s.Vid), byte(s.PC), byte(s.PC >> 8), byte(s.PC >> 16)})
		if i < n-1 {
			h.Write([]byte{byte(s.C), byte(s.C >> 8)})
		}
	}
	return h.Sum64()
}

func stepString(s runtime.VStep) string {
	f := runtime.CallersFrames([]uintptr{s.PC})
	fr, _ := f.Next()
	return fmt.Sprintf("%+v %s:%d", s, filepath.Base(fr.File), fr.Line)
}

// Describe renders the choices of a trace that deviate from the default.
func Describe(tr []runtime.VStep) []string {
	var out []string
	for i, s := range tr {
		if s.C == 0 {
			continue
		}
		where := ""
		if s.PC > 1 {
			f := runtime.CallersFrames([]uintptr{s.PC})
			fr, _ := f.Next()
			where = fmt.Sprintf(" at %s:%d (%s)", filepath.Base(fr.File), fr.Line, fr.Function)
		}
		what := map[uint8]string{1: "preempt", 2: "pick", 3: "select case", 4: "environment answer"}[s.Kind]
		if s.C >= s.NT && s.Kind <= 2 {
			what = "fire timer"
		}
		out = append(out, fmt.Sprintf("step %d: thread %d: %s %d of %d%s", i, s.Vid, what, s.C, s.N, where))
	}
	if out == nil {
		out = []string{"default schedule"}
	}
	return out
}

// explore runs the share of shard (of nshards) of the bounded search.  It returns
// true when the search is over, false when the process should be replaced.
func explore(sc *Scenario, sr *search, bound, shard, nshards int, deadline time.Time, cur *os.File, maxViol, recycle int) bool {
	t0 := time.Now()
	st := sr.St
	defer func() { st.WallS += time.Since(t0).Seconds() }()
	r := &runner{sc: sc, cur: cur}
	r.run(nil) // what libraries do only once per process
	runs := 0
	for ; sr.Dev <= bound; sr.Dev++ {
		for len(st.PerLevel) <= sr.Dev {
			st.PerLevel = append(st.PerLevel, 0)
		}
		for len(sr.Stack) > 0 {
			if time.Now().After(deadline) {
				st.Capped = true
				st.Frontier = len(sr.Stack) + len(sr.Next)
				return true
			}
			if runs >= recycle {
				return false
			}
			runs++
			it := sr.Stack[len(sr.Stack)-1]
			sr.Stack = sr.Stack[:len(sr.Stack)-1]
			prefix := it.prefix()
			x0 := time.Now()
			tr, res, v := r.run(prefix)
			if os.Getenv("VS_DEBUG") != "" {
				if d := time.Since(x0); d > 50*time.Millisecond {
					fmt.Fprintln(os.Stderr, "slow", d, Describe(tr))
				}
			}
			root := len(prefix) == 0
			if res.Status == runtime.VDiverged || len(tr) < len(prefix) ||
				(!root && shape(tr, len(prefix)) != it.Hash) {
				st.Diverged++
				if os.Getenv("VS_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "diverged: %v status %d steps %d\n", prefix, res.Status, len(tr))
				}
				continue
			}
			if res.Status == runtime.VOverflow {
				st.Overflows++
				continue
			}
			if !root || shard == 0 {
				st.Executions++
				st.PerLevel[sr.Dev]++
				st.Points += int64(res.Points)
				st.Transitions += int64(len(tr) - len(prefix))
				st.Outcomes[v.Outcome]++
				if len(tr) > st.MaxTrace {
					st.MaxTrace = len(tr)
				}
				if res.Status == runtime.VLimit {
					st.Limits++
				}
				if len(st.Sample) < 3 && (sr.Dev == bound || st.Executions%97 == 0) {
					st.Sample = append(st.Sample, v.Outcome+": "+strings.Join(Describe(tr), "; "))
				}
				if len(v.Bad) > 0 {
					st.Violations = append(st.Violations, Violation{sc.Name, choices(tr), v.Bad, Describe(tr), sr.Dev})
					if len(st.Violations) >= maxViol {
						st.Capped = true
						return true
					}
				}
			}
			for i := len(prefix); i < len(tr); i++ {
				h := uint64(0)
				for c := 1; c < int(tr[i].N); c++ {
					ac := altCost(sc, tr[i], c)
					if sr.Dev+ac > bound {
						continue
					}
					if root {
						sr.Alt++
						if sr.Alt%nshards != shard {
							continue
						}
					}
					if h == 0 {
						h = shape(tr, i+1)
					}
					n := item{Len: i + 1, Hash: h, Dev: sr.Dev + ac}
					for j := 0; j < i; j++ {
						if tr[j].C != 0 {
							n.At = append(n.At, uint16(j))
							n.C = append(n.C, tr[j].C)
						}
					}
					n.At = append(n.At, uint16(i))
					n.C = append(n.C, uint16(c))
					if ac == 0 {
						sr.Stack = append(sr.Stack, n)
					} else {
						sr.Next = append(sr.Next, n)
					}
				}
			}
		}
		st.Bound = sr.Dev
		// visit the next level in the order found
		next := sr.Next
		for i, j := 0, len(next)-1; i < j; i, j = i+1, j-1 {
			next[i], next[j] = next[j], next[i]
		}
		sr.Stack, sr.Next = next, nil
	}
	return true
}

func choices(tr []runtime.VStep) []uint16 {
	n := len(tr)
	for n > 0 && tr[n-1].C == 0 {
		n--
	}
	out := make([]uint16, n)
	for i := range out {
		out[i] = tr[i].C
	}
	return out
}

// ---- processes --------------------------------------------------------------

var scenarios []*Scenario

func Register(s *Scenario) { scenarios = append(scenarios, s) }

func All() []*Scenario { return scenarios }

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func worker(args []string) {
	// worker SCEN BOUND SHARD NSHARDS DEADLINE OUTFILE CURFILE STATEFILE
	sc := find(args[0])
	bound, _ := strconv.Atoi(args[1])
	shard, _ := strconv.Atoi(args[2])
	n, _ := strconv.Atoi(args[3])
	deadline, _ := strconv.ParseInt(args[4], 10, 64)
	debug.SetGCPercent(-1)
	if os.Getenv("VS_DEBUG") == "" {
		quiet()
	}
	cur, err := os.OpenFile(args[6], os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		panic(err)
	}
	if p := os.Getenv("VS_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	sr := &search{Stack: []item{{}}, St: &Stats{Scenario: sc.Name, Outcomes: map[string]int{}, Bound: -1}}
	if f, err := os.Open(args[7]); err == nil {
		sr = &search{}
		err := gob.NewDecoder(bufio.NewReader(f)).Decode(sr)
		f.Close()
		if err != nil {
			panic(err)
		}
		if sr.St.Outcomes == nil {
			sr.St.Outcomes = map[string]int{}
		}
	}
	// The collector stays off (it would zero the writer's large sparse tables again
	// and again); memory is given back by replacing the process instead.
	recycle := 150
	if sc.Recycle > 0 {
		recycle = sc.Recycle
	}
	if !explore(sc, sr, bound, shard, n, time.Unix(0, deadline), cur, 3, recycle) {
		f, err := os.Create(args[7])
		if err != nil {
			panic(err)
		}
		w := bufio.NewWriter(f)
		if err := gob.NewEncoder(w).Encode(sr); err != nil {
			panic(err)
		}
		w.Flush()
		f.Close()
		pprof.StopCPUProfile()
		os.Exit(75)
	}
	b, _ := json.Marshal(sr.St)
	if err := os.WriteFile(args[5], b, 0644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

func quiet() {
	log.SetOutput(io.Discard)
	if f, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		os.Stdout = f
	}
}

// replay SCEN PREFIXJSON OUT: run one schedule.
func replay(args []string) {
	sc := find(args[0])
	var prefix []uint16
	if err := json.Unmarshal([]byte(args[1]), &prefix); err != nil {
		panic(err)
	}
	debug.SetGCPercent(-1)
	if os.Getenv("VS_DEBUG") == "" {
		quiet()
	}
	r := &runner{sc: sc}
	r.run(nil)
	tr, _, v := r.run(prefix)
	b, _ := json.Marshal(Violation{sc.Name, choices(tr), append([]string{}, v.Bad...), Describe(tr), 0})
	os.WriteFile(args[2], b, 0644)
	os.Exit(0)
}

// Explore runs the scenario in nproc worker processes and returns the merged statistics.
func Explore(name string, bound, nproc int, secs float64, dir string) (*Stats, error) {
	sc := find(name)
	if sc == nil {
		return nil, fmt.Errorf("no scenario %s", name)
	}
	type out struct {
		st    *Stats
		crash *Violation
		err   error
	}
	outs := make([]out, nproc)
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second))).UnixNano()
	var wg sync.WaitGroup
	for i := 0; i < nproc; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			of := filepath.Join(dir, fmt.Sprintf("%s.%d.out", name, i))
			cf := filepath.Join(dir, fmt.Sprintf("%s.%d.cur", name, i))
			sf := filepath.Join(dir, fmt.Sprintf("%s.%d.state", name, i))
			os.Remove(of)
			os.Remove(cf)
			os.Remove(sf)
			var stderr, races string
			var err error
			for {
				stderr, err = spawn(secs+90, cf, "worker", name, fmt.Sprint(bound), fmt.Sprint(i), fmt.Sprint(nproc), fmt.Sprint(deadline), of, cf, sf)
				if races == "" && strings.Contains(stderr, "DATA RACE") {
					races = stderr
				}
				var ee *exec.ExitError
				if errors.As(err, &ee) && ee.ExitCode() == 75 {
					continue
				}
				break
			}
			if b, rerr := os.ReadFile(of); rerr == nil {
				var st Stats
				if jerr := json.Unmarshal(b, &st); jerr == nil {
					outs[i].st = &st
					for j := range st.Violations {
						if strings.Contains(strings.Join(st.Violations[j].What, ""), "data race") {
							st.Violations[j].Schedule = append(st.Violations[j].Schedule, raceText(races)...)
						}
					}
					return
				}
			}
			// The worker died: attribute it to the schedule it was running.
			b, _ := os.ReadFile(cf)
			var prefix []uint16
			if json.Unmarshal(bytes.TrimSpace(b), &prefix) != nil {
				outs[i].err = fmt.Errorf("worker failed before its first execution: %v\n%s", err, tail(stderr, 2000))
				return
			}
			what := "the process died"
			if err == errTimeout {
				what = "the process hung"
			}
			outs[i].crash = &Violation{Scenario: name, Prefix: prefix, What: []string{what + ": " + firstLine(stderr)}, Schedule: strings.Split(tail(stderr, 3000), "\n")}
		}(i)
	}
	wg.Wait()
	m := &Stats{Scenario: name, Outcomes: map[string]int{}, Bound: bound}
	for _, o := range outs {
		if o.err != nil {
			return nil, o.err
		}
		if o.crash != nil {
			m.Violations = append(m.Violations, *o.crash)
			m.Bound = -1
			continue
		}
		s := o.st
		m.Executions += s.Executions
		m.Points += s.Points
		m.Overflows += s.Overflows
		m.Transitions += s.Transitions
		m.Limits += s.Limits
		m.Diverged += s.Diverged
		m.Frontier += s.Frontier
		m.Capped = m.Capped || s.Capped
		if s.Bound < m.Bound {
			m.Bound = s.Bound
		}
		if s.MaxTrace > m.MaxTrace {
			m.MaxTrace = s.MaxTrace
		}
		for i, n := range s.PerLevel {
			for len(m.PerLevel) <= i {
				m.PerLevel = append(m.PerLevel, 0)
			}
			m.PerLevel[i] += n
		}
		for k, v := range s.Outcomes {
			m.Outcomes[k] += v
		}
		m.Violations = append(m.Violations, s.Violations...)
		if len(m.Sample) < 4 {
			m.Sample = append(m.Sample, s.Sample...)
		}
		if s.WallS > m.WallS {
			m.WallS = s.WallS
		}
	}
	sort.SliceStable(m.Violations, func(i, j int) bool { return len(m.Violations[i].Prefix) < len(m.Violations[j].Prefix) })
	return m, nil
}

// Confirm replays a violation in n fresh processes; it is confirmed when every replay
// shows a violation again.
func Confirm(v *Violation, n int, dir string) (bool, string) {
	p, _ := json.Marshal(v.Prefix)
	hangs := 0
	for i := 0; i < n; i++ {
		of := filepath.Join(dir, fmt.Sprintf("replay.%d.out", i))
		os.Remove(of)
		if i == 2 && hangs == 2 {
			return true, "" // hung twice for half a minute
		}
		stderr, err := spawn(hangSecs, "", "replay", v.Scenario, string(p), of)
		if err == errTimeout {
			hangs++
		}
		b, rerr := os.ReadFile(of)
		if rerr != nil {
			if err == nil {
				return false, "no result"
			}
			continue // died again
		}
		var r Violation
		if json.Unmarshal(b, &r) != nil || len(r.What) == 0 {
			return false, "not reproduced on replay " + fmt.Sprint(i) + " " + tail(stderr, 300)
		}
	}
	return true, ""
}

var errTimeout = fmt.Errorf("timeout")

// hangSecs is how long one execution (normally milliseconds) may take.
const hangSecs = 40

// spawn runs this program again; it is killed after secs seconds, or when the file
// watch, rewritten at every execution, stays the same for hangSecs.
func spawn(secs float64, watch string, args ...string) (string, error) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=4", "GOTRACEBACK=single")
	var buf limited
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		return "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	for {
		select {
		case err := <-done:
			return buf.String(), err
		case <-time.After(time.Second):
		}
		idle := time.Since(start)
		over := idle.Seconds() > secs
		if watch != "" {
			if fi, err := os.Stat(watch); err == nil {
				if d := time.Since(fi.ModTime()); d < idle {
					idle = d
				}
			}
			over = over || idle.Seconds() > hangSecs
		}
		if over {
			cmd.Process.Kill()
			<-done
			return buf.String(), errTimeout
		}
	}
}

type limited struct{ bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.Len() < 1<<20 {
		l.Buffer.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	ls := strings.SplitN(strings.TrimSpace(s), "\n", 2)
	return ls[0]
}

func raceText(s string) []string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return nil
	}
	return strings.Split(tail(s[i:], 2500), "\n")
}

// Main dispatches the sub-commands used by worker processes.
func Main() bool {
	if len(os.Args) < 2 {
		return false
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "twice":
		// twice SCEN N [PREFIX]: run one schedule repeatedly and report where the traces differ
		sc := find(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		debug.SetGCPercent(-1)
		var prefix []uint16
		if len(os.Args) > 4 {
			json.Unmarshal([]byte(os.Args[4]), &prefix)
		}
		r := &runner{sc: sc}
		r.run(nil)
		first, _, _ := r.run(prefix)
		for i := 1; i < n; i++ {
			tr, _, _ := r.run(prefix)
			for j := range tr {
				if j >= len(first) || tr[j] != first[j] {
					fmt.Fprintf(os.Stderr, "run %d: step %d of %d/%d\n", i, j, len(tr), len(first))
					for k := j - 3; k < j+3; k++ {
						if k >= 0 && k < len(tr) && k < len(first) {
							fmt.Fprintf(os.Stderr, "  %d: %s | %s\n", k, stepString(first[k]), stepString(tr[k]))
						}
					}
					break
				}
			}
		}
	case "replay":
		replay(os.Args[2:])
	default:
		return false
	}
	return true
}

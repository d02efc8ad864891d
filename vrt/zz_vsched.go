// Controlled scheduling for bounded exhaustive exploration of real Go code.
// This file is added to package runtime through `go build -overlay`.
//
// The program runs with GOMAXPROCS=1 and GODEBUG=asyncpreemptoff=1.  While an
// execution is active, goroutines descended from the execution's root
// ("controlled" goroutines, g.vid != 0) never sit in the ordinary run queues:
// they are kept in vs.ready and the next one to run is decided by vchoose, which
// replays a prefix of choices and answers 0 after it.  Scheduling points are
// channel operations, select, lock operations and file-system calls made by the
// code under test.  No synchronisation is added that the race detector could see.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

const (
	VKPoint  = 1 // scheduling point of a running goroutine; choice 0 = go on
	VKBlock  = 2 // the running goroutine blocked or ended
	VKSelect = 3 // several ready cases in a select
	VKUser   = 4 // environment answer asked for by the harness
)

// Point classes (for enabling and for labels).
const (
	VPLock = 1 << iota
	VPChan
	VPFS
	VPAtomic
	VPUser
	VPUnlock
)

type VStep struct {
	N     uint16 // number of alternatives
	C     uint16 // chosen
	NT    uint16 // alternatives from here on fire a timer (== N when none)
	Kind  uint8
	Class uint8
	Vid   int32 // running goroutine at the choice
	PC    uintptr
}

const vmax = 256

var vs struct {
	active   uint32
	epoch    uint32
	nextid   int32
	live     int32
	ready    [vmax]guintptr
	nready   int
	timers   [vmax]guintptr
	ntimers  int
	when     [vmax]int64 // of timers: when they are due, on the clock of the execution
	clock    int64
	park     int64
	timed    bool // timers fire in the order they are due, when nothing else can run
	budget   int
	next     guintptr
	explorer guintptr
	prefix   []uint16
	ns       int // recorded choices
	trace    []VStep
	points   int
	limit    int
	status   int
	mask     int
	rng      uint64
	rngk     uint32 // segments: what a library consumes once per process stays within one
	running  int32
	overflow bool
	frozen   bool
}

// Status of a finished execution.
const (
	VOk       = 0 // quiescent: no controlled goroutine can run
	VLimit    = 1 // step limit
	VDiverged = 2 // a prefix choice was out of range
	VOverflow = 3 // trace or queue capacity exceeded
)

type VResult struct {
	Status  int
	Steps   int // choices recorded
	Points  int // scheduling points executed
	Blocked int // controlled goroutines that exist and are blocked (timers included)
	Timers  int // of those, waiting for a timer
}

// VRun runs body as the root of one controlled execution and returns when the
// system is quiescent.
func VRun(body func(), prefix []uint16, trace []VStep, budget, limit, mask int) VResult {
	gp := getg()
	vs.epoch++
	vs.nextid = 0
	vs.live = 0
	vs.nready, vs.ntimers = 0, 0
	vs.budget = budget
	vs.clock = 0
	vs.next = 0
	vs.prefix = prefix
	vs.trace = trace
	vs.ns, vs.points, vs.limit = 0, 0, limit
	vs.status = VOk
	vs.mask = mask
	vs.rng = 0x9e3779b97f4a7c15
	vs.rngk = 0
	vs.overflow = false
	vs.frozen = false
	vs.explorer.set(gp)
	fn := *(**funcval)(unsafe.Pointer(&body))
	systemstack(func() {
		newg := newproc1(fn, gp, gp.gopc, false, waitReasonZero)
		vadopt(newg)
		vs.ready[0].set(newg)
		vs.nready = 1
	})
	gopark(vcommitRun, nil, waitReasonZero, traceBlockGeneric, 1)
	st := vs.status
	if vs.overflow {
		st = VOverflow
	}
	KeepAlive(body)
	if raceenabled {
		raceacquireg(gp, unsafe.Pointer(&vsync))
	}
	return VResult{Status: st, Steps: vs.ns, Points: vs.points, Blocked: int(vs.live), Timers: vs.ntimers}
}

// vsync carries a happens-before edge from every goroutine of an execution to the
// explorer at the end of it (never between goroutines of the execution).
var vsync uint64

func vrelease(gp *g) {
	if raceenabled && gp.racectx != 0 {
		racereleasemergeg(gp, unsafe.Pointer(&vsync))
	}
}

// VFreeze(true) makes the following part of the execution run without scheduling
// points and with default choices; it returns the previous setting.
func VFreeze(on bool) bool {
	vs.rngk++
	vs.rng = uint64(vs.rngk) << 32
	old := vs.frozen
	vs.frozen = on
	return old
}

func vcommitRun(gp *g, _ unsafe.Pointer) bool {
	vs.active = 1
	return true
}

func vadopt(newg *g) {
	vs.nextid++
	vs.live++
	newg.vid = vs.nextid
	newg.vepoch = vs.epoch
}

// vcontrolled: the current goroutine belongs to the active execution.
//
//go:nosplit
func vcontrolled() bool {
	gp := getg()
	return gp.vid != 0 && vs.active != 0 && gp.vepoch == vs.epoch
}

// vput takes a goroutine that became runnable. Reports whether it was taken.
//
//go:nowritebarrierrec
func vput(gp *g) bool {
	if gp.vid == 0 {
		return false
	}
	if vs.active == 0 || gp.vepoch != vs.epoch {
		return true // left over from a finished execution: never runs again
	}
	if vs.nready >= vmax {
		vs.overflow = true
		return true
	}
	vs.ready[vs.nready].set(gp)
	vs.nready++
	return true
}

//go:nosplit
func vntimers() int {
	if vs.budget > 0 && !vs.timed {
		return vs.ntimers
	}
	return 0
}

// vchoose answers a choice among n alternatives (n >= 2).
//
//go:nowritebarrierrec
func vchoose(kind, class uint8, n, nt int, pc uintptr) int {
	c := 0
	if vs.frozen {
		return 0
	}
	if vs.ns < len(vs.prefix) {
		c = int(vs.prefix[vs.ns])
		if c >= n {
			vs.status = VDiverged
			c = 0
		}
	}
	if vs.ns < len(vs.trace) {
		vs.trace[vs.ns] = VStep{N: uint16(n), C: uint16(c), NT: uint16(nt), Kind: kind, Class: class, Vid: vs.running, PC: pc}
	} else {
		vs.overflow = true
		return c
	}
	vs.ns++
	return c
}

//go:nowritebarrierrec
func vtake(i int) *g {
	if i < vs.nready {
		gp := vs.ready[i].ptr()
		for j := i; j+1 < vs.nready; j++ {
			vs.ready[j] = vs.ready[j+1]
		}
		vs.nready--
		return gp
	}
	i -= vs.nready
	gp := vs.timers[i].ptr()
	for j := i; j+1 < vs.ntimers; j++ {
		vs.timers[j] = vs.timers[j+1]
		vs.when[j] = vs.when[j+1]
	}
	vs.ntimers--
	vs.budget--
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

// vdue makes the timers that are due next runnable: time passes only when nothing
// else can happen.
//
//go:nowritebarrierrec
func vdue() {
	t := vs.when[0]
	for i := 1; i < vs.ntimers; i++ {
		if vs.when[i] < t {
			t = vs.when[i]
		}
	}
	if t > vs.clock {
		vs.clock = t
	}
	for i := 0; i < vs.ntimers && vs.budget > 0; {
		if vs.when[i] > t {
			i++
			continue
		}
		gp := vs.timers[i].ptr()
		for j := i; j+1 < vs.ntimers; j++ {
			vs.timers[j] = vs.timers[j+1]
			vs.when[j] = vs.when[j+1]
		}
		vs.ntimers--
		vs.budget--
		casgstatus(gp, _Gwaiting, _Grunnable)
		vput(gp)
	}
}

// VClock is the time on the clock of the execution, in nanoseconds since its start.
func VClock() int64 { return vs.clock }

// VTimed makes timers of the executions that follow fire in the order they are due
// and only when nothing else can run.
func VTimed(on bool) { vs.timed = on }

//go:linkname vClock time.vClock
func vClock() int64 {
	if !vs.timed || !vcontrolled() {
		return 0
	}
	return vs.clock
}

// vpick is called by findRunnable when no ordinary goroutine is runnable.
func vpick() *g {
	if vs.active == 0 {
		return nil
	}
	if gp := vs.next.ptr(); gp != nil {
		vs.next = 0
		vs.running = gp.vid
		return gp
	}
	if vs.timed && vs.nready == 0 && vs.ntimers > 0 && vs.budget > 0 && vs.status == VOk {
		vdue()
	}
	n := vs.nready + vntimers()
	if n == 0 || vs.status != VOk || vs.overflow {
		return vstop()
	}
	c := 0
	if n > 1 {
		c = vchoose(VKBlock, 0, n, vs.nready, 0)
	}
	gp := vtake(c)
	vs.running = gp.vid
	return gp
}

func vstop() *g {
	vs.active = 0
	gp := vs.explorer.ptr()
	vs.explorer = 0
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

// vpoint is a scheduling point of class class.  Points of lock, channel and
// atomic operations count only when the operation is made by the code under test.
func vpoint(class uint8) {
	if !vcontrolled() {
		return
	}
	if vs.frozen || vs.mask&int(class) == 0 {
		return
	}
	gp := getg()
	if gp.m.locks != 0 || gp != gp.m.curg {
		return
	}
	var pcs [12]uintptr
	n := callers(2, pcs[:])
	pc := vuserpc(pcs[:n], class)
	if pc == 0 {
		return
	}
	vs.points++
	vs.rngk++
	vs.rng = uint64(vs.rngk) << 32
	if vs.limit > 0 && vs.points > vs.limit {
		vs.status = VLimit
		gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	}
	k := 1 + vs.nready + vntimers()
	if k == 1 {
		return
	}
	c := vchoose(VKPoint, class, k, 1+vs.nready, pc)
	if c == 0 {
		return
	}
	vs.next.set(vtake(c - 1))
	mcall(vswitch_m)
}

func vswitch_m(gp *g) {
	vrelease(gp)
	casgstatus(gp, _Grunning, _Grunnable)
	dropg()
	vput(gp)
	schedule()
}

// vuserpc returns the pc of the innermost frame of the code under test, or 0.  For
// synchronisation operations every frame inside it must belong to the
// synchronisation packages; atomic operations must be made by it directly.
func vuserpc(pcs []uintptr, class uint8) uintptr {
	strict := class&(VPFS|VPUser) == 0
	for _, pc := range pcs {
		f := findfunc(pc - 1)
		if !f.valid() {
			return 0
		}
		u, uf := newInlineUnwinder(f, pc-1)
		name := u.srcFunc(uf).name()
		if vhasPrefix(name, "github.com/hound-search/hound/") || vhasPrefix(name, "hv/") || vhasPrefix(name, "main.") {
			return pc
		}
		if class == VPAtomic && !vhasPrefix(name, "sync/atomic.") {
			return 0
		}
		if strict && !(vhasPrefix(name, "sync.") || vhasPrefix(name, "sync/atomic.") || vhasPrefix(name, "internal/sync.") || vhasPrefix(name, "runtime.") || vhasPrefix(name, "net/http.(*ServeMux).")) {
			return 0
		}
	}
	if strict {
		return 0
	}
	return 1
}

func vhasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// VPoint is a scheduling point placed by a harness.
func VPoint() { vpoint(VPUser) }

// VChoose asks the explorer for an environment answer in [0,n).
func VChoose(n int) int {
	vs.rngk++
	vs.rng = uint64(vs.rngk) << 32
	if n < 2 || !vcontrolled() {
		return 0
	}
	return vchoose(VKUser, VPUser, n, n, sysCallerPC())
}

func sysCallerPC() uintptr {
	var pcs [4]uintptr
	if callers(3, pcs[:]) > 0 {
		return pcs[0]
	}
	return 0
}

// VControlled reports whether the caller runs in the active execution.
func VControlled() bool { return vcontrolled() }

// VLive returns how many controlled goroutines exist.
func VLive() int { return int(vs.live) }

// VVid returns the id of the current controlled goroutine.
func VVid() int { return int(getg().vid) }

// Select: vselect decides which of the ready cases is taken.
// Called with all channels locked.
func vselect(scases []scase, pollorder []uint16, nsends int) {
	var idx [16]uint16
	n := 0
	for _, ci := range pollorder {
		cas := &scases[ci]
		c := cas.c
		rdy := false
		if int(ci) >= nsends {
			rdy = c.sendq.first != nil || c.qcount > 0 || c.closed != 0
		} else {
			rdy = c.closed != 0 || c.recvq.first != nil || c.qcount < c.dataqsiz
		}
		if rdy && n < len(idx) {
			idx[n] = ci
			n++
		}
	}
	if n < 2 {
		return
	}
	k := vchoose(VKSelect, VPChan, n, n, 0)
	if k == 0 {
		return
	}
	want := idx[k]
	for i, ci := range pollorder {
		if ci == want {
			for j := i; j > 0; j-- {
				pollorder[j] = pollorder[j-1]
			}
			pollorder[0] = want
			return
		}
	}
}

// Timers: a timer is a controlled goroutine in vs.timers.

//go:linkname vTimerNew time.vTimerNew
func vTimerNew(fn func(), d int64) int32 {
	if !vcontrolled() {
		return 0
	}
	gp := getg()
	fv := *(**funcval)(unsafe.Pointer(&fn))
	var id int32
	systemstack(func() {
		newg := newproc1(fv, gp, gp.gopc, true, waitReasonSleep)
		id = newg.vid
		if vs.ntimers >= vmax {
			vs.overflow = true
			return
		}
		vs.timers[vs.ntimers].set(newg)
		vs.when[vs.ntimers] = vs.clock + max(d, 0)
		vs.ntimers++
	})
	return id
}

//go:linkname vTimerStop time.vTimerStop
func vTimerStop(id int32, epoch uint32) bool {
	if vs.active == 0 || epoch != vs.epoch {
		return false
	}
	for i := 0; i < vs.ntimers; i++ {
		if vs.timers[i].ptr().vid == id {
			for j := i; j+1 < vs.ntimers; j++ {
				vs.timers[j] = vs.timers[j+1]
				vs.when[j] = vs.when[j+1]
			}
			vs.ntimers--
			vs.live--
			return true
		}
	}
	return false
}

//go:linkname vTimerPark time.vTimerPark
func vTimerPark(d int64) {
	vs.park = vs.clock + max(d, 0)
	gopark(vparkTimer, nil, waitReasonSleep, traceBlockSleep, 1)
}

//go:linkname vEpoch time.vEpoch
func vEpoch() uint32 {
	if !vcontrolled() {
		return 0
	}
	return vs.epoch
}

func vparkTimer(gp *g, _ unsafe.Pointer) bool {
	if vs.ntimers >= vmax {
		vs.overflow = true
		return true
	}
	vs.timers[vs.ntimers].set(gp)
	vs.when[vs.ntimers] = vs.park
	vs.ntimers++
	return true
}

//go:linkname vpointLock sync.vpoint
func vpointLock(class uint8) {
	if getg().vid != 0 {
		vpoint(class)
	}
}

//go:linkname vpointAtomic sync/atomic.vpoint
func vpointAtomic() {
	if getg().vid != 0 {
		vpoint(VPAtomic)
	}
}

func vrand() uint64 {
	vs.rng += 0x9e3779b97f4a7c15
	z := vs.rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// ---- file-system calls -------------------------------------------------

// Operations reported to vsys.
const (
	VOpOpen = iota
	VOpOpenW // open that may create, truncate or write
	VOpUnlink
	VOpMkdir
	VOpRename
	VOpSymlink
	VOpWrite
	VOpTrunc
	VOpCopyRange
	VOpLink
	VOpRead
	VOpMmap
	VOpStat // from here on: never a scheduling point
	VOpReaddir
	VOpClose
	VOpPread
	VOpSeek
	VOpReadlink
	VOps_
)

var vf struct {
	mode    uint32 // 0 off, 1 count mutations, 2 crash at mutation k, 3 fail mutation k
	log     uint32
	k       uint64
	errno   uintptr
	torn    uint32 // for a write: 0 nothing, 1 half, 2 all of it is written before the crash
	ops     uint32 // mask of operations that count
	minfd   uintptr
	n       uint64
	sticky  uint32
	paused  bool
	seen    [4096]uint8
	skip    atomic.Uint32
	enabled atomic.Uint32
}

// VFault arms (or with mode 0 disarms) fault injection at the k-th (from 0)
// operation in the mask.  mode 2 ends the process there.
func VFault(mode int, k int, errno int, torn int, opmask int, sticky bool) {
	vf.enabled.Store(0)
	vf.mode = uint32(mode)
	vf.k = uint64(k)
	vf.errno = uintptr(errno)
	vf.torn = uint32(torn)
	vf.ops = uint32(opmask)
	vf.n = 0
	vf.sticky = 0
	if sticky {
		vf.sticky = 1
	}
	if mode != 0 {
		vf.enabled.Store(1)
	}
}

// VFaultPause(true) suspends the injection (operations are not counted either);
// it returns the previous setting.
func VFaultPause(on bool) bool {
	old := vf.paused
	vf.paused = on
	return old
}

// VFaultCount returns how many operations of the mask were seen, and the
// operation kinds (first 4096).
func VFaultCount() (int, []uint8) {
	n := int(vf.n)
	m := n
	if m > len(vf.seen) {
		m = len(vf.seen)
	}
	out := make([]uint8, m)
	copy(out, vf.seen[:m])
	return n, out
}

var vfsby [64]uint32

// VOps returns how many file-system calls (reads and writes left out) the calling
// goroutine, or another with the same id in an earlier execution, has made.
func VOps() int { return int(vfsby[getg().vid&63]) }

// vsys is called before a file-system operation.  It returns an errno to inject
// (0: go on) and, for a write that is to be torn before a crash, how the caller
// should proceed (1: write half then crash, 2: write all then crash).
//
//go:linkname vsys syscall.vsys
func vsys(op uint8, fd uintptr) (errno uintptr, torn uint8) {
	if getg().vid != 0 && op != VOpWrite && op != VOpRead && op < VOpStat {
		vfsby[getg().vid&63]++
		vpoint(VPFS)
	}
	if vf.enabled.Load() == 0 || vf.paused {
		return 0, 0
	}
	if (op == VOpWrite || op == VOpRead || op == VOpClose) && fd <= 2 {
		return 0, 0
	}
	if vf.ops&(1<<op) == 0 {
		return 0, 0
	}
	i := vf.n
	vf.n++
	if i < uint64(len(vf.seen)) {
		vf.seen[i] = op
	}
	hit := i == vf.k || (vf.sticky != 0 && i > vf.k)
	switch {
	case vf.mode == 2 && hit:
		if op == VOpWrite && vf.torn != 0 {
			return 0, uint8(vf.torn)
		}
		vsysCrash()
	case vf.mode == 3 && hit && vf.errno == 0:
		switch op { // short, without an error
		case VOpWrite:
			return 0, 9
		case VOpRead, VOpPread:
			return 0, 1
		}
	case vf.mode == 3 && hit:
		return vf.errno, uint8(vf.torn)
	}
	return 0, 0
}

//go:linkname vsysUnix internal/syscall/unix.vsys
func vsysUnix(op uint8, fd uintptr) (errno uintptr, torn uint8) { return vsys(op, fd) }

//go:linkname vsysCrash syscall.vsysCrash
func vsysCrash() { exit(97) }

#!/usr/bin/env python3
"""Generate the overlay that adds controlled scheduling and file-system fault
points to the Go standard library.   gen.py OUTDIR  -> OUTDIR/overlay.json
Every edit is anchored on exact text; a missing anchor is an error."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))

def edits():
    E = {}
    def sub(f, old, new, count=1):
        E.setdefault(f, []).append((old, new, count))

    # --- runtime
    sub("runtime/runtime2.go", "\tgopc            uintptr         // pc of go statement that created this goroutine\n",
        "\tgopc            uintptr         // pc of go statement that created this goroutine\n\tvid             int32\n\tvepoch          uint32\n")
    sub("runtime/proc.go", "\tnewg.parentGoid = callergp.goid\n",
        "\tnewg.parentGoid = callergp.goid\n\tnewg.vid = 0\n")
    sub("runtime/proc.go", "\t\tnewg.bubble = callergp.bubble\n",
        "\t\tnewg.bubble = callergp.bubble\n\t\tif callergp.vid != 0 && vs.active != 0 && callergp.vepoch == vs.epoch {\n\t\t\tvadopt(newg)\n\t\t\tnewg.paniconfault = callergp.paniconfault\n\t\t}\n")
    sub("runtime/proc.go", "func gdestroy(gp *g) {\n",
        "func gdestroy(gp *g) {\n\tif gp.vid != 0 {\n\t\tif gp.vepoch == vs.epoch {\n\t\t\tvs.live--\n\t\t}\n\t\tgp.vid = 0\n\t}\n")
    sub("runtime/proc.go", "func park_m(gp *g) {\n\tmp := getg().m\n", "func park_m(gp *g) {\n\tmp := getg().m\n\tif gp.vid != 0 {\n\t\tvrelease(gp)\n\t}\n")
    sub("runtime/proc.go", "\t\tracegoend()\n", "\t\tif getg().vid != 0 {\n\t\t\tvrelease(getg())\n\t\t}\n\t\tracegoend()\n")
    sub("runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n",
        "func runqput(pp *p, gp *g, next bool) {\n\tif gp.vid != 0 && vput(gp) {\n\t\treturn\n\t}\n")
    sub("runtime/proc.go", "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n",
        "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif gp.vid != 0 && vput(gp) {\n\t\treturn\n\t}\n")
    sub("runtime/proc.go", "\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n",
        "\tif vs.active != 0 {\n\t\tif gp := vpick(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n")
    sub("runtime/proc.go", "func gopreempt_m(gp *g) {\n",
        "func gopreempt_m(gp *g) {\n\tif gp.vid != 0 && vs.active != 0 && gp.vepoch == vs.epoch {\n\t\tgogo(&gp.sched)\n\t}\n")
    sub("runtime/proc.go", "func retake(now int64) uint32 {\n",
        "func retake(now int64) uint32 {\n\tif vs.active != 0 {\n\t\treturn 0\n\t}\n")
    sub("runtime/proc.go", "\t\t// Take the P. Note: because we have the scan bit, the goroutine\n",
        "\t\tif vs.active != 0 {\n\t\t\tthread.resume()\n\t\t\tgoto done\n\t\t}\n\n\t\t// Take the P. Note: because we have the scan bit, the goroutine\n")
    sub("runtime/chan.go", "func chansend1(c *hchan, elem unsafe.Pointer) {\n",
        "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/chan.go", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n",
        "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/chan.go", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n",
        "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/chan.go", "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n",
        "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/chan.go", "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n",
        "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/chan.go", "func closechan(c *hchan) {\n",
        "func closechan(c *hchan) {\n\tif getg().vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n")
    sub("runtime/select.go", "\tgp := getg()\n", "\tgp := getg()\n\tif gp.vid != 0 {\n\t\tvpoint(VPChan)\n\t}\n", 2)
    sub("runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n",
        "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif gp.vid != 0 {\n\t\t\tj = uint32(norder)\n\t\t}\n")
    sub("runtime/select.go", "\tsellock(scases, lockorder)\n\n\tvar (\n",
        "\tsellock(scases, lockorder)\n\tif gp.vid != 0 && vcontrolled() {\n\t\tvselect(scases, pollorder, nsends)\n\t}\n\n\tvar (\n")
    sub("runtime/rand.go", "func rand() uint64 {\n",
        "func rand() uint64 {\n\tif vcontrolled() {\n\t\treturn vrand()\n\t}\n")
    # the order of large maps depends on their hashes, which have to repeat in every process
    sub("internal/runtime/maps/map.go", "m.seed = uintptr(rand())", "m.seed = 42", -1)
    sub("internal/runtime/maps/runtime_alg.go", "key[i] = bootstrapRand()", "key[i] = 0x9e3779b97f4a7c15 * uint64(i+1)")
    sub("runtime/mgc.go", "func GC() {\n", "func GC() {\n\tif vcontrolled() {\n\t\treturn\n\t}\n")
    sub("runtime/sema.go", "func internal_sync_nanotime() int64 {\n",
        "func internal_sync_nanotime() int64 {\n\tif vcontrolled() {\n\t\treturn 1\n\t}\n")
    sub("runtime/time.go", "\tif ns <= 0 {\n\t\treturn\n\t}\n\n\tgp := getg()\n",
        "\tif ns <= 0 {\n\t\treturn\n\t}\n\n\tgp := getg()\n\tif vcontrolled() {\n\t\tvTimerPark(ns)\n\t\treturn\n\t}\n")

    # --- sync
    def lockpt(f, sig, cls):
        sub(f, sig + " {\n", sig + " {\n\tvpoint(%d)\n" % cls)
    sub("sync/mutex.go", "// A Locker represents", "//go:linkname vpoint\nfunc vpoint(class uint8)\n\n// A Locker represents")
    sub("sync/mutex.go", "import (\n", "import (\n\t_ \"unsafe\"\n")
    for s in ["func (m *Mutex) Lock()", "func (m *Mutex) TryLock() bool"]:
        lockpt("sync/mutex.go", s, 1)
    lockpt("sync/mutex.go", "func (m *Mutex) Unlock()", 32)
    for s in ["func (rw *RWMutex) RLock()", "func (rw *RWMutex) TryRLock() bool", "func (rw *RWMutex) Lock()", "func (rw *RWMutex) TryLock() bool"]:
        lockpt("sync/rwmutex.go", s, 1)
    for s in ["func (rw *RWMutex) RUnlock()", "func (rw *RWMutex) Unlock()"]:
        lockpt("sync/rwmutex.go", s, 32)
    for s in ["func (wg *WaitGroup) Wait()", "func (wg *WaitGroup) Add(delta int)"]:
        lockpt("sync/waitgroup.go", s, 1)
    lockpt("sync/once.go", "func (o *Once) Do(f func())", 1)
    for s in ["func (c *Cond) Signal()", "func (c *Cond) Broadcast()"]:
        lockpt("sync/cond.go", s, 1)

    # --- time
    sub("time/sleep.go", "func NewTimer(d Duration) *Timer {\n",
        "func NewTimer(d Duration) *Timer {\n\tif vEpoch() != 0 {\n\t\treturn vNewTimer(d)\n\t}\n")
    sub("time/sleep.go", "func AfterFunc(d Duration, f func()) *Timer {\n",
        "func AfterFunc(d Duration, f func()) *Timer {\n\tif vEpoch() != 0 {\n\t\treturn vAfterFunc(d, f)\n\t}\n")
    sub("time/sleep.go", "\t\tpanic(\"time: Stop called on uninitialized Timer\")\n\t}\n",
        "\t\tpanic(\"time: Stop called on uninitialized Timer\")\n\t}\n\tif r, ok := vStop(t); ok {\n\t\treturn r\n\t}\n")
    sub("time/sleep.go", "\t\tpanic(\"time: Reset called on uninitialized Timer\")\n\t}\n",
        "\t\tpanic(\"time: Reset called on uninitialized Timer\")\n\t}\n\tif r, ok := vReset(t, d); ok {\n\t\treturn r\n\t}\n")
    sub("time/tick.go", "\t\tpanic(\"non-positive interval for NewTicker\")\n\t}\n",
        "\t\tpanic(\"non-positive interval for NewTicker\")\n\t}\n\tif vEpoch() != 0 {\n\t\treturn vNewTicker(d)\n\t}\n")
    sub("time/tick.go", "\tstopTimer((*Timer)(unsafe.Pointer(t)))\n",
        "\tif _, ok := vStop((*Timer)(unsafe.Pointer(t))); ok {\n\t\treturn\n\t}\n\tstopTimer((*Timer)(unsafe.Pointer(t)))\n")
    sub("time/tick.go", "\tresetTimer((*Timer)(unsafe.Pointer(t)), when(d), int64(d))\n",
        "\tif _, ok := vReset((*Timer)(unsafe.Pointer(t)), d); ok {\n\t\treturn\n\t}\n\tresetTimer((*Timer)(unsafe.Pointer(t)), when(d), int64(d))\n")

    sub("time/time.go", "subMono(runtimeNano()-startNano, t.ext)", "subMono(runtimeNano()+vClock()-startNano, t.ext)")
    sub("time/time.go", "subMono(t.ext, runtimeNano()-startNano)", "subMono(t.ext, runtimeNano()+vClock()-startNano)")
    sub("time/time.go", "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n",
        "func Now() Time {\n\tsec, nsec, mono := runtimeNow()\n\tif d := vClock(); d != 0 {\n\t\td += int64(nsec)\n\t\tmono += d - int64(nsec)\n\t\tsec += d / 1e9\n\t\tnsec = int32(d % 1e9)\n\t}\n")

    # --- syscall
    Z = "syscall/zsyscall_linux_amd64.go"
    def sys_err(f, sig, op, fd, ret="return"):
        sub(f, sig + " {\n", sig + " {\n\tif e, _ := vsys(%d, %s); e != 0 {\n\t\terr = Errno(e)\n\t\t%s\n\t}\n" % (op, fd, ret))
    sub(Z, "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n",
        "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n"
        "\tvop := uint8(0)\n\tif flags&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC) != 0 {\n\t\tvop = 1\n\t}\n"
        "\tif e, _ := vsys(vop, 0); e != 0 {\n\t\treturn -1, Errno(e)\n\t}\n")
    sys_err(Z, "func unlinkat(dirfd int, path string, flags int) (err error)", 2, "0")
    sys_err(Z, "func Mkdirat(dirfd int, path string, mode uint32) (err error)", 3, "0")
    sys_err(Z, "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error)", 4, "0")
    sys_err(Z, "func symlinkat(oldpath string, newdirfd int, newpath string) (err error)", 5, "0")
    sys_err(Z, "func Ftruncate(fd int, length int64) (err error)", 7, "uintptr(fd)")
    sys_err(Z, "func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error)", 9, "0")
    sub(Z, "func read(fd int, p []byte) (n int, err error) {\n",
        "func read(fd int, p []byte) (n int, err error) {\n\tif e, t := vsys(10, uintptr(fd)); e != 0 {\n\t\treturn -1, Errno(e)\n\t} else if t != 0 && len(p) > 1 {\n\t\tp = p[:1]\n\t}\n")
    sub(Z, "func mmap(addr uintptr, length uintptr, prot int, flags int, fd int, offset int64) (xaddr uintptr, err error) {\n",
        "func mmap(addr uintptr, length uintptr, prot int, flags int, fd int, offset int64) (xaddr uintptr, err error) {\n\tif e, _ := vsys(11, uintptr(fd)); e != 0 {\n\t\treturn 0, Errno(e)\n\t}\n")
    sys_err(Z, "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error)", 12, "uintptr(fd)")
    sys_err(Z, "func Fstat(fd int, stat *Stat_t) (err error)", 12, "uintptr(fd)")
    sys_err(Z, "func Getdents(fd int, buf []byte) (n int, err error)", 13, "uintptr(fd)")
    sub(Z, "func Close(fd int) (err error) {\n",
        "func Close(fd int) (err error) {\n\tif e, _ := vsys(14, uintptr(fd)); e != 0 {\n\t\tSyscall(SYS_CLOSE, uintptr(fd), 0, 0)\n\t\treturn Errno(e)\n\t}\n")
    sub(Z, "func pread(fd int, p []byte, offset int64) (n int, err error) {\n",
        "func pread(fd int, p []byte, offset int64) (n int, err error) {\n\tif e, t := vsys(15, uintptr(fd)); e != 0 {\n\t\treturn -1, Errno(e)\n\t} else if t != 0 && len(p) > 1 {\n\t\tp = p[:1]\n\t}\n")
    sys_err(Z, "func Seek(fd int, offset int64, whence int) (off int64, err error)", 16, "uintptr(fd)")
    sub(Z, "func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n",
        "func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n\tif e, _ := vsys(17, 0); e != 0 {\n\t\treturn -1, Errno(e)\n\t}\n")
    W = ("\tif e, t := vsys(6, uintptr(fd)); e != 0 {\n"
         "\t\tif t != 0 && len(p) > 1 {\n\t\t\tSyscall6(%s, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)/2), %s, 0, 0)\n\t\t}\n"
         "\t\treturn -1, Errno(e)\n"
         "\t} else if t == 9 {\n\t\tif len(p) > 1 {\n\t\t\tp = p[:len(p)/2]\n\t\t}\n"
         "\t} else if t != 0 {\n\t\tm := len(p)\n\t\tif t == 1 {\n\t\t\tm = len(p) / 2\n\t\t} else if t == 3 {\n\t\t\tm = 1\n\t\t} else if t == 4 {\n\t\t\tm = len(p) - 1\n\t\t}\n"
         "\t\tif m > 0 {\n\t\t\tSyscall6(%s, uintptr(fd), uintptr(unsafe.Pointer(&p[0])), uintptr(m), %s, 0, 0)\n\t\t}\n\t\tvsysCrash()\n\t}\n")
    sub(Z, "func write(fd int, p []byte) (n int, err error) {\n",
        "func write(fd int, p []byte) (n int, err error) {\n" + W % ("SYS_WRITE", "0", "SYS_WRITE", "0"))
    sub(Z, "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n",
        "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n" + W % ("SYS_PWRITE64", "uintptr(offset)", "SYS_PWRITE64", "uintptr(offset)"))
    U = "internal/syscall/unix/at.go"
    def u_err(sig, op, res):
        sub(U, sig + " {\n", sig + " {\n\tif e, _ := vsys(%s, 0); e != 0 {\n\t\treturn %s\n\t}\n" % (op, res))
    u_err("func Unlinkat(dirfd int, path string, flags int) error", "2", "syscall.Errno(e)")
    u_err("func Openat(dirfd int, path string, flags int, perm uint32) (int, error)", "vopen(flags)", "0, syscall.Errno(e)")
    u_err("func Mkdirat(dirfd int, path string, mode uint32) error", "3", "syscall.Errno(e)")
    u_err("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error", "4", "syscall.Errno(e)")
    u_err("func Readlinkat(dirfd int, path string, buf []byte) (int, error)", "17", "0, syscall.Errno(e)")
    sub("internal/syscall/unix/at_fstatat.go", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n",
        "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif e, _ := vsys(12, 0); e != 0 {\n\t\treturn syscall.Errno(e)\n\t}\n")
    sub("internal/syscall/unix/copy_file_range_unix.go",
        "func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {\n",
        "func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {\n\tif e, _ := vsys(8, uintptr(wfd)); e != 0 {\n\t\treturn 0, syscall.Errno(e)\n\t}\n")
    return E

ADD = {
    "runtime/zz_vsched.go": "zz_vsched.go",
    "time/zz_vtime.go": "zz_vtime.go",
    "syscall/zz_vsys.go": "zz_vsys.go",
    "internal/syscall/unix/zz_vsys.go": "zz_vsysunix.go",
    "sync/atomic/zz_v.go": "zz_vatomic.go",
}

def atomic_types(src):
    """Put a scheduling point in the methods of the sync/atomic types."""
    import re
    out = []
    for line in src.split("\n"):
        m = re.match(r"^(func \(x \*\w+(?:\[T\])?\) (?:Load|Store|Swap|CompareAndSwap|Add|And|Or)\(.*?\{)(.*)$", line)
        if m:
            line = m.group(1) + " vpoint();" + m.group(2)
        out.append(line)
    return "\n".join(out)

def main():
    out = sys.argv[1]
    goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
    rep = {}
    def put(rel, text):
        p = os.path.join(out, "std", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        old = None
        if os.path.exists(p):
            with open(p) as f: old = f.read()
        if old != text:
            tmp = p + ".%d" % os.getpid()
            with open(tmp, "w") as f: f.write(text)
            os.replace(tmp, p)
        rep[os.path.join(goroot, "src", rel)] = p
    for rel, subs in edits().items():
        with open(os.path.join(goroot, "src", rel)) as f: s = f.read()
        for old, new, count in subs:
            if s.count(old) < 1:
                sys.exit("gen.py: anchor not found in %s: %r" % (rel, old))
            if count == 1 and s.count(old) != 1 and not rel.endswith("select.go"):
                sys.exit("gen.py: anchor not unique in %s: %r (%d)" % (rel, old, s.count(old)))
            s = s.replace(old, new, -1 if count < 0 else 1)
        put(rel, s)
    with open(os.path.join(goroot, "src", "sync/atomic/type.go")) as f: s = f.read()
    put("sync/atomic/type.go", atomic_types(s))
    for rel, src in ADD.items():
        with open(os.path.join(HERE, src)) as f: put(rel, f.read())
    ov = os.path.join(out, "overlay.json")
    tmp = ov + ".%d" % os.getpid()
    with open(tmp, "w") as f: json.dump({"Replace": rep}, f, indent=1, sort_keys=True)
    os.replace(tmp, ov)
    print(ov)

main()

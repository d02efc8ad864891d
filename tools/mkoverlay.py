#!/usr/bin/env python3
"""mkoverlay.py OUT [STD_OVERLAY [NPOST]]: overlay for building /repo in the checks.
It shrinks the index writer's in-memory buffer (64 MB allocated per build, a
constant that bounds memory and not behaviour) and takes the 64 MB table of its
trigram set from fresh anonymous memory instead of the Go heap (same content, all
zero).  Each is left alone when not found.  With STD_OVERLAY, calls of functions of
sync/atomic become scheduling points."""
import json, os, re, sys

VMAKE = """package sparse

import (
	"syscall"
	"unsafe"
)

var vring [64][2]uintptr
var vnext int

// vmake returns fresh zeroed memory; the 64th oldest block is given back.
//go:norace
func vmake(max uint32) []uint32 {
	if max < 1<<16 {
		return make([]uint32, max)
	}
	n := uintptr(max) * 4
	p, _, e := syscall.RawSyscall6(syscall.SYS_MMAP, 0, n, 3, 0x4022, ^uintptr(0), 0)
	if e != 0 {
		return make([]uint32, max)
	}
	r := &vring[vnext%len(vring)]
	vnext++
	if r[0] != 0 {
		syscall.RawSyscall(syscall.SYS_MUNMAP, r[0], r[1], 0)
	}
	r[0], r[1] = p, n
	return (*(*[1 << 28]uint32)(*(*unsafe.Pointer)(unsafe.Pointer(&p))))[:max:max]
}
"""

def put(p, t):
    if not os.path.exists(p) or open(p, errors="surrogateescape").read() != t:
        with open(p + ".%d" % os.getpid(), "w", errors="surrogateescape") as f: f.write(t)
        os.replace(p + ".%d" % os.getpid(), p)

def main(out, std=None, npost="1 << 12"):
    rep = {}
    if std:
        rep = json.load(open(std))["Replace"]
    src = "/repo/codesearch/index/write.go"
    d = os.path.dirname(out)
    try:
        s = open(src).read()
        t, n = re.subn(r"(?m)^const npost = .*$", "const npost = " + npost, s)
        if n == 1:
            put(os.path.join(d, "write.go"), t)
            rep[src] = os.path.join(d, "write.go")
    except OSError:
        pass
    src = "/repo/codesearch/sparse/set.go"
    try:
        s = open(src).read()
        t, n = re.subn(r"make\(\[\]uint32, max\)", "vmake(max)", s)
        if n:
            put(os.path.join(d, "set.go"), t)
            put(os.path.join(d, "zz_vmake.go"), VMAKE)
            rep[src] = os.path.join(d, "set.go")
            rep["/repo/codesearch/sparse/zz_vmake.go"] = os.path.join(d, "zz_vmake.go")
    except OSError:
        pass
    if std:
        # a scheduling point in each call of a function of sync/atomic
        for dir, subs, files in os.walk("/repo"):
            subs[:] = [x for x in subs if x not in (".git", "node_modules", ".build")]
            for f in files:
                if not f.endswith(".go") or f.endswith("_test.go"):
                    continue
                src = os.path.join(dir, f)
                s = open(rep.get(src, src), errors="surrogateescape").read()
                m = re.search(r'(?m)^(?:import)?[ \t]*(\w+[ \t]+)?"sync/atomic"', s)
                if not m:
                    continue
                name = (m.group(1) or "atomic").strip()
                t, n = re.subn(r"\b" + name + r"\.((?:Load|Store|Add|Swap|CompareAndSwap|And|Or)(?:U?[Ii]nt(?:32|64)|Uintptr|Pointer)\()", name + r".V\1", s)
                if n:
                    p = os.path.join(d, os.path.relpath(src, "/repo").replace(os.sep, "__"))
                    put(p, t)
                    rep[src] = p
    with open(out + ".tmp", "w") as f: json.dump({"Replace": rep}, f, indent=1, sort_keys=True)
    os.replace(out + ".tmp", out)

main(*sys.argv[1:])

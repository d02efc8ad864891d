#!/usr/bin/env python3
"""Development aid (not used by any check): make and validate planted bugs.
  seed.py make SPEC.py     write /verif/seeded/<id>/ from the specs in SPEC.py
  seed.py valid [ID...]    validate in a scratch copy
  seed.py catch [ID...]    apply to /repo, run the property's quick check, undo"""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# run in the repository after a build: exit 0 when the property holds here
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$t/o.json"
mkdir "$t/tmp"
TMPDIR="$t/tmp" timeout 250 go test -vet=off -overlay "$t/o.json" -run '^TestDemo$' -count=1 %(flags)s ./%(pkg)s
"""
def sh(c, cwd=None, t=900):
    return subprocess.run(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, shell=isinstance(c, str))

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if os.environ.get("ONLY") and b["id"] not in os.environ["ONLY"].split(): continue
        d = os.path.join(S, b["id"])
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix="wt")
        sh(["git", "-C", "/repo", "worktree", "prune"])
        sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=x -c user.email=x commit -qm x" % (w, w))
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(b["id"], "edit matches", n, "times:", old); sys.exit(1)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", w, "diff"]).stdout)
        shutil.rmtree(w)
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        if "test" in b:
            open(os.path.join(d, "demo_test.go"), "w").write(b["test"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"pkg": b["pkg"], "flags": b.get("flags", "")})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])

def ids(a):
    return a or sorted(os.listdir(S))

def valid(a):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
    w = tempfile.mkdtemp(prefix="sv")
    r = os.path.join(w, "repo")
    for i in ids(a):
        if os.path.exists(r): shutil.rmtree(r)
        sh(["cp", "-a", "/repo", r])
        dd = os.path.join(w, "demo-" + i)
        if os.path.exists(dd): shutil.rmtree(dd)
        shutil.copytree(os.path.join(S, i), dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        c = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r)
        a1 = sh(["git", "apply", os.path.join(S, i, "patch.diff")], cwd=r)
        bld = sh(". /opt/vp/env.sh >/dev/null 2>&1; cd %s && go build ./... && go vet ./... >/dev/null 2>&1; go build ./..." % r)
        tst = sh(". /opt/vp/env.sh >/dev/null 2>&1; cd %s && go test ./... 2>&1" % r)
        d = sh(["bash", os.path.join(dd, "demo.sh")], cwd=r)
        ok = c.returncode == 0 and a1.returncode == 0 and bld.returncode == 0 and "FAIL" not in tst.stdout and d.returncode not in (0,)
        print(i, "OK" if ok else "BAD", "clean", c.returncode, "apply", a1.returncode, "build", bld.returncode, "tests", "FAIL" not in tst.stdout, "patched", d.returncode, flush=True)
        if not ok or os.environ.get("V"):
            print(c.stdout[-1500:], a1.stdout[-500:], bld.stdout[-800:], tst.stdout[-800:], d.stdout[-2500:])
        else:
            print("   ", "\n    ".join([l for l in d.stdout.splitlines() if l.strip()][:4]))
    shutil.rmtree(w)

def catch(a):
    for i in ids(a):
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        assert not sh("git -C /repo status --porcelain").stdout
        sh(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")])
        try:
            r = sh(["python3", "run.py", p, os.environ.get("TIER", "quick")], cwd=V)
        finally:
            sh("git -C /repo checkout -- .")
        hit = r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout
        print("%-28s %s %s" % (i, p, "caught" if hit else "MISSED (exit %d)" % r.returncode), flush=True)
        print("     ", "\n      ".join(r.stdout.splitlines()[:3 if hit else 10])[:900])

{"make": lambda a: [make(x) for x in a], "valid": valid, "catch": catch}[sys.argv[1]](sys.argv[2:])

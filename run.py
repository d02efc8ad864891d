#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide one property on /repo's working tree
   run.py --setup               build everything once
   run.py --manifest            write MANIFEST.json from tools/checks.py"""
import fcntl, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(V, ".cache")
REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools"))
import checks

T0 = time.time()
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + ENV.get("PATH", "")
NPROC = min(8, os.cpu_count() or 1)

def say(*a):
    print(*a, flush=True)

def ui_assets():
    """The part of the build that needs no npm package (ui/bindata.go embeds it)."""
    d = os.path.join(REPO, "ui/.build/ui")
    src = os.path.join(REPO, "ui/assets")
    if os.path.isdir(src):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src, d)

def sh(cmd, cwd=V, timeout=800, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

class BuildError(Exception):
    pass

def build(names):
    """Build the named engines from the working tree; returns their paths."""
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    out = {}
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ui_assets()
        std = os.path.join(CACHE, "vrt", "overlay.json")
        need_std = any(n in checks.VRT_ENGINES for n in names)
        if need_std:
            r = sh([sys.executable, "vrt/gen.py", os.path.join(CACHE, "vrt")])
            if r.returncode:
                raise BuildError(r.stdout)
        for n in names:
            if n == "vui":
                b = os.path.join(CACHE, "bin", n)
                with open(b, "w") as f:
                    f.write('#!/bin/sh\nexec node "%s/harness/js/vui.mjs" "$@"\n' % V)
                os.chmod(b, 0o755)
                out[n] = b
                continue
            vrt = n in checks.VRT_ENGINES
            ov = os.path.join(CACHE, "ov-%s" % ("vs" if vrt else "plain"), "o.json")
            os.makedirs(os.path.dirname(ov), exist_ok=True)
            r = sh([sys.executable, "tools/mkoverlay.py", ov] + ([std] if vrt else []))
            if r.returncode:
                raise BuildError(r.stdout)
            b = os.path.join(CACHE, "bin", n)
            cmd = ["go", "build", "-overlay", ov, "-o", b]
            if vrt:
                cmd += ["-tags", "vsched"]
            if n.endswith(".race"):
                cmd += ["-race"]
            if n == "houndd":
                cmd = ["go", "build", "-o", b, "github.com/hound-search/hound/cmds/houndd"]
            elif n == "hound":
                cmd = ["go", "build", "-o", b, "github.com/hound-search/hound/cmds/hound"]
            else:
                cmd += ["./cmd/" + n.split(".")[0]]
            r = sh(cmd, cwd=os.path.join(V, "harness"))
            if r.returncode:
                raise BuildError("%s: %s" % (n, r.stdout))
            out[n] = b
    return out

def known_findings():
    """Lines 'known: property=<id> key=<key> <what>' of KNOWN_FINDINGS."""
    out = {}
    try:
        for l in open(os.path.join(V, "KNOWN_FINDINGS")):
            if l.startswith("known: "):
                f = l.split(None, 3)
                pid = f[1].split("=", 1)[1]
                key = f[2].split("=", 1)[1]
                out.setdefault(pid, {})[key] = f[3].strip()
    except OSError:
        pass
    return out

def run_engine(cmd, secs, scratch):
    """Run one engine; returns (json or None, stderr)."""
    env = dict(ENV, HV_SCRATCH=scratch, TMPDIR=scratch, HV_BIN=os.path.join(CACHE, "bin"), HV_VERIF=V)
    p = subprocess.Popen(cmd, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=secs)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, "engine stopped after %d s\n" % secs + e.decode("utf8", "replace")[-2000:]
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    e = e.decode("utf8", "replace")
    try:
        return json.loads(o.decode("utf8", "replace")), e
    except ValueError:
        return None, "exit %s\n%s\n%s" % (p.returncode, o.decode("utf8", "replace")[-1000:], e[-3000:])

def main():
    if sys.argv[1] == "--setup":
        try:
            build(checks.ALL_ENGINES)
        except BuildError as e:
            say(str(e)[-3000:])
            return 1
        return 0
    if sys.argv[1] == "--manifest":
        json.dump(checks.manifest(V), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = checks.CHECKS[pid]
    jobs = checks.jobs(pid, tier)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 1 << 30 else (os.environ.get("TMPDIR") or "/tmp")
    scratch = os.path.join(base, "hv-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch)
    os.chmod(scratch, 0o755)
    def stop(*a):
        raise SystemExit(0)
    signal.signal(signal.SIGTERM, stop)
    try:
        return decide(pid, tier, seed, c, jobs, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, seed, c, jobs, scratch):
    hard = 800 if tier == "thorough" else 600
    try:
        bins = build(sorted({j["engine"] for j in jobs} | {n for j in jobs for n in j.get("needs", [])}))
    except BuildError as e:
        say("BUILD FAILED\n" + str(e)[-4000:])
        say("the harness does not build against this tree; nothing was decided")
        return 2
    known = known_findings().get(pid, {})
    res, errors, violations, findings = [], [], [], {}
    budget = c.get(tier + "_secs", 150 if tier == "quick" else 600)
    start = time.time()
    for i, j in enumerate(jobs):
        left = min(budget - (time.time() - start), hard - (time.time() - T0))
        if left < 3:
            res.append({"name": j["name"], "skipped": True, "exhaustive": False})
            continue
        # a job may use a fair share of what is left, and what earlier ones did not need
        w = j.get("weight", 1)
        share = max(4.0, left * w / sum(x.get("weight", 1) for x in jobs[i:]))
        if tier == "quick":
            share = max(share, left - 5.0 * (len(jobs) - i - 1))
        d = os.path.join(scratch, "j%d" % i)
        os.makedirs(d)
        os.chmod(d, 0o777)
        cmd = [bins[j["engine"]]] + [a.replace("{secs}", "%.1f" % share).replace("{dir}", d).replace("{nproc}", str(NPROC)) for a in j["args"]]
        r, err = run_engine(cmd, min(share + 330, max(30, 870 - (time.time() - T0))), d)
        shutil.rmtree(d, ignore_errors=True)
        if r is None:
            errors.append("%s: %s" % (j["name"], err))
            continue
        r["name"] = j["name"]
        r["what"] = j.get("what", "")
        if err.strip() and os.environ.get("HV_VERBOSE"):
            say(err)
        res.append(r)
        for v in r.get("Violations") or []:
            key = v.get("Key") or ""
            if key and key in known:
                findings[key] = known[key]
                continue
            violations.append((j, v))
        if violations:
            break
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    code = 0
    for k, what in sorted(findings.items()):
        say("KNOWN-FINDING: property=%s %s" % (pid, what))
    for n, (j, v) in enumerate(violations[:3]):
        p = os.path.join(V, "evidence", "replay-%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump({"property": pid, "job": j["name"], "command": "see DESIGN.md, 'Replaying'", "args": j["args"], "violation": v}, f, indent=1)
        for w in v.get("What", [])[:6]:
            say("  " + str(w)[:600])
        say("VIOLATION property=%s replay=%s" % (pid, p))
        code = 1
    ev = evidence(pid, tier, seed, c, res, len(violations), errors)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if errors:
        for e in errors:
            say("ENGINE ERROR", e[-3000:])
        if code == 0:
            return 2
    cov = ev["coverage"]
    say("%s %s: %s, %s states, %s transitions, %s executions of the implementation, exhaustive within bounds: %s, %.1f s" % (
        pid, tier, "held" if code == 0 else "BROKEN", cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["exhaustive"], ev["wall_s"]))
    return code

def evidence(pid, tier, seed, c, res, nviol, errors):
    states = sum(r.get("States", 0) for r in res)
    trans = sum(r.get("Transitions", 0) for r in res)
    traces = sum(r.get("Traces", 0) for r in res)
    samples = []
    for r in res:
        for s in (r.get("Samples") or [])[:2]:
            if len(samples) < 12:
                samples.append("%s: %s" % (r["name"], s[:700]))
    return {
        "property": pid, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"),
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": traces,
            "evaluations": sum(r.get("Checks", 0) for r in res),
            "samples": samples or ["none"],
            "exhaustive": bool(res) and not errors and all(not r.get("Capped") and not r.get("skipped") for r in res),
            "counting": checks.COUNTING,
            "jobs": [{k: r[k] for k in ("name", "what", "States", "Transitions", "Traces", "Checks", "Bound", "PerLevel", "Capped", "Frontier", "Outcomes", "Diverged", "Overflows", "Unconfirmed", "Notes", "skipped", "WallS") if k in r and r[k] not in (None, "")} for r in res],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": nviol,
    }

sys.exit(main())

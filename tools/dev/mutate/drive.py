#!/usr/bin/env python3
"""Development aid (not used by any check): runs single-point mutants against the checks, in isolated
copies of /repo and /verif (user namespaces), several at once.
  drive.py OUT WORKERS SEED 'FILE:N:PROP PROP…' …   N mutants of FILE at random (0: all), checks in order until one catches it
Each line of OUT: verdict (UNBUILT, TESTS, CAUGHT <prop>, SURVIVED, TIMEOUT <prop>), place, what."""
import json, os, random, subprocess, sys, threading, time, queue
SKIP = {"dumpPosting", "uvarint", "File", "AddFile", "grepFile", "grep", "String", "Grep", "AddFlags", "makeTemplateData", "runHttp", "countNL", "reportOnMemory", "getVersion"}
BASE = "/dev/shm/mud"
W = """
set -e
mount --bind %(d)s/repo /repo; mount --bind %(d)s/verif /verif; mkdir -p %(d)s/tmp
export TMPDIR=%(d)s/tmp
exec python3 %(me)s --worker
"""
def sh(c, t=600):
    p = subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return -9, "timeout"

def one(m):
    f = "/repo/" + m["File"]
    s = open(f, "rb").read()
    try:
        open(f, "wb").write(s[:m["Off"]] + m["New"].encode() + s[m["End"]:])
        pkg = os.path.dirname(m["File"])
        rc, o = sh("bash -c '. /opt/vp/env.sh >/dev/null 2>&1; cd /repo && go build ./... '", 120)
        if rc: return "UNBUILT", ""
        rc, o = sh("bash -c '. /opt/vp/env.sh >/dev/null 2>&1; cd /repo && go test -vet=off -timeout 60s ./%s/... ./index ./searcher ./api ./client ./config'" % pkg, 120)
        if rc: return "TESTS", ""
        for p in m["props"]:
            rc, o = sh("cd /verif && python3 run.py %s quick" % p, 400)
            if rc == 1 and "VIOLATION" in o: return "CAUGHT", p
            if rc == -9: return "TIMEOUT", p
            if rc: return "RC%d" % rc, p + " " + o[-300:].replace("\n", "|")
        return "SURVIVED", ""
    finally:
        open(f, "wb").write(s)


if sys.argv[1] == "--worker":
    for l in sys.stdin:
        t = time.time()
        v = one(json.loads(l))
        print(json.dumps([v, time.time() - t]), flush=True)
    sys.exit()
out, workers, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
sh("cd %s && GO111MODULE=off go build -o /tmp/mutgen main.go" % os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(seed)
q = queue.Queue()
todo = []
for spec in sys.argv[4:]:
    f, n, props = spec.split(":")
    l = json.loads(subprocess.run(["/tmp/mutgen", f], cwd="/repo", capture_output=True, text=True).stdout)
    l = [m for m in l if m["Func"] not in SKIP and "log." not in m["What"][:14] and "Verbose" not in m["What"] and "LogSkip" not in m["What"]]
    rnd.shuffle(l)
    if int(n): l = l[:int(n)]
    for m in l: m["props"] = props.split()
    todo += l
rnd.shuffle(todo)
def line(m): return "%s:%d %s: %s\n" % (m["File"], m["Line"], m["Func"], m["What"].replace("\n", " ")[:200])
seen = open(out).read() if os.path.exists(out) else ""
for m in todo:
    if line(m) not in seen: q.put(m)
lock = threading.Lock()
def work(i):
    d = "%s%d" % (BASE, i)
    os.makedirs(d + "/repo", exist_ok=True); os.makedirs(d + "/verif", exist_ok=True)
    sh("rsync -a --delete /repo/ %s/repo/; git -C %s/repo checkout -q -- .; rsync -a --delete --exclude evidence --exclude .git /verif/ %s/verif/; mkdir -p %s/verif/evidence" % (d, d, d, d))
    p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", W % {"d": d, "me": "/verif/tools/dev/mutate/drive.py"}], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p.stdin.write(json.dumps(m) + "\n"); p.stdin.flush()
        l = p.stdout.readline()
        if not l: break
        (v, extra), t = json.loads(l)
        with lock:
            open(out, "a").write("%-9s %-4s %4ds " % (v, extra, t) + line(m))
    p.stdin.close(); p.wait()
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
for t in ts: t.start()
for t in ts: t.join()

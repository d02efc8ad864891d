#!/usr/bin/env python3
"""mut.py FILE.py [ids…]: mutation runs. FILE defines M list of (id, props, [(file,old,new)…])"""
import sys,subprocess,os,time
M=[]
exec(open(sys.argv[1]).read())
want=sys.argv[2:]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for mid,props,edits in M:
    if want and mid not in want and not any(w in props for w in want): continue
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    try:
        bad=None
        for f,o,n in edits:
            p="/repo/"+f; s=open(p).read()
            if s.count(o)!=1: bad="count %d of %r in %s"%(s.count(o),o,f);break
            open(p,"w").write(s.replace(o,n))
        if bad: print(mid,"BADEDIT",bad,flush=True); continue
        b=sh("bash -c '. /opt/vp/env.sh >/dev/null 2>&1; cd /repo && go build ./... && go vet ./index ./searcher 2>&1 | tail -3'")
        if b.returncode: print(mid,"NOBUILD",b.stderr[-300:],flush=True); continue
        t=sh("bash /opt/vp/test.sh /tmp/mo.json 2>&1 | tail -1").stdout.strip()
        for pr in props.split():
            t0=time.time()
            r=sh("cd /verif && python3 run.py %s quick"%pr,timeout=1000)
            v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%-28s %-4s %-7s rc=%d %3ds tests:%s %s"%(mid,pr,"CAUGHT" if r.returncode==1 and v else "MISSED",r.returncode,time.time()-t0,t[-30:],""),flush=True)
            if r.returncode not in(0,1): print(r.stdout[-500:],r.stderr[-500:])
    finally:
        sh("git -C /repo checkout -- .")

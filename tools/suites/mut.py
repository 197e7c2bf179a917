#!/usr/bin/env python3
"""mut.py CHECKS file old new [count] : apply to scratch copy, build, run checks, show result"""
import sys,subprocess,shutil,os
def mut(checks, edits, label=""):
    os.makedirs(f"/tmp/mx{os.getpid()}",exist_ok=True); d=f"/tmp/mx{os.getppid() if 0 else os.getpid()}/repo"
    subprocess.run(["rsync","-a","--delete","/repo/",d+"/"],check=False) if shutil.which("rsync") else (shutil.rmtree(d,ignore_errors=True),shutil.copytree("/repo",d,symlinks=True))
    for f,o,n,*c in edits:
        p=os.path.join(d,f); s=open(p).read()
        if c and c[0]=="all":
            assert o in s,(f,o); s=s.replace(o,n)
        else:
            k=c[0] if c else 0
            parts=s.split(o); assert len(parts)>k+1,(f,o,len(parts))
            s=o.join(parts[:k+1])+n+o.join(parts[k+1:])
        open(p,"w").write(s)
    b=subprocess.run("go build ./... && go vet ./... 2>&1 | head -5",shell=True,cwd=d,capture_output=True,text=True,env={**os.environ,"GOFLAGS":""})
    if b.returncode: print(label,"BUILD FAIL",b.stderr[:800]); return
    out=[]
    for c in checks.split():
        r=subprocess.run(["bash","/tmp/c.sh",c,d],capture_output=True,text=True,env={**os.environ,"GOFLAGS":"","D":""})
        ls=[l for l in r.stdout.splitlines() if l.strip()]
        out.append(f"{c}:{'OK' if r.returncode==0 else 'VIOL'} "+("" if r.returncode==0 else " | ".join(l[:120] for l in [y for y in ls if not y.startswith("KNOWN") and not y.startswith("VIOL")][:1])))
    print(label,"=>","; ".join(out))
import atexit
atexit.register(lambda: shutil.rmtree(f"/tmp/mx{os.getpid()}",ignore_errors=True))

"""refactoring suite: every entry keeps behaviour; all checks must stay OK"""
import sys,subprocess,shutil,os,tempfile,glob as G,concurrent.futures as F
ALL=os.environ.get("CHECKS") or "C01 C02 C03 C04 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16"
sel=sys.argv[1] if len(sys.argv)>1 else ""
cases=[]
def r(label,*edits): cases.append((label,edits))
for f in sorted(G.glob("/tmp/rfm/*.py")): exec(open(f).read())
def run(c):
    label,edits=c
    d=tempfile.mkdtemp(prefix="/tmp/rfx.")
    try:
        subprocess.run(["cp","-a","/repo",d+"/repo"]); d2=d+"/repo"
        for f,o,n,*k in edits:
            p=d2+"/"+f; s=open(p).read()
            if k and k[0]=="all":
                if o not in s: return label+" => BADEDIT "+o[:50]
                s=s.replace(o,n)
            else:
                i=k[0] if k else 0; parts=s.split(o)
                if len(parts)<=i+1: return label+" => BADEDIT "+o[:60]
                s=o.join(parts[:i+1])+n+o.join(parts[i+1:])
            open(p,"w").write(s)
        e={**os.environ,"GOFLAGS":"-mod=mod","GOTOOLCHAIN":"local","GOPROXY":"off"}
        b=subprocess.run("gofmt -l . | head -3; go build ./... && go test -vet=off -count=1 ./glob ./gglob ./gtags ./expand ./pkg/... 2>&1 | grep -E '^(---|FAIL|panic)' | head -5",shell=True,cwd=d2,capture_output=True,text=True,env=e)
        out=""
        if b.returncode and b.stderr: return label+" => BUILD "+b.stderr[:500]
        if "FAIL" in b.stdout: out="[TESTS FAIL] "
        res=[]
        for c in ALL.split():
            x=subprocess.run(["timeout",os.environ.get("PT","300"),os.environ.get("AN","/tmp/an"),"-prop",c,"-repo",d2,"-verif","/verif"],capture_output=True,text=True,env={**os.environ,"GOFLAGS":"","VERIF_EVIDENCE":d+"/ev"})
            if x.returncode:
                ls=[l for l in x.stdout.splitlines() if l.strip() and not l.startswith(("KNOWN","VIOL"))]
                res.append(c+": "+(ls[0][:230] if ls else x.stderr[:200]))
        return label+" => "+out+("; ".join(res) if res else "ok")
    finally: shutil.rmtree(d,ignore_errors=True)
with F.ThreadPoolExecutor(int(os.environ.get("W","6"))) as ex:
    bad=0
    for o in ex.map(run,[c for c in cases if sel in c[0]]):
        print(o,flush=True)
    print("cases",len(cases),"bad",bad)

"""Helper for planting bugs: S(id, prop, file-edits, ...) builds a mutant in /tmp/mut, confirms it, keeps it under /verif/seeded/<id>/."""
import json, os, re, shutil, subprocess, sys
BASE="89eefdc"
MUT=os.environ.get("MUT","/tmp/mut"); MB=MUT+"build"
def sh(c, cwd=None, t=900):
    try: r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return 124,"timeout"
def reset():
    if not os.path.isdir(MUT+"/.git"): 
        sh(f"rm -rf {MUT}; git clone -q /repo {MUT}")
    sh("git fetch -q origin && git reset -q --hard origin/HEAD",MUT)
    if not os.path.isdir(MB):
        sh(f"mkdir -p {MB}/h && cp /opt/vp/harness/* {MB}/h/ && sed -i 's|set(REPO /repo)|set(REPO {MUT})|' {MB}/h/CMakeLists.txt && CXX=clang++-18 cmake -S {MB}/h -B {MB}/b -G Ninja")
def stable():
    rc,o=sh(f"ninja -C {MB}/b")
    if rc: return "build failed: "+o[-800:]
    for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        n = t if isinstance(t,str) else t.get("name",t)
        rc,o=sh(f"timeout -k 5 120 {MB}/b/driver {n}")
        if rc: return f"stable test {n} failed: {o[-300:]}"
    return None
DEMO='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the guarantee holds; otherwise it is broken.
D=$(cd "$(dirname "$0")" && pwd) || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
clang++-18 -std=gnu++17 -DNDEBUG -g1 -O1 -w FLAGS -include "$D/linux_compat.h" -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -lz -lnuma -lpthread LIBS || exit 3
cd "$T" || exit 2
TMPDIR=$T timeout 120 ./demo
'''
def S(id, prop, edits, needs, breaks, demo, flags="", libs="", check=True, args=""):
    """edits: [(file, old, new)]"""
    reset()
    for f,a,b in edits:
        p=f"{MUT}/include/stdex/{f}"; s=open(p,newline='').read()
        if s.count(a)!=1: print(id,"PATTERN COUNT",s.count(a),repr(a[:80])); return False
        open(p,"w",newline='').write(s.replace(a,b))
    rc,diff=sh("git diff",MUT)
    # lines removed must be original ones
    mine=orig=0
    for f in {e[0] for e in edits}:
        rc,bl=sh(f"git blame -s HEAD -- include/stdex/{f}",MUT); bl=bl.split("\n")
        rc,d=sh(f"git diff -U0 -- include/stdex/{f}",MUT)
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ",d,re.M):
            n=int(m[2]) if m[2] is not None else 1
            for l in range(int(m[1]),int(m[1])+n):
                c=bl[l-1].split()[0].lstrip("^")
                r,_=sh(f"git merge-base --is-ancestor {c} {BASE}",MUT)
                if r==0: orig+=1
                else: mine+=1
    D=f"/verif/seeded/{id}"; os.makedirs(D,exist_ok=True)
    open(D+"/patch.diff","w",newline='').write(subprocess.run("git diff",shell=True,cwd=MUT,stdout=subprocess.PIPE).stdout.decode("utf-8-sig" if 0 else "utf-8"))
    open(D+"/demo.cpp","w").write(demo)
    open(D+"/demo.sh","w").write(DEMO.replace("FLAGS",flags).replace("LIBS",libs)); os.chmod(D+"/demo.sh",0o755)
    shutil.copy("/opt/vp/harness/linux_compat.h",D)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(D+"/meta.json","w"),indent=1)
    r0,o0=sh(f"bash {D}/demo.sh","/repo",300)
    r1,o1=sh(f"bash {D}/demo.sh",MUT,300)
    st=stable()
    ok = r0==0 and r1!=0 and r1!=3 and st is None and orig>0
    res=None; out=""
    if ok and check:
        rc,out=sh(f"VERIF_REPO={MUT} ./run.sh {prop} quick {args}","/verif",900)
        res = rc==1 and f"VIOLATION property={prop}" in out
        rj="/verif/tools/seed_results.json"; R=json.load(open(rj)) if os.path.exists(rj) else {}
        m=re.findall(r"VIOLATION property=\S+ replay=\S*/\w+-(\w+)\.replay",out)
        R[id]=dict(property=prop,caught=res,by=sorted(set(m)))
        json.dump(R,open(rj,"w"),indent=1,sort_keys=True)
    print(f"{id}: valid={ok} (demo {r0}/{r1} lines orig={orig} mine={mine} stable={st}) caught={res}")
    if not ok: print(o0[-600:],"\n--mut--\n",o1[-600:]); shutil.rmtree(D)
    elif check and not res: print(out[-800:])
    sys.stdout.flush()
    return ok

"""plant(id, prop, needs, breaks, edits, demo): make and validate a planted bug."""
import json, os, subprocess, shutil, sys, glob
SEED="/verif/seeded"
DEMO_SH='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/fluent.syntax:$PWD/fluent.runtime:$PWD/fluent.pygments:$PWD/fluent.docs
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
def sh(cmd, cwd, timeout=300, env=None):
    try:
        p=subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env)
        return p.returncode,p.stdout.decode("utf-8","replace")
    except subprocess.TimeoutExpired as e:
        return 124,"timeout"
def copy(name):
    d=f"/tmp/w/copies/{name}"
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs("/tmp/w/copies",exist_ok=True)
    subprocess.run(["cp","-a","/repo",d],check=True)
    return d
def tests(d):
    pp=":".join(f"{d}/{p}" for p in ("fluent.syntax","fluent.runtime","fluent.pygments","fluent.docs"))
    env=dict(os.environ,PYTHONPATH=pp,TZ="UTC",PYTHONHASHSEED="0",PYTHONDONTWRITEBYTECODE="1",LANG="C.UTF-8")
    tot="";ok=True
    for p in ("fluent.syntax","fluent.runtime","fluent.pygments"):
        rc,out=sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=300 2>&1 | tail -6",f"{d}/{p}",env=env)
        last=out.strip().splitlines()[-1]
        tot+=last+" | "
        if "failed" in last or "error" in last or "passed" not in last: ok=False;tot+=out
    return ok,tot
def plant(id,prop,needs,breaks,edits,demo,extra=None,demo_sh=None):
    d=copy(id)
    try:
        for f,old,new in edits:
            s=open(f"{d}/{f}").read()
            if s.count(old)!=1: print(id,"EDIT MISMATCH",f,s.count(old),repr(old[:60]));return False
            open(f"{d}/{f}","w").write(s.replace(old,new))
        rc,diff=sh("git diff",d)
        b=f"{SEED}/{id}"
        shutil.rmtree(b,ignore_errors=True);os.makedirs(b)
        open(b+"/patch.diff","w").write(diff)
        open(b+"/demo.sh","w").write(demo_sh or DEMO_SH); os.chmod(b+"/demo.sh",0o755)
        if demo: open(b+"/demo.py","w").write(demo.lstrip("\n"))
        for k,v in (extra or {}).items(): open(b+"/"+k,"w").write(v)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(b+"/meta.json","w"),indent=1)
        return verify(id,d)
    finally:
        shutil.rmtree(d,ignore_errors=True)
def verify(id,d):
    b=f"{SEED}/{id}"
    ok,t=tests(d)
    if not ok: print(id,"TESTS FAIL",t)
    # demo elsewhere
    e=f"/tmp/w/demos/{id}"; shutil.rmtree(e,ignore_errors=True); shutil.copytree(b,e)
    for x in ("patch.diff","meta.json"): os.remove(e+"/"+x)
    r1,o1=sh(f"bash {e}/demo.sh",d)
    r0,o0=sh(f"bash {e}/demo.sh","/repo")
    shutil.rmtree(e,ignore_errors=True)
    good=ok and r1!=0 and r0==0
    print(id,"OK" if good else "BAD","demo patched",r1,"clean",r0, "" if good else (o1[-600:]+"---"+o0[-600:]))
    if good: print("   ",o1.strip().splitlines()[-1][:150] if o1.strip() else "")
    return good
def check(ids=None, prop=None, env=None):
    """run property's checks against patched copies"""
    for b in sorted(glob.glob(SEED+"/*")):
        id=os.path.basename(b)
        if ids and id not in ids: continue
        m=json.load(open(b+"/meta.json"))
        d=copy(id)
        try:
            rc,o=sh(f"git apply {b}/patch.diff",d)
            if rc: print(id,"DOES NOT APPLY",o);continue
            for p in ([m["property"]] if not prop else prop):
                rc,o=sh(f"/opt/venv/bin/python -m dst check {p}","/verif",900,dict(os.environ,VERIF_REPO=d,VERIF_SEED=os.environ.get("VERIF_SEED","1"),VERIF_TIER="quick",VERIF_OUT="/tmp/w/plantout",VERIF_MINIMISE="2"))
                v=[l for l in o.splitlines() if l.startswith("VIOLATION")]
                idx=[l for l in o.splitlines() if l.startswith("index")]
                note(id,p,rc==1 and bool(v))
                print(id,p,"CAUGHT" if rc==1 and v else f"MISSED rc={rc}", (idx[0][:110] if idx else o[-200:].replace("\n"," / ")), flush=True)
        finally:
            shutil.rmtree(d,ignore_errors=True)
def note(id,p,hit):
    f="/verif/tools/caught.json"
    c=json.load(open(f)) if os.path.exists(f) else {}
    have=set(x for x in c.get(id,"").split(", ") if x and x!="nothing")
    (have.add if hit else have.discard)(p)
    c[id]=", ".join(sorted(have)) or "nothing"
    json.dump(c,open(f,"w"),indent=1,sort_keys=True)
if __name__=="__main__":
    if sys.argv[1]=="check": check(sys.argv[2:] or None)
    elif sys.argv[1]=="checkall": check(sys.argv[3:] or None, prop=sys.argv[2].split(","))
    elif sys.argv[1]=="verify":
        for b in sorted(glob.glob(SEED+"/*")):
            id=os.path.basename(b)
            if sys.argv[2:] and id not in sys.argv[2:]: continue
            d=copy(id)
            rc,o=sh(f"git apply {b}/patch.diff",d)
            if rc: print(id,"DOES NOT APPLY",o)
            else: verify(id,d)
            shutil.rmtree(d,ignore_errors=True)

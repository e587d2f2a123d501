#!/usr/bin/env python3
"""mkseed.py SPEC: plants one bug in a scratch copy, confirms it and keeps it in seeded/.

SPEC is a Python file defining id, prop, edits [(file, old, new)], test (C++ text), needs, breaks.
Confirms: the demonstration passes on the unchanged tree and fails with the change, the tree
builds and the baseline tests pass with it; reports what the check says."""
import sys,os,subprocess,json,shutil,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT=os.path.join(V,"tools","seedkit")
def sh(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main(spec,tests=True):
    g={}; exec(open(spec).read(),g)
    sid,prop=g["id"],g["prop"]
    T="/tmp/seedtree"
    shutil.rmtree(T,ignore_errors=True)
    sh(["git","clone","-q","/repo",T])
    for f,old,new in g["edits"]:
        p=os.path.join(T,f); s=open(p).read()
        if s.count(old)!=1: print(sid,"EDIT matches",s.count(old),"times in",f); return 1
        open(p,"w").write(s.replace(old,new))
    d=os.path.join(V,"seeded",sid); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree(os.path.join(KIT,"stubs"),os.path.join(d,"stubs"))
    for x in("impl.cpp","demo.sh"): shutil.copy(os.path.join(KIT,x),d)
    os.chmod(os.path.join(d,"demo.sh"),0o755)
    open(os.path.join(d,"t.cpp"),"w").write(g["test"])
    open(os.path.join(d,"patch.diff"),"w").write(subprocess.check_output(["git","-C",T,"diff"],text=True))
    json.dump(dict(property=prop,needs=g["needs"],what_it_breaks=g["breaks"]),open(os.path.join(d,"meta.json"),"w"),indent=1)
    demo=os.path.join(d,"demo.sh")
    a=sh(["bash",demo],cwd="/repo"); b=sh(["bash",demo],cwd=T)
    ok=a.returncode==0 and b.returncode not in(0,3,4)
    print(sid,"demo clean rc",a.returncode,"patched rc",b.returncode,"OK" if ok else "BAD")
    if not ok: print(a.stdout[-700:]); print("----"); print(b.stdout[-700:])
    props=[prop]+g.get("also",[])
    for p in props:
        r=sh([os.path.join(V,"check.sh"),p],env=dict(os.environ,RAFT_REPO=T)); print("  check",p,"rc",r.returncode); print("   "+"\n   ".join(l[:200] for l in r.stdout.splitlines()[1:3]))
    if tests:
        print("  lines blame: ",end="")
        base=subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"],text=True).strip()
        import io
        own=0
        for f,old,new in g["edits"]:
            s=open(os.path.join("/repo",f)).read(); i=s.index(old); l0=s[:i].count("\n")+1; l1=l0+old.rstrip("\n").count("\n")
            bl=subprocess.check_output(["git","-C","/repo","blame","-L%d,%d"%(l0,l1),"--abbrev=40","-s",f],text=True)
            own+=sum(1 for l in bl.splitlines() if not l.lstrip("^").startswith(base[:20]))
        print("own lines touched:",own)
        try:
            subprocess.check_call(["git","-C","/repo","apply",os.path.join(d,"patch.diff")])
            r=sh(["bash","/opt/vp/test.sh","/tmp/seed.json"])
            o=json.load(open("/tmp/seed.json")); print("  tests passed",len(o["passed"]),"failed",o["failed"])
        finally:
            subprocess.check_call(["git","-C","/repo","checkout","--","."])
    shutil.rmtree(T,ignore_errors=True)
    return 0
if __name__=="__main__":
    for x in sys.argv[1:]:
        if not x.startswith("-"): main(x,"--notest" not in sys.argv)

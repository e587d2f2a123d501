"""Check context: obligations, findings, evidence, exit code."""
import json, os, sys, time, traceback, importlib
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
sys.path[:0]=[HERE,os.path.join(VERIF,"rules")]
import build
from build import AnalysisError

class Ctx:
    def __init__(s,prop,tier):
        s.prop=prop; s.tier=tier; s.obs=[]; s.funcs=set(); s.notes=[]; s.rules={}
    def load(s,profile): return build.load(profile)
    def rule(s,rid,text): s.rules[rid]=text
    def ob(s,rid,site,ok,msg="",key=None,path=None):
        """one obligation: rule rid at site (text), satisfied or not"""
        s.obs.append(dict(rule=rid,site=str(site),ok=bool(ok),msg=msg,key=key or (rid+"|"+str(site)),path=path))
    def fn(s,*fs):
        for f in fs: s.funcs.add(f.dem[:200])
    def need(s,xs,what,minimum=1):
        if len(xs)<minimum: raise AnalysisError("%s: found %d, expected at least %d"%(what,len(xs),minimum))
        return xs

def known():
    p=os.path.join(VERIF,"known_findings.json")
    if not os.path.exists(p): return []
    return json.load(open(p)).get("findings",[])

def main(argv):
    prop=argv[1]; tier=os.environ.get("VERIF_TIER","quick")
    if "--thorough" in argv: tier="thorough"
    elif "--quick" in argv: tier="quick"
    if tier=="thorough":
        import paths; paths.DEEPER=2
    t0=time.time()
    cat={json.loads(l)["id"]:json.loads(l) for l in open(os.path.join(VERIF,"properties.jsonl"))}
    c=Ctx(prop,tier)
    try:
        mod=importlib.import_module("p_"+prop.lower())
        mod.run(c)
        cnt={}
        for o in c.obs: cnt[o["rule"]]=cnt.get(o["rule"],0)+1
        for r,n in getattr(mod,"MIN",{}).items():
            if cnt.get(r,0)<n: raise AnalysisError("rule %s: %d instances, expected at least %d"%(r,cnt.get(r,0),n))
        if not c.obs: raise AnalysisError("no obligations")
    except AnalysisError as e:
        bad=[o for o in c.obs if not o["ok"]]
        kn={(k["property"],k["key"]) for k in known()}
        if not [o for o in bad if (prop,o["key"]) not in kn]:
            print("ANALYSIS-ERROR property=%s %s"%(prop,e)); return 2
        c.notes.append("analysis incomplete: %s"%e)
        cnt={}
        for o in c.obs: cnt[o["rule"]]=cnt.get(o["rule"],0)+1
    kn={(k["property"],k["key"]):k for k in known()}
    bad=[o for o in c.obs if not o["ok"]]
    vio={}; seen=set()
    for o in bad:
        k=(prop,o["key"])
        if k in kn: seen.add(k)
        else: vio.setdefault(o["key"],o)
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s"%(prop,kn[k]["what"]))
    ev=os.environ.get("RAFT_EVIDENCE") or os.path.join(VERIF,"evidence"); os.makedirs(ev,exist_ok=True)
    rp=os.path.join(ev,prop+".report.txt")
    with open(rp,"w") as f:
        f.write("property %s: %s\n"%(prop,cat.get(prop,{}).get("title","")))
        for r,t in sorted(c.rules.items()): f.write("rule %s (%d instances): %s\n"%(r,cnt.get(r,0),t))
        for o in vio.values():
            f.write("\nVIOLATION rule=%s site=%s\n  %s\n"%(o["rule"],o["site"],o["msg"]))
            if o["path"]: f.write("  path (source lines): %s\n"%" -> ".join(map(str,o["path"])))
        f.write("\nobligations:\n")
        for o in c.obs: f.write("%s %s %s\n"%("ok  " if o["ok"] else "FAIL",o["rule"],o["site"]))
    doc=dict(property=prop,tier=tier,seed=int(os.environ.get("VERIF_SEED","1")),level="other",
        coverage=dict(
            explanation="static analysis of the IR translated from /repo's current sources; every obligation is one rule at one program point, function or path set; sites are listed in evidence/%s.report.txt"%prop,
            obligations=len(c.obs),discharged=sum(o["ok"] for o in c.obs),
            functions_analysed=len(c.funcs),
            functions=sorted(c.funcs)[:60],
            rules={r:dict(text=t,instances=cnt.get(r,0)) for r,t in c.rules.items()},
            known_findings=[kn[k]["key"] for k in sorted(seen)],
            notes=c.notes),
        wall_s=round(time.time()-t0,3),
        assumptions=["element special members and memory allocation do not throw",
                     "the probe element types stand for all element types of their storage class",
                     "templates are analysed as instantiated in frontend/inst.cpp"],
        violations=[dict(rule=o["rule"],site=o["site"],message=o["msg"],key=o["key"],path=o["path"]) for o in vio.values()])
    json.dump(doc,open(os.path.join(ev,prop+".json"),"w"),indent=1)
    print("%s: %d obligations in %d functions, %d violated, %d known (%.1fs)"%(prop,len(c.obs),len(c.funcs),len(vio),len(seen),time.time()-t0))
    for o in vio.values(): print("  %s at %s: %s%s"%(o["rule"],o["site"],o["msg"]," [lines %s]"%o["path"] if o["path"] else ""))
    if vio:
        print("VIOLATION property=%s replay=%s"%(prop,rp)); return 1
    return 0

if __name__=="__main__":
    sys.setrecursionlimit(20000)
    try: rc=main(sys.argv)
    except Exception:
        traceback.print_exc(); rc=3
    sys.exit(rc)

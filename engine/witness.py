"""Compile-time witnesses: static_asserts whose message starts with a rule id.

The witness unit is type-checked (never run) against the current sources.  A
failing assertion is a violation of the rule it names; any other error means
that the library no longer offers what the witness speaks about."""
import os, re, hashlib, json
import build
from build import AnalysisError

def asserts(path):
    t=open(path).read()
    return re.findall(r'"([A-Z]\d\d\.[\w.]+)\|([^"]*)"',t)

def check(name,extra=()):
    """(list of (rule, text, ok)), from /verif/frontend/<name>.cpp"""
    src=os.path.join(build.FRONT,name+".cpp")
    out=os.path.join(build.CACHE,"wit-%s-%s-%s.json"%(name,"".join(extra).replace("/","_"),build.treekey()))
    if os.path.exists(out): return [tuple(x) for x in json.load(open(out))]
    r=build.run(["clang++"]+[x for x in build.BASE if not any(x.split("=")[0]==e.split("=")[0] for e in extra)]+list(extra)+build.inc()+["-w","-fsyntax-only","-ferror-limit=0","-fdiagnostics-color=never",src])
    bad=set(); other=[]
    for l in r.stdout.splitlines():
        m=re.search(r"error: (.*)$",l)
        if not m: continue
        k=re.search(r"static assertion failed.*?([A-Z]\d\d\.[\w.]+\|.*?)\s*$",m[1])
        if k: bad.add(k[1].strip().strip('"'))
        else: other.append(l)
    if other: raise AnalysisError("witness %s does not type-check: %s"%(name,other[0][:400]))
    if r.returncode and not bad: raise AnalysisError("witness %s: %s"%(name,r.stdout[:400]))
    al=asserts(src)
    if not al: raise AnalysisError("witness %s has no assertions"%name)
    known={"%s|%s"%x for x in al}
    for b in bad:
        if b not in known: raise AnalysisError("unexpected assertion: "+b)
    res=[(a,b,"%s|%s"%(a,b) not in bad) for a,b in al]
    os.makedirs(build.CACHE,exist_ok=True)
    json.dump(res,open(out+".t","w")); os.replace(out+".t",out)
    return res

def report(c,name,extra=()):
    for rid,txt,ok in check(name,extra):
        c.ob(rid,"frontend/%s.cpp%s: %s"%(name," ".join(("",)+tuple(extra)),txt),ok,"the types say otherwise: "+txt,key=rid+"|"+txt)

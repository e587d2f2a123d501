#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the catalogue and the rule modules present."""
import json, os, sys
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
sys.path[:0]=[os.path.join(V,"engine"),os.path.join(V,"rules")]
import importlib
NA={
"N01":"linearizability under arbitrary interleavings and weak memory is a statement about value histories of two threads; the static protocol rules F01-F04 and F09 cover the per-thread obligations, the global claim needs model checking",
"N02":"liveness: no sound static argument in reach bounds the waiting of an arbitrary graph under an arbitrary schedule",
"N03":"numerical accuracy of floating point results over all inputs is a quantity no static rule here can bound",
"N04":"the shared memory transport needs the shm dependency, which is absent here, so its sources cannot be translated; the behaviour spans two processes",
"N05":"throughput is a runtime quantity",
}
TECH="static analysis of the LLVM IR translated from the current sources: "
P=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[];na=[]
for p in P:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if not os.path.exists(os.path.join(V,"rules","p_%s.py"%i.lower())):
        na.append(dict(property=i,reason="no rule has been built for it yet")); continue
    m=importlib.import_module("p_"+i.lower())
    checks.append(dict(property=i,quick_cmd="./check.sh %s --quick"%i,thorough_cmd="./check.sh %s --thorough"%i,
        technique=TECH+getattr(m,"TECH","typestate walk over all paths of the inlined stream operations"),
        level="other",
        level_note=getattr(m,"NOTE","rules decided on every path of every analysed specialisation; sound for the stated rules, not a proof of the whole statement")))
d=dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=na,
  notes="All checks translate /repo's current sources (src/*.cpp and frontend/inst.cpp, which instantiates the templates) to LLVM IR with clang and decide rules on it; nothing of RaftLib is executed. Known findings and repaired defects: known_findings.json.")
json.dump(d,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")

#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property from the rule
modules, the last evidence and the catalogue, the catches, tools/design_tail.md."""
import json,os,sys,importlib
H=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(H)
sys.path[:0]=[os.path.join(V,"engine"),os.path.join(V,"rules"),H]
from design_notes import WHY
P=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
M=json.load(open(os.path.join(V,"MANIFEST.json")))
K=json.load(open(os.path.join(V,"known_findings.json")))
C=json.load(open(os.path.join(H,"catches.json"))) if os.path.exists(os.path.join(H,"catches.json")) else {}
lev={c["property"]:c for c in M["checks"]}; na={x["property"]:x["reason"] for x in M["not_applicable"]}
out=[open(os.path.join(H,"design_head.md")).read().rstrip(),"","## Properties, one by one",""]
for p in P:
    i=p["id"]; out.append("### %s: %s"%(i,p["title"])); out.append("")
    if i in na: out+=["Not applicable: %s."%na[i].rstrip("."),""]; continue
    out.append(p["statement"]); out.append("")
    c=lev[i]
    out.append("*Decided by* %s. *Extent:* %s."%(c["technique"].split(": ",1)[1].rstrip("."),c["level_note"].rstrip(".")))
    if i in WHY: out.append(WHY[i])
    ev=os.path.join(V,"evidence",i+".json")
    if os.path.exists(ev):
        d=json.load(open(ev))["coverage"]
        out.append(""); out.append("Rules (on the tree as committed: %d obligations in %d functions):"%(d["obligations"],d["functions_analysed"])); out.append("")
        for r,x in sorted(d["rules"].items()): out.append("- `%s` %s"%(r,x["text"]))
    out.append(""); out.append("Beyond tests: "+p["why_tests_cant"])
    fx=[x for x in K.get("fixed",[]) if "property=%s "%i in x]; kf=[x for x in K.get("findings",[]) if x["property"]==i]
    if fx:
        out.append(""); out.append("Defects found with it and repaired:"); out.append("")
        for x in fx: out.append("- "+x.split("property=%s "%i,1)[1])
    for x in kf: out+=["","Known finding (not repaired): `%s` %s"%(x["key"],x["what"])]
    own=sorted(n for n,x in C.items() if x["property"]==i)
    if own: out+=["","Planted bugs: "+"; ".join("`%s` (caught by %s)"%(n,", ".join(C[n]["caught"]) or "nothing") for n in own)]
    out.append("")
out.append(open(os.path.join(H,"design_tail.md")).read().rstrip()); out.append("")
open(os.path.join(V,"DESIGN.md"),"w").write("\n".join(out))

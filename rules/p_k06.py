"""K06: a number range lists every value once and stays within its result."""
from sysm import *
TECH="symbolic values of what is stored, its place and the guard in front of it along all paths of the instantiations for four types"
NOTE="int, unsigned, mixed int/long and double; loops followed three times; values and sizes are compared as linear terms, forms the rules do not know are not judged"
MIN={}
AT=r"std::(vector|array)::(operator\[\]|at)"
def strip(s): return re.sub(r"'\d+$","",s)
def lin(t):
    """numerator of (x)/arg3 as text, plus offset: 'sdiv(-arg1+arg2+arg3;arg3)' -> ({'arg1':-1,..},0)"""
    if re.search(r"\b(fptoui|fptosi)\(",t): t=re.sub(r"^fpto[us]i\((.*)\)$",r"\1",t)
    g=re.fullmatch(r"((?:[^()]+\+)?)([sufd]div)\((.*);arg3\)((?:[+-][^()]+)?)",t)
    if not g: return None
    d=flt(g[3])
    if d is None: return None
    rest=flt((g[1]+"0"+g[4]) if g[1] or g[4] else "0")
    if rest is None: return None
    for x,n in rest.items():                    # a number of slots more or less, or something that is no such number
        d=add(d,{"arg3" if x=="" else "slots beside, as many as "+x:n},1)
    return d
def add(a,b,k):
    r=dict(a)
    for x,n in b.items():
        r[x]=r.get(x,0)+k*n
    return {x:n for x,n in r.items() if n}
def flt(t):
    """linear form of a term, also through the floating point operations"""
    t=strip(t)
    g=re.fullmatch(r"(fadd|fsub|fmul)\((.*)\)",t)
    if g:
        d=0
        for i,ch in enumerate(g[2]):
            if ch=="(": d+=1
            elif ch==")": d-=1
            elif ch==";" and d==0:
                a,b=flt(g[2][:i]),flt(g[2][i+1:])
                if a is None or b is None: return None
                if g[1]=="fmul":
                    ka,kb=(x.get("",0) if set(x)<={""} else None for x in(a,b))
                    if ka is not None: return {x:n*ka for x,n in b.items()}
                    if kb is not None: return {x:n*kb for x,n in a.items()}
                    return None
                return add(a,b,1 if g[1]=="fadd" else -1)
        return None
    r={}
    if not re.fullmatch(r"-?(\d+\*)?\w+([+-](\d+\*)?\w+)*",t): return None
    for sg,k,x in re.findall(r"([+-]?)(?:(\d+)\*)?(\w+)",t):
        n=int(k or 1)*(-1 if sg=="-" else 1)
        if x.isdigit(): r[""]=r.get("",0)+n*int(x)
        elif x.startswith("arg"): r[x]=r.get(x,0)+n
        else: return None
    return {x:n for x,n in r.items() if n}
def direction(p):
    """1: the path counts up, -1: it counts down, None: not known"""
    for pr,l,r in facts(p):
        for a,b,fl in((sv(l),sv(r),0),(sv(r),sv(l),1)):
            g=re.fullmatch(r"std::(isless|islessequal|isgreater|isgreaterequal)\((arg[12]),(arg[12])\)('\d+)?",a)
            if g and b=="0" and g[2]!=g[3] and pr in("eq","ne"):
                up=(g[1].startswith("isless"))==(g[2]=="arg1")
                return 1 if up==(pr=="ne") else -1
        if {sv(l),sv(r)}=={"arg1","arg2"} and pr[-2:] in("lt","le","gt","ge"):
            return 1 if (pr[-2]=="l")==(sv(l)=="arg1") else -1
    return None
VALUE={"islessequal":"le","isless":"lt","isgreaterequal":"ge","isgreater":"gt"}
NEG={"lt":"ge","ge":"lt","gt":"le","le":"gt"}
FL={"lt":"gt","gt":"lt","le":"ge","ge":"le"}
def conds(p,lo,hi):
    """comparisons on the path between two events, as (relation, left, right)"""
    r=[]
    for e in p.ev[lo:hi]:
        if e.k!="if": continue
        l,x=sv(e.l),sv(e.r)
        g=re.fullmatch(r"std::(\w+)\((.*),([^,()]*|f\w+\(.*\))\)('\d+)?",l)
        if g and g[1] in VALUE and x=="0" and e.pred in("eq","ne"):
            o=VALUE[g[1]]; r.append((o if e.pred=="ne" else NEG[o],g[2],g[3])); continue
        if e.pred[-2:] in FL: r.append((e.pred[-2:],l,x))
        else: r.append((e.pred,l,x))
    return r
def run(c):
    c.rule("K06.value","the slots are filled, one after the other, with the start, the start plus (counting down: minus) one step, and so on")
    c.rule("K06.size","the result has one slot for each value from the start up to and including the last that does not pass the end")
    c.rule("K06.within","nothing is stored beyond the slots of the result")
    c.rule("K06.all","filling goes on until every slot of the result has its value")
    c.rule("K06.way","whether to count up or down is decided by comparing the start with the end alone")
    m=c.load("sys")
    for f in c.need([f for f in m.find(rx=r"probe::u_range_[iudm]")],"number ranges",4):
        c.fn(f); site="raftinc/utility.hpp (raft::range) "+f.q[-1]
        for p in paths(f,unroll=2):
            if p.end not in("ret","cut"): continue
            d=direction(p)
            c.ob("K06.way",site,True)
            first=next((i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"std::vector::(vector|resize|reserve|push_back|emplace_back)",e.q or "")),len(p.ev))
            for o,l,r in conds(p,0,first):
                a,b=flt(l),flt(r)
                if o not in("le","lt","ge","gt") or a is None or b is None: continue
                y=add(a,b,-1)
                if {"arg1","arg2"}<=set(y): c.ob("K06.way",site,set(y)=={"arg1","arg2"} and y["arg1"]==-y["arg2"],"the way to count is decided by %s against %s"%(l[:40],r[:40]),key="K06.way|order")
            if d is None: continue
            w=[]; X=None; pushes=False
            for i,e in enumerate(p.ev):
                if e.k=="st":
                    g=re.fullmatch(AT[:-1]+r")\((alloca#\d+|arg0),(-?\d+)\)('\d+)?",e.a)
                    if g: w.append((i,g[3],int(g[4]),sv(e.v)))
                if e.k=="call" and re.fullmatch(r"std::vector::(push_back|emplace_back)",e.q or ""):
                    pushes=True; a=sv(e.args[1]); w.append((i,sv(e.args[0]),sum(1 for x in w),content(p,i,a) if a.startswith("alloca") else a))
            mk=[(i,[strip(sv(x)) for x in e.args]) for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"std::vector::(vector|resize)",e.q or "") and len(e.args)>=2 and "div" in sv(e.args[1])]
            for n,(i,x,k,v) in enumerate(w):
                c.ob("K06.value",site,k==n,"slot %d is filled as number %d"%(k,n),key="K06.value|slot")
                y=flt(v)
                if y is not None: c.ob("K06.value",site,y==({"arg1":1,"arg3":d*k} if k else {"arg1":1}),"slot %d holds %s"%(k,v[:60]),key="K06.value|%s"%("up" if d>0 else "down"))
                lo=w[n-1][0] if n else mk[-1][0] if mk else 0
                cs=conds(p,lo,i)
                if pushes: continue
                ok=None
                for o,l,r in cs:
                    for a,b,oo in((l,r,o),(r,l,FL.get(o,o))):
                        if re.match(r"std::(vector|array)::(size|capacity)\(",b) or lin(strip(b)) is not None or "vector::size" in b:
                            if a.isdigit():
                                ok=ok or (oo=="lt" and int(a)>=k or oo=="le" and int(a)>k or oo=="ne" and int(a)==k)
                                continue
                        fa,fb=flt(a),flt(b)
                        if fa is not None and fb is not None and y is not None and fa==y and k:
                            good=fb=={"arg2":1} and oo==("le" if d>0 else "ge") or fb=={"arg2":1} and oo==("lt" if d>0 else "gt")
                            bad=set(fb)=={"arg2","arg3"} and fb["arg2"]==1
                            if good: ok=True
                            elif bad and ok is None: ok=False
                if ok is not None: c.ob("K06.within",site,ok,"slot %d is filled without it being known to exist: %s"%(k,"; ".join(" ".join(x) for x in cs)[:160]),key="K06.within|%s"%("up" if d>0 else "down"))
            if p.end!="ret": continue
            for _,a in mk:
                y=lin(a[1])
                if y is not None: c.ob("K06.size",site,y==({"arg2":1,"arg1":-1,"arg3":1} if d>0 else {"arg1":1,"arg2":-1,"arg3":1}),"counting %s, the result has %s slots"%("up" if d>0 else "down",a[1]),key="K06.size|%s"%("up" if d>0 else "down"))
            if mk:
                k=len(w); cs=conds(p,w[-1][0] if w else mk[-1][0],len(p.ev)); ok=None
                for o,l,r in cs:
                    for a,b,oo in((l,r,o),(r,l,FL.get(o,o))):
                        if a.isdigit() and (re.match(r"std::(vector|array)::(size|capacity)\(",b) or lin(strip(b)) is not None):
                            ok=ok or (oo=="ge" and int(a)<=k or oo=="gt" and int(a)<k or oo=="eq" and int(a)==k)
                        fa,fb=flt(a),flt(b)
                        if fa is not None and fb=={"arg2":1} and not fa.keys()<={"arg2"} and fa==({"arg1":1,"arg3":d*k} if k else {"arg1":1}): ok=ok or oo==("gt" if d>0 else "lt")
                if ok is not None: c.ob("K06.all",site,ok,"stops after %d values although there may be more: %s"%(k,"; ".join(" ".join(x) for x in cs)[:160]),key="K06.all|%s"%("up" if d>0 else "down"))

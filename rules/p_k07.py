"""K07: the sum and product helpers use the front element of every port once."""
from sysm import *
TECH="terms of the returned value and consuming calls along all paths of the instantiations for one, two and three ports"
NOTE="long with one and three ports, double with two, for each operation; overflow and the order of floating point operations are left open"
MIN={"K07.take":6,"K07.value":6}
def split(s):
    r=[];d=0;c=""
    for x in s:
        d+=x in"(["; d-=x in")]"
        if x in";," and d==0: r.append(c); c=""
        else: c+=x
    return r+[c]
def terms(s):
    """top level sum: [(sign, factor text)]"""
    r=[];d=0;c="";sg=1
    for x in s:
        d+=x in"(["; d-=x in")]"
        if x in"+-" and d==0 and c: r.append((sg,c)); c=""; sg=1 if x=="+" else -1
        elif x=="-" and d==0: sg=-sg
        else: c+=x
    return r+[(sg,c)]
def leafy(op,s):
    """leaves joined by the operation as a list, None when another operation is in between"""
    s=re.sub(r"'\d+$","",s)
    g=re.fullmatch(r"(fadd|fmul|mul)\((.*)\)",s)
    if g and (g[1]=="fadd")==(op=="sum"):
        r=[]
        for x in split(g[2]):
            y=leafy(op,x)
            if y is None: return None
            r+=y
        return r
    if g or re.match(r"[sufd]?(sub|div|rem|add|mul)\(|fsub|fneg",s): return None
    if re.fullmatch(r"fp:-?0(\.0*)?",s): return [] if op=="sum" else ["0"]
    if re.fullmatch(r"fp:1(\.0*)?",s): return [] if op=="mult" else ["1"]
    t=terms(s)
    if len(t)>1:
        if op!="sum": return None
        r=[]
        for sg,x in t:
            if sg<0: return None
            y=leafy(op,x)
            if y is None: return None
            r+=y
        return r
    g=re.fullmatch(r"(\d+)\*(.*)",s)
    if g: return [g[2]]*int(g[1]) if op=="sum" else None
    if re.fullmatch(r"-?\d+",s): return [] if s==("0" if op=="sum" else "1") else [s]
    return [s]
def run(c):
    c.rule("K07.take","each port gives up exactly one element")
    c.rule("K07.value","the result is the sum or the product of these elements, each used once")
    m=c.load("sys")
    for f in c.need(m.find(rx=r".*u_(sum|mult)_\w+"),"instantiations of sum and mult",6):
        op="sum" if "u_sum" in f.dem else "mult"; n=f.dem.count("FIFO")
        c.fn(f); any_=False
        for p in paths(f):
            if p.end!="ret": continue
            any_=True
            tk={}
            for i,e in enumerate(p.ev):
                if e.k!="call": continue
                if re.search(r"FIFO::(pop|recycle|pop_s)$",e.q or ""):
                    k=1
                    if e.q.endswith("recycle"): k=int(sv(e.args[-1])) if sv(e.args[-1]).isdigit() else None
                    tk.setdefault(sv(e.args[0]),[]).append((i,k))
            for a in range(n):
                w=tk.get("arg%d"%a,[])
                if any(k is None for _,k in w): continue
                c.ob("K07.take",f.where(),sum(k for _,k in w)==1,"port %d gives up %d elements"%(a,sum(k for _,k in w)),key="K07.take|%s"%op)
            v=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
            if not v: continue
            src={}
            for i,e in enumerate(p.ev):
                if e.k=="call" and re.search(r"FIFO::(pop|peek)$",e.q or "") and re.fullmatch(r"arg\d",sv(e.args[0])):
                    if e.q.endswith("pop") and len(e.args)>1: src["*(%s)"%sv(e.args[1])]=sv(e.args[0])
                    else: src["*(%s)"%sv(e.res)]=sv(e.args[0])
            l=leafy(op,v[-1])
            if l is None:
                c.ob("K07.value",f.where(),not re.match(r"f?(%s)\("%("mul" if op=="sum" else "add"),v[-1]) and not(op=="mult" and len(terms(v[-1]))>1) and not re.search(r"\b(fsub|[suf]div|[suf]rem|sub|fpto[us]i|fptrunc)\(",v[-1]),"the %s is %s"%(op,v[-1][:90]),key="K07.value|op|"+op); continue
            l=[re.sub(r"'\d+$","",x) for x in l]
            if any(x not in src and not re.fullmatch(r"-?\d+",x) for x in l): continue
            got=sorted(src.get(x,x) for x in l)
            c.ob("K07.value",f.where(),got==["arg%d"%a for a in range(n)],"the %s is made of %s"%(op,",".join(got) or "nothing"),key="K07.value|"+op)
        c.ob("K07.value",f.where(),any_,"never returns",key="K07.value|ends|"+op)

"""M11: the dynamic allocator grows a link that stays full."""
from sysm import *
TECH="facts and calls along all paths of the monitor loop and of the function it applies to each link"
NOTE="every path, loops followed three times; how links are told apart in the table of counts (a hash of two addresses) is left open"
MIN={"M11.watch":2,"M11.grow":3}
RES=r"(virtual::.*)?resize"
def isres(e): return e.k=="call" and re.search(r"\b(RingBuffer\w*|FIFO)::resize\b",e.q or "") is not None
FRAC="get_frac_write_blocked"
def high(pr,l,r):
    """True: the path found the fraction high, False: low, None: no such fact"""
    g=re.match(r"fcmp\.([ou])(gt|ge)\((.*)\)('\d+)?$",l)
    if not g or FRAC not in l or r!="0": return None
    d=0; k=None
    for i,ch in enumerate(g[3]):
        d+=ch=="("; d-=ch==")"
        if ch==";" and d==0: k=i; break
    if k is None: return None
    first=FRAC in g[3][:k]
    return first==(pr!="eq")
CAP=r"virtual::\{[^}]*\bcapacity\b[^}]*\}\(|virtual::capacity\("
def less(pr,l,r,k):
    """does the fact bound the capacity below k"""
    if re.match(CAP,l) and r.isdigit(): return (pr in("ult","slt") and int(r)<=k) or (pr in("ule","sle","eq") and int(r)<k)
    if re.match(CAP,r) and l.isdigit(): return (pr in("ugt","sgt") and int(l)<=k) or (pr in("uge","sge","eq") and int(l)<k)
    return False
def run(c):
    c.rule("M11.watch","until it is told to end the allocator goes through the graph again and again, from the source kernels, with the function that grows links")
    c.rule("M11.grow","a link of free size whose writers were blocked most of the time is counted, and at a high count its own stream is resized and the count starts anew; no other link is resized")
    c.rule("M11.look","every link of free size that has a stream is asked how much of the time its writer was blocked")
    m=c.load("sys")
    fs=[f for f in m.find(rx=r"dynalloc::.*")]
    grow=[f for f in fs if any(isres(e) for p in paths(f) for e in p.ev)]
    for f in c.need(m.find(q="dynalloc::run"),"dynalloc::run"):
        c.fn(f); rounds=0
        counted(c,m,"M11.watch","dynalloc::run")
        for p in paths(f,fresh=r"\*\(.*exit_alloc\)"):
            if p.end=="ret":
                l=[x for x in facts(p) if "exit_alloc" in sv(x[1])+sv(x[2])]
                c.ob("M11.watch",f.where(),bool(l) and l[-1][0]!="eq","stops looking without having been told to end",key="M11.watch|end")
            go=[i for i,e in enumerate(p.ev) if e.k=="if" and "exit_alloc" in sv(e.l) and e.r==ZERO]
            for n,i in enumerate(go):
                if p.ev[i].pred!="eq": continue
                hi=go[n+1] if n+1<len(go) else None
                if hi is None: continue
                rounds+=1
                b=[j for j in pos(p,r"GraphTools::(BFS|__BFS)") if i<j<hi]
                c.ob("M11.watch",f.where(),len(b)>=1,"a round passes without a look at the graph",key="M11.watch|look")
                for j in b:
                    a=slots(p,j,sv(p.ev[j].args[0]))
                    if "acquire(" in a: c.ob("M11.watch",f.where(),"source_kernels" in a,"starts from "+a[:80],key="M11.watch|from")
                    fn=[x for x in p.ev[:j] if x.k=="call" and x.q=="std::function::function" and sv(x.args[0])==sv(p.ev[j].args[1])]
                    if fn and grow:
                        y=fn[-1].I.fn or ""
                        g=re.search(r"dynalloc3runEv(E?N?K?E?3?)(\$_\d+|UlR\w*?_)",y)
                        ids=[re.search(r"dynalloc3runEv(E?N?K?E?3?)(\$_\d+|UlR\w*?_)",h.m) for h in grow]
                        ids={h[2] for h in ids if h}
                        if g and ids: c.ob("M11.watch",f.where(),g[2] in ids,"goes through the graph with another function",key="M11.watch|with")
        c.ob("M11.watch",f.where(),rounds>0,"never looks at the graph again",key="M11.watch|any")
    c.ob("M11.grow","dynalloc",bool(grow),"no link is ever resized",key="M11.grow|never")
    for f in grow:
        # the counts at which a link is resized on some path
        enough=set()
        cntfact=lambda e: (re.sub(r"'\d+","",sv(e.l)),e.pred,re.sub(r"'\d+","",sv(e.r))) if e.k=="if" and high(e.pred,sv(e.l),sv(e.r)) is None and (isK(e.r) and e.r!=ZERO and not isK(e.l) or isK(e.l) and e.l!=ZERO) and re.search(r"operator\[\]|::at\(|count",sv(e.l)+sv(e.r)) else None
        for p in paths(f):
            r=[i for i,e in enumerate(p.ev) if isres(e)]
            if r: enough|={cntfact(e) for e in p.ev[:r[0]]}-{None}
        for p in paths(f):
            if p.end!="ret" or any(isres(e) for e in p.ev): continue
            h=[high(e.pred,sv(e.l),sv(e.r)) for e in p.ev if e.k=="if"]; h=[x for x in h if x is not None]
            if not h or not h[-1]: continue
            c.ob("M11.grow",f.where(),not any(cntfact(e) in enough for e in p.ev if e.k=="if"),"a link that stays full is not resized",key="M11.grow|stays")
        if "operator()" in f.dem:
            for p in paths(f):
                for i,e in enumerate(p.ev):
                    if e.k!="call": continue
                    g=re.fullmatch(r"std::(unordered_)?map::(operator\[\]|at|find|clear)",e.q or "")
                    if not g: continue
                    if g[2]=="clear": c.ob("M11.grow",f.where(),False,"the counts of all links are wiped at a look at one of them",key="M11.grow|wipe"); continue
                    k=content(p,i,sv(e.args[1])) or ""
                    if re.fullmatch(r"-?\d+",k): c.ob("M11.grow",f.where(),False,"all links share one count",key="M11.grow|key")
        c.fn(f); table=any(re.match(r"std::(unordered_)?map::",callee(I) or "") for I in f.insts())
        for p in paths(f):
            if p.end=="ret" and null(p,"*(arg1.fixed_buffer_size)") is True and "operator()" in f.dem:
                c.ob("M11.look",f.where(),any(FRAC in (e.q or "") for e in p.ev if e.k=="call") or any(re.fullmatch(r"PortInfo::getFIFO\(arg1\)('\d+)?",sv(l)) and r==ZERO and pr=="eq" for pr,l,r in facts(p)),"a link of free size is not looked at",key="M11.look")
            rs=[i for i,e in enumerate(p.ev) if isres(e)]
            hs=[(i,high(e.pred,sv(e.l),sv(e.r))) for i,e in enumerate(p.ev) if e.k=="if"]
            hs=[x for x in hs if x[1] is not None]
            cnt=[(i,e.a) for i,e in enumerate(p.ev) if e.k=="st" and re.match(r"std::\w+::operator\[\]|std::\w+::at|\*\(",e.a) and e.v!=ZERO]
            for i in rs:
                c.ob("M11.grow",f.where(),null(p,"*(arg1.fixed_buffer_size)",i) is True or "operator()" not in f.dem,"a link is resized without it being known to be of free size",key="M11.grow|free")
                h=[x for x in hs if x[0]<i]
                c.ob("M11.grow",f.where(),bool(h) and h[-1][1],"a link is resized that was %s"%("not blocked" if h else "not looked at"),key="M11.grow|blocked")
                if not h: continue
                # the new size
                if len(p.ev[i].args)>1:
                    z=p.ev[i].args[1]; caps=[t for t,_ in z[0] if re.match(CAP,t)] if z is not None else []
                    if z is not None and not z[0]:
                        c.ob("M11.grow",f.where(),any(less(pr,sv(l),sv(r),z[1]) for pr,l,r in facts(p,i)),"a full link is resized to %d, whatever it holds now"%z[1],key="M11.grow|size")
                    elif caps and len(z[0])==1:
                        n=dict(z[0])[caps[0]]; c.ob("M11.grow",f.where(),n>1 or (n==1 and z[1]>0),"a full link is resized to %s"%sv(z)[:80],key="M11.grow|size")
                    elif z is not None:
                        c.ob("M11.grow",f.where(),not re.match(r"\*?\(?(std::min\(|udiv\(|lshr\(|llvm\.umin)",sv(z)),"a full link is resized to %s"%sv(z)[:80],key="M11.grow|size")
                # the count
                k=[(j,e) for j,e in enumerate(p.ev[:i]) if e.k=="if" and high(e.pred,sv(e.l),sv(e.r)) is None and ((isK(e.r) and e.r!=ZERO and not isK(e.l)) or (isK(e.l) and e.l!=ZERO))]
                k=[(j,e) for j,e in k if re.search(r"operator\[\]|::at\(|count",sv(e.l)+sv(e.r))]
                c.ob("M11.grow",f.where(),bool(k),"a link is resized at its first blocked look",key="M11.grow|count")
                for j,e in k[-1:]:
                    up=(e.pred[1:2]=="g") if isK(e.r) else (e.pred[1:2]=="l")
                    if e.pred in("eq","ne"): up=e.pred=="eq"
                    c.ob("M11.grow",f.where(),up,"a link is resized at a low count",key="M11.grow|low")
                rst=[e for e in p.ev if e.k=="st" and re.match(r"std::\w+::(operator\[\]|at)\(",e.a)]
                if rst and p.end=="ret": c.ob("M11.grow",f.where(),sv(rst[-1].v)=="0","the count goes on from %s"%sv(rst[-1].v)[:60],key="M11.grow|anew")
            if p.end=="ret" and hs and hs[-1][1] and not rs:
                inc=[e for e in p.ev if e.k=="st" and re.match(r"std::\w+::(operator\[\]|at)\(",e.a)]
                up=[e for e in inc if e.v[1]>0 and e.v[0]]
                if table:
                    c.ob("M11.grow",f.where(),bool(up),"a blocked look is not counted",key="M11.grow|counted")

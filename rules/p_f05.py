import fifo
from paths import *
TECH="typestate walk over all paths of the stream operations, path-wise value analysis of closing and of the closed test"
R={"F05.wait":"a reader that finds too few elements tests whether the stream is closed before it waits on, and elements that are there are delivered first",
   "F05.throw":"the closed-port error is raised only for a closed stream that was then found empty"}
MIN={"F05.close":2,"F05.ask":2}
def run(c):
    c.rule("F05.close","closing marks the current buffer closed, unconditionally")
    c.rule("F05.ask","the closed test answers exactly what closing stored")
    c.rule("F05.keep","the closed mark is not kept in memory that a concurrent resize replaces, unless that access is announced")
    fifo.report(c,"F05",R)
    closing(c,c.load("fifo"),"F05.close","F05.ask","F05.keep")
def closing(c,m,A,B,K):
    """closing and the closed test of a stream agree"""
    VALID=r"\*\((DataManager::get\(arg0\.datamanager\)('\d+)?|\*\(.*\))\.(\w+)\)"
    fld={}
    via=lambda t: "DataManager::get(" in t or ".datamanager.buffer)" in t
    for f in c.need(m.find(rx=r"RingBufferBase\w*::invalidate"),"invalidate()"):
        if re.search("Infinite|Shared",f.dem): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            st=[e for e in p.ev if e.k=="st" and re.search(r"valid|closed|open|end",e.a)]
            if not st: st=[e for e in p.ev if e.k=="st" and not e.a.startswith("alloca")]
            ok=bool(st) and isK(st[-1].v)
            if ok: fld.setdefault(st[-1].a.rsplit(".",1)[-1],set()).add(st[-1].v[1]&1)
            for e in st: c.ob(K,f.where(),not via(e.a) or bool(p.calls("DataManager::enterBuffer")),"the mark is stored in a buffer that a resize may be replacing",key=K+"|invalidate")
            c.ob(A,f.where(),ok,"a path leaves the stream open: %r"%p,key=A+"|%s"%("none" if not st else "value"))
    for f in c.need(m.find(rx=r"RingBufferBase\w*::is_invalid"),"is_invalid()"):
        if re.search("Infinite|Shared",f.dem): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=p.ev[-1].v
            txt=sv(v)+" ".join(sv(e.l) for e in p.conds())
            c.ob(K,f.where(),not via(txt) or bool(p.calls("DataManager::enterBuffer")),"the mark is read from a buffer that a resize may be replacing",key=K+"|is_invalid")
            if not isK(v):
                ok=None; t=sv(v)
                for n,w in fld.items():
                    if n not in t: continue
                    direct=re.fullmatch(r"\*\(.*\.%s\)"%n,t) is not None
                    neg=re.fullmatch(r"(xor\(.*|-\*\(.*\)\+1)",t) is not None
                    ok=(direct and w=={1}) or (neg and w=={0}) or not(direct or neg)
                c.ob(B,f.where(),bool(ok),"answers %s"%sv(v),key=B+"|value"); continue
            known=None
            for e in p.conds():
                for n,w in fld.items():
                    if sv(e.l).endswith("."+n+")") and isK(e.r) and e.pred in("eq","ne"):
                        known=int((e.r[1]&1)==1)==int(e.pred=="eq"); known=1 if known else 0
                        closed=known in w and len(w)==1
                        c.ob(B,f.where(),bool(v[1]&1)==closed,"answers %s when the mark is %d, closing stores %s"%(v[1],known,sorted(w)),key=B+"|sense")
            c.ob(B,f.where(),known is not None,"answers %s without looking at the mark"%v[1],key=B+"|blind")

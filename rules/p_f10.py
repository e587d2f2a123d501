"""F10: transfer counts, blocking marks, sampling and accumulation."""
import fifo
from paths import *
TECH="typestate walk over all paths of the stream operations, path-wise value analysis of sampling and accumulation"
NOTE="every path of every stream operation of every storage class; sampling functions and accumulation path by path"
R={"F10.count":"each element written or read adds one to the count of its side, a range its length"}
MIN={"F10.sample":6,"F10.accum":2}
OTHER={"write":"read","read":"write"}
def sampling(c,m):
    for f in m.find(rx=r"RingBufferBaseHeap\w*::get_zero_(read|write)_stats"):
        c.fn(f); s=f.q.split("_")[2]; mine="%s_stats"%s; other="%s_stats"%OTHER[s]
        for p in paths(f):
            if p.end!="ret": continue
            rd=[i for i,e in enumerate(p.ev) if (e.k=="st" and e.a.startswith("arg1") and mine in sv(e.v)) or (e.k=="call" and e.q in("memcpy","memmove","Blocked::operator=") and sv(e.args[0])=="arg1" and mine in sv(e.args[1]))]
            z=[i for i,e in enumerate(p.ev) if (e.k=="st" and mine in e.a and e.v==K(0)) or (e.k=="call" and e.q=="memset" and mine in sv(e.args[0]))]
            ok=bool(rd) and not [e for i,e in enumerate(p.ev) if e.k=="st" and e.a.startswith("arg1") and i>rd[-1] and mine not in sv(e.v)]
            c.ob("F10.sample",f.where(),ok,"the %s statistics are not reported"%s,key="F10.sample|%s|report"%s)
            c.ob("F10.sample",f.where(),bool(z) and (not rd or z[0]>rd[0]),"no new period starts after reporting",key="F10.sample|%s|zero"%s)
            if rd and z: c.ob("F10.sample",f.where(),z[-1]>rd[-1],"the count is cleared before it is reported",key="F10.sample|%s|order"%s)
            touch=[e for e in p.ev if e.k=="st" and (other in e.a or other in sv(e.v))]
            c.ob("F10.sample",f.where(),not touch,"the %s statistics are touched: %r"%(OTHER[s],touch[:1]),key="F10.sample|%s|other"%s)
            if z:
                st=[e for e in p.ev if e.k=="st" and mine in e.a]
                c.ob("F10.sample",f.where(),st[-1].v==K(0) if st else True,"the new period starts at %s"%(sv(st[-1].v) if st else ""),key="F10.sample|%s|zero"%s)
    for f in m.find(rx=r"RingBufferBaseHeap\w*::get_frac_write_blocked"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            touch=[e for e in p.ev if (e.k=="st" and ("read_stats" in e.a or "read_stats" in sv(e.v)))]
            c.ob("F10.sample",f.where(),not touch and "read_stats" not in sv(p.ev[-1].v),"the read statistics are touched",key="F10.sample|frac|other")
            st=[e for e in p.ev if e.k=="st" and "write_stats" in e.a]
            c.ob("F10.sample",f.where(),bool(st) and st[-1].v==K(0),"no new period starts",key="F10.sample|frac|zero")
            v=sv(p.ev[-1].v)
            d=re.fullmatch(r"fdiv\((.*)\)",v)
            if d:
                n=0
                for k,ch in enumerate(d[1]):
                    n+=(ch=="(")-(ch==")")
                    if ch==";" and n==0: break
                d=[v,d[1][:k],d[1][k+1:]]
                num=lambda x: "count" in x or "lshr" in x
                ok=num(d[2]) and not num(d[1])
                c.ob("F10.sample",f.where(),ok,"the fraction is %s"%v[:160],key="F10.sample|frac|value")
            elif v!="fp:0": c.ob("F10.sample",f.where(),not re.search(r"lshr|count",v) or "div" in v,"the fraction is %s"%v[:160],key="F10.sample|frac|value")
def accum(c,m):
    cnt=lambda a: re.fullmatch(r"arg0\.(\(anon\)\.|bec\.)*count",a)
    for f in c.need(m.find(q="Blocked::operator+="),"Blocked::operator+="):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            st=[e for e in p.ev if e.k=="st" and e.a.startswith("arg0")]
            cond=[(e.pred,sv(e.l),sv(e.r)) for e in p.conds()]
            free=any(l.endswith(".blocked)") and "arg1" in l and ((q=="eq" and r=="0")or(q=="ult" and r=="1")) for q,l,r in cond)
            blk=any(l.endswith(".blocked)") and "arg1" in l and ((q in("ne","ugt") and r=="0") or (q=="eq" and r=="1")) for q,l,r in cond)
            delta=None
            if not st: delta="0"
            elif all(cnt(e.a) for e in st): delta=sv(ladd(st[-1].v,A("*(%s)"%st[-1].a),-1))
            want=re.compile(r"\*\(arg1\.(\(anon\)\.|bec\.)*count\)")
            if free: ok=delta is not None and want.fullmatch(delta) is not None; why="the other was not blocked, its count is not added (change %s)"%delta
            elif blk: ok=delta=="0"; why="the other was blocked, still something is added: %s"%delta
            else: ok=delta is not None and "blocked" in delta and "arg1" in delta and any(x in delta for x in("mul","and(","sel")); why="what is added does not depend on the other having been blocked (change %s)"%delta
            c.ob("F10.accum",f.where(),ok,why,key="F10.accum|%s"%("free" if free else "blocked" if blk else "?"))
            c.ob("F10.accum",f.where(),p.ev[-1].v in(None,A("arg0")),"returns something else",key="F10.accum|ret")
    for f in m.find(rx=r"Blocked::(Blocked|operator=)"):
        if len(f.args)<2:
            # a fresh statistic: nothing counted, not blocked
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                last={}
                for e in p.ev:
                    if e.k=="st" and e.a.startswith("arg0") and "pad" not in e.a: last[e.a]=e.v
                nz=[(a,sv(v)) for a,v in last.items() if v!=K(0)]
                z=any(e.k=="call" and e.q=="memset" for e in p.ev)
                whole=any(a.endswith((".all","(anon)")) or a=="arg0" for a in last); parts={a.rsplit(".",1)[1] for a in last}
                c.ob("F10.start",f.where(),not nz and (z or whole or {"count","blocked"}<=parts),"a new statistic starts at %s"%(nz or sorted(last)),key="F10.start")
            continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            s=[(e.a,sv(e.v)) for e in p.ev if e.k=="st"]
            whole=[(a,v) for a,v in s if v=="*(arg1"+a[4:]+")" and not a.endswith((".count",".blocked"))]
            parts={a.rsplit(".",1)[1] for a,v in s if a.endswith((".count",".blocked")) and v=="*(arg1"+a[4:]+")"}
            mc=p.calls("memcpy|memmove")
            kept={}
            for a,v in s:
                if a.endswith((".count",".blocked")) and a.startswith("arg0"): kept[a]=v
            for a,v in kept.items():
                src="*(arg1"+a[4:]+")"
                c.ob("F10.copy",f.where(),v==src or not re.fullmatch(r"-?\d+|\*\(arg[01][\w.()]*\)",v),"a copy has %s in %s"%(v,a[5:]),key="F10.copy|%s|%s"%(f.q,a.rsplit(".",1)[1]))
            c.ob("F10.copy",f.where(),bool(whole) or parts=={"count","blocked"} or bool(mc),"a copy does not carry both numbers: %s"%s,key="F10.copy|"+f.q)
def run(c):
    c.rule("F10.sample","sampling reports the counts of its side, then starts that side's period anew, and leaves the other side alone")
    c.rule("F10.accum","accumulating adds the other's count exactly when that one was not blocked")
    c.rule("F10.start","a new statistic has counted nothing and is not marked blocked")
    c.rule("F10.copy","a copy of statistics carries count and blocking mark")
    c.rule("F10.keep","a resize carries the statistics of both sides over")
    fifo.report(c,"F10",R)
    for f in c.load("fifo").find(rx=r"Buffer::Data::copyFrom"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for n in("read_stats","write_stats"):
                got=[e for e in p.ev if e.k=="st" and (e.a=="arg0."+n or e.a.startswith("arg0.%s."%n)) or e.k=="call" and e.args and re.match(r"arg0\.%s\b"%n,sv(e.args[0]))]
                t=" ".join(repr(e) for e in got)
                part={e.a.rsplit(".",1)[1] for e in got if e.k=="st" and e.a.endswith((".count",".blocked"))}
                whole=any(e.k=="call" or not e.a.endswith((".count",".blocked")) for e in got)
                c.ob("F10.keep",f.where(),"arg1."+n in t and (whole or len(part)!=1),"%s afterwards: %s"%(n,t or "those of an unused buffer"),key="F10.keep|"+n)
    sampling(c,c.load("fifo")); accum(c,c.load("leaf"))

"""S01: termination propagates down the graph."""
from sysm import *
from flow import callee
from p_s02 import visits
TECH="facts along all paths of kernelRun and of the closing loop; call sites of the closing operations over the call graph"
NOTE="every path, loops followed three times; closing calls are looked for in all functions of the library; sound for the stated rules"
MIN={"S01.close":3,"S01.each":3,"S01.only":1,"S01.report":2}
CLOSE="Schedule::invalidateOutputPorts"
def loopends(p,rx):
    """positions where a loop over a container matching rx has come to its end"""
    M=list(mixed(p)); r=[]
    for i,end in iterfacts(p):
        if not end: continue
        b=[x for x in M if x[0]<i]
        if b and b[-1][3] and re.search(rx,b[-1][1]): r.append(i)
    return r
def each(c,f,p,whole=True):
    """every output closed once; returns the number of closing calls"""
    V=vcalls(p,"invalidate"); it=iterfacts(p)
    for i,o,t in V:
        x=side(p,i,o)
        if x: c.ob("S01.each",f.where(),x.startswith("arg0.output"),"closes ports of %s"%x,key="S01.each|side")
    for k,(i,end) in enumerate(it):
        if end or k+1>=len(it): continue
        n=[x for x in V if i<x[0]<it[k+1][0]]
        if whole or n: c.ob("S01.each",f.where(),len(n)==1,"%d closing calls for one port"%len(n),key="S01.each|one")
    return len(V)
def run(c):
    c.rule("S01.close","a kernel that stops, or is retired, has its outputs closed in the same call and is marked finished; one that goes on has neither")
    c.rule("S01.each","closing the outputs closes every output port of the kernel once, and no input")
    c.rule("S01.only","streams are closed by the termination of their kernel and by the quit signal only")
    c.rule("S01.again","a worker runs its kernel only after seeing its finished mark unset, and hands that mark over to be set")
    c.rule("S01.report","a closed stream reports invalid, an open one does not")
    m=c.load("sys")
    STOP,GO=const(m,"stop"),const(m,"proceed")
    for f in c.need(m.find(q="Schedule::kernelRun"),"kernelRun"):
        c.fn(f); inl=any(re.fullmatch(virt("invalidate"),callee(I) or "") for I in f.insts())
        for p in paths(f):
            if p.end!="ret": continue
            R=[i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"virtual::(\{.*\brun\b.*\}|run)|raft::kernel::run",e.q or "")]
            s=possible(p,sv(p.ev[R[0]].res),(STOP,GO)) if R else None
            I=pos(p,CLOSE)+(loopends(p,r"^arg0\.output") if inl else []); F=[i for i,e in enumerate(p.ev) if e.k=="st" and e.a=="arg1" and e.v!=ZERO]
            for i in pos(p,CLOSE): c.ob("S01.close",f.where(),sv(p.ev[i].args[0])=="arg0","closes the outputs of %s"%sv(p.ev[i].args[0]),key="S01.close|whose")
            if inl: each(c,f,p,False)
            if R and s is None: c.ob("S01.close",f.where(),False,"the status the kernel returned is not looked at",key="S01.close|status"); continue
            if s=={STOP}:
                c.ob("S01.close",f.where(),bool(I) and max(I)>R[0],"the kernel asked to stop and its outputs stay open",key="S01.close|stop")
                c.ob("S01.close",f.where(),bool(F),"the kernel asked to stop and is not marked finished",key="S01.close|stopfin")
            c.ob("S01.close",f.where(),bool(I)==bool(F),"the outputs are %s and the kernel is %s"%("closed" if I else "left open","finished" if F else "not finished"),key="S01.close|both")
            N=[(i,sv(p.ev[i].res)) for i in pos(p,"Schedule::kernelHasNoInputPorts")]
            for i in I:
                ok=(s=={STOP} and R[0]<i) or any(j<i and possible(p,t,(0,1))=={1} for j,t in N)
                c.ob("S01.close",f.where(),bool(ok),"closes the outputs of a kernel that goes on",key="S01.close|early")
    import p_s03
    p_s03.worker(c,m,"S01.again",False)
    for f in c.need(m.find(q=CLOSE),"invalidateOutputPorts"):
        c.fn(f); any_=0
        for p in paths(f):
            V=vcalls(p,"invalidate"); it=iterfacts(p)
            if not it and not V:
                hp=callok(p,"Port::hasPorts","arg0.output")
                t=[sv(e.res) for e in p.ev if e.k=="call" and e.q=="Port::count" and sv(e.args[0])=="arg0.output"]
                z=possible(p,t[-1],(0,1,2,3)) if t else None
                if p.end=="ret" and not pos(p,"std::for_each") and (hp or (z and z!={0})): c.ob("S01.each",f.where(),False,"a kernel with outputs keeps them open",key="S01.each|kept")
                continue
            any_+=each(c,f,p)
            if p.end=="ret" and it: c.ob("S01.each",f.where(),it[-1][1],"stops before the last port",key="S01.each|all")
            if p.end=="ret" and not it: c.ob("S01.each",f.where(),bool(V),"closes nothing",key="S01.each|none")
        c.ob("S01.each",f.where(),any_>0 or bool([1 for I in f.insts() if (callee(I) or "").startswith("std::for_each")]),"no port is ever closed",key="S01.each|any")
    for f in m.find(q="Schedule::quitHandler"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret": c.ob("S01.close",f.where(),"arg0" in [o for _,o,_ in vcalls(p,"invalidate")],"a quit signal leaves its stream open",key="S01.close|quit")
    # who closes
    callers={}; direct=set(); closers=set()
    for x in m.raw:
        f=m.func(x)
        for I in f.insts():
            if I.op not in("call","invoke"): continue
            q=callee(I) or ""
            if I.fn: callers.setdefault(I.fn,set()).add(x)
            if re.fullmatch(virt("invalidate"),q): direct.add(x)
            if q==CLOSE: closers.add(x)
    allowed={f.m for q in(CLOSE,"Schedule::quitHandler","Schedule::kernelRun") for f in m.find(q=q)}
    retire={f.m for f in m.find(q="Schedule::kernelRun")}
    def only(x,ok,seen=()):
        """x is one of ok, or a helper reached only from there"""
        if x in ok: return True
        if x in seen: return True
        cs=callers.get(x,set())
        return bool(cs) and all(only(y,ok,seen+(x,)) for y in cs)
    for x in sorted(direct):
        f=m.func(x)
        if f.q.startswith(("probe::","std::")) or re.search(r"RingBuffer|FIFO::",f.q): continue
        c.fn(f); c.ob("S01.only",f.where(),only(x,allowed),"%s closes a stream"%f.q,key="S01.only|"+f.q)
    for x in sorted(closers):
        f=m.func(x)
        c.fn(f); c.ob("S01.only",f.where(),only(x,retire),"%s closes the outputs of a kernel"%f.q,key="S01.only|"+f.q)
    # closing a stream makes it report invalid
    import p_f05
    p_f05.closing(c,c.load("fifo"),"S01.report","S01.report","S01.report")

"""S02: a kernel is not retired while input data may still be unread."""
from sysm import *
TECH="facts along all paths of the scheduler's readiness tests, per scheduling behaviour; order of the tests on each path to retirement"
NOTE="every path, loops followed three times (kernels of up to two ports); the outcome of each port's test is enumerated from the comparisons made; sound for the stated rules"
MIN={"S02.data":6,"S02.closed":3,"S02.run":4,"S02.retire":3}
SZ=(0,1,2,7)
# tests made by a library algorithm: what its function object finds is left open
BULK=r"std::(any_of|all_of|none_of|find_if(_not)?|count_if|for_each|accumulate)"
def visits(p):
    """(number of ports visited, whether the end was seen)"""
    it=iterfacts(p)
    return len([1 for _,e in it if not e]),bool(it) and it[-1][1]
def tested(p,rx):
    """outcome sets of the calls rx on the path: [(object, possible values, position)]"""
    r=[]
    for i,o,t in vcalls(p,rx):
        if t is None: continue
        r.append((o,possible(p,t,SZ if rx=="size" else (0,1)),i))
    return r
def run(c):
    c.rule("S02.data","a kernel without inputs is always ready; with any_port it is ready exactly when some input holds data, with all_port exactly when every input does")
    c.rule("S02.ask","a kernel asks for data on any input unless it is made to ask for all")
    c.rule("S02.closed","all inputs count as closed only if every one was asked and found closed, and not otherwise")
    c.rule("S02.run","a kernel runs when, and only when, it was found ready, at most once per call")
    c.rule("S02.retire","a kernel is retired for closed inputs only if, after they were all seen closed, another look found no data; and then it is")
    m=c.load("sys")
    ANY,ALL,STOP,GO=[const(m,x) for x in("any_port","all_port","stop","proceed")]
    for f in c.need(m.find(q="Schedule::kernelHasInputData"),"kernelHasInputData"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=retval(p); n,end=visits(p)
            if v is None or pos(p,BULK) or not oneway(p): continue
            T=tested(p,"size")
            unk=[o for o,x,i in T if x is None and any(sv(p.ev[i].res) in sv(e.l)+sv(e.r) for e in p.ev[i:] if e.k=="if")] if T else []
            T=[(o,{0,1,2} if x is None else x,i) for o,x,i in T]
            for o,s,i in T:
                x=side(p,i,o)
                if x: c.ob("S02.data",f.where(),x.startswith("arg0.input"),"looks for data in %s"%x,key="S02.data|side")
            hp=callok(p,"Port::hasPorts","arg0.input")
            if hp is None:
                t=[sv(e.res) for e in p.ev if e.k=="call" and e.q=="Port::count" and sv(e.args[0])=="arg0.input"]
                z=possible(p,t[-1],(0,1,2)) if t else None
                hp=None if z is None else False if z=={0} else True if 0 not in z else None
            if hp is False:
                c.ob("S02.data",f.where(),v!=0,"a kernel without inputs is not ready",key="S02.data|source"); continue
            if unk: continue
            beh=[e for e in p.ev if e.k=="if" and re.match(r"\*\(arg0\.sched_behav\)",sv(e.l))]
            bs=possible(p,sv(beh[0].l),(ANY,ALL)) if beh else None
            if bs is None:
                if not T:
                    c.ob("S02.data",f.where(),v!=0 or hp is None,"not ready without a look at the inputs",key="S02.data|blind")
                    c.ob("S02.data",f.where(),v==0 or not hp,"a kernel with inputs is ready without a look at them",key="S02.data|unseen"); continue
                bs={ANY,ALL}
            for b in sorted(bs):
                nm="any_port" if b==ANY else "all_port"
                nz=[s for _,s,_ in T if s is not None and 0 not in s]; z=[s for _,s,_ in T if s is not None and 0 in s]
                if b==ANY:
                    if v!=0: c.ob("S02.data",f.where(),bool(nz),"%s: ready though no input was seen to hold data"%nm,key="S02.data|any|yes")
                    else:
                        c.ob("S02.data",f.where(),not nz and all(s=={0} for s in z),"%s: not ready though an input may hold data"%nm,key="S02.data|any|no")
                        c.ob("S02.data",f.where(),end and len(z)>=n,"%s: not ready before all inputs were asked"%nm,key="S02.data|any|all")
                else:
                    if v!=0:
                        c.ob("S02.data",f.where(),not z and end and len(nz)>=n,"%s: ready though an input may be empty"%nm,key="S02.data|all|yes")
                    else:
                        c.ob("S02.data",f.where(),any(s=={0} for s in z),"%s: not ready though no input was seen empty"%nm,key="S02.data|all|no")
    # who asks for data on all inputs
    for q,b in(("raft::kernel::kernel",ANY),("raft::kernel_all::kernel_all",ALL)):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                v=p.last("arg0.sched_behav")
                if v is None and b==ANY and pos(p,"raft::kernel::kernel"): continue
                c.ob("S02.ask",f.where(),v is not None and sv(v)==str(b),"asks for scheduling rule %s"%(sv(v) if v is not None else "of its base"),key="S02.ask|"+q)
    for f in c.need(m.find(q="Schedule::kernelHasNoInputPorts"),"kernelHasNoInputPorts"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=retval(p); n,end=visits(p); T=tested(p,"is_invalid")
            if v is None or pos(p,BULK) or not oneway(p) or any(s is None for _,s,_ in T): continue
            for o,s,i in T:
                x=side(p,i,o)
                if x: c.ob("S02.closed",f.where(),x.startswith("arg0.input"),"looks at %s"%x,key="S02.closed|side")
            if v!=0: c.ob("S02.closed",f.where(),end and len(T)>=n and all(s=={1} for _,s,_ in T),"inputs count as closed although one was not seen closed",key="S02.closed|yes")
            else: c.ob("S02.closed",f.where(),any(s=={0} for _,s,_ in T),"inputs count as open although all were seen closed",key="S02.closed|no")
    for f in c.need(m.find(q="Schedule::kernelRun"),"kernelRun"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            D=[(i,sv(p.ev[i].res),sv(p.ev[i].args[0])) for i in pos(p,"Schedule::kernelHasInputData")]
            N=[(i,sv(p.ev[i].res),sv(p.ev[i].args[0])) for i in pos(p,"Schedule::kernelHasNoInputPorts")]
            R=[i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"virtual::(\{.*\brun\b.*\}|run)|raft::kernel::run",e.q or "")]
            for i,t,a in D+N: c.ob("S02.run",f.where(),a=="arg0","asks about %s"%a,key="S02.run|who")
            dv={i:possible(p,t,(0,1)) for i,t,a in D}; nv={i:possible(p,t,(0,1)) for i,t,a in N}
            c.ob("S02.run",f.where(),len(R)<=1,"runs the kernel %d times"%len(R),key="S02.run|once")
            stop=None
            for r in R:
                c.ob("S02.run",f.where(),sv(p.ev[r].args[0])=="arg0","runs %s"%sv(p.ev[r].args[0]),key="S02.run|what")
                b=[i for i in dv if i<r]
                c.ob("S02.run",f.where(),bool(b) and dv[max(b)]=={1},"runs the kernel without having found it ready",key="S02.run|ready")
                stop=possible(p,sv(p.ev[r].res),(STOP,GO))
            if not R and D: c.ob("S02.run",f.where(),any(i<min(nv,default=1<<30) and dv[i]=={0} for i in dv),"does not run a kernel that may be ready",key="S02.run|skipped")
            fin=[i for i,e in enumerate(p.ev) if e.k=="st" and e.a=="arg1"]
            setv=[i for i in fin if p.ev[i].v!=ZERO]
            c.ob("S02.retire",f.where(),len(fin)==len(setv),"takes a retirement back",key="S02.retire|back")
            shut=[i for i in nv if nv[i]=={1}]
            drained=bool(shut) and any(j>max(shut) and dv[j]=={0} for j in dv)
            st=stop=={STOP}
            for i in setv:
                b=[x for x in nv if x<i and nv[x]=={1}]
                ok=(st and R and R[0]<i) or (bool(b) and any(min(b)<j<i and dv[j]=={0} for j in dv))
                c.ob("S02.retire",f.where(),bool(ok),"retires the kernel without having seen all inputs closed and then no data",key="S02.retire|early")
            if not setv:
                c.ob("S02.retire",f.where(),not drained,"does not retire a kernel whose inputs are closed and empty",key="S02.retire|late")
                # a path that goes on must have seen an open input or data that is left
                r0=R[0] if R else -1
                ok=any(i>r0 and nv[i]=={0} for i in nv) or any(i>r0 and dv[i]=={1} for i in dv)
                c.ob("S02.retire",f.where(),ok,"goes on without a look whether the inputs are closed",key="S02.retire|look")
    ranges(c,c.load("sys"),"S02.range",r"(Schedule|simple_schedule)::.*")

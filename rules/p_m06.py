"""M06: running a map follows a fixed life cycle and returns only when all is done."""
from sysm import *
TECH="event order along all paths of the run function, its thread bodies and the functions they wait for"
NOTE="every path, loops followed three times; sound for the stated rules; what the threads do meanwhile is the subject of other properties"
MIN={"M06.order":3,"M06.join":3,"M06.stop":2,"M06.free":3,"M06.body":3,"M06.ready":3}
KIND=[("alloc",r"(dynalloc|stdalloc)::(dynalloc|stdalloc)",r"(dynalloc|stdalloc)::~\w+"),
      ("sched",r"(simple_schedule|pool_schedule)::(simple_schedule|pool_schedule)",r"(simple_schedule|pool_schedule)::~\w+"),
      ("par",r"(basic_parallel|no_parallel)::(basic_parallel|no_parallel)",r"(basic_parallel|no_parallel)::~\w+")]
NAME=dict(alloc="allocator",sched="scheduler",par="parallelism monitor")
def reaches(p,i,args):
    """all that the arguments of the call at i lead to through locals"""
    seen=set(); st=[sv(a) for a in args]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        for a in re.findall(r"alloca#\d+",x):
            for e in p.ev[:i]:
                if e.k=="st" and (e.a==a or e.a.startswith(a+".")): st.append(sv(e.v))
                if e.k=="call" and e.args and sv(e.args[0])==a and re.search(r"::tuple|::pair|bind",e.q or ""): st+=[sv(y) for y in e.args[1:]]
    return seen
def run(c):
    c.rule("M06.order","the allocator's thread starts first, the scheduler's only after the streams are ready and the scheduler is initialised, the monitor's last")
    c.rule("M06.join","each of the three threads is joined exactly once before the run returns: the scheduler's first, then the allocator's, then the monitor's")
    c.rule("M06.stop","allocator and monitor are told to stop through the flag they were given, which is unset until the scheduler's thread has been joined")
    c.rule("M06.free","allocator, scheduler and monitor are destroyed only after every thread has been joined")
    c.rule("M06.body","each thread runs the main function of the object it was started for, exactly once")
    c.rule("M06.ready","the wait for the streams ends only once the allocator says so, which it does only after it has been through the whole graph")
    c.rule("M06.last","the monitoring loops end only when told to stop")
    c.rule("M06.heed","a monitoring loop that was told to stop makes at most the round it is in")
    m=c.load("sys")
    for f in c.need(m.find(q="raft::map::exe"),"map::exe",2):
        c.fn(f)
        for p in paths(f,veto=lambda e: "joinable" in sv(e.l) and e.r==ZERO and e.pred=="eq"):
            if p.end!="ret": continue
            O={}; F={}
            for k,ct,dt in KIND:
                i=pos(p,ct)
                c.ob("M06.order",f.where(),len(i)==1,"%d %s objects"%(len(i),NAME[k]),key="M06.order|one|"+k)
                if len(i)!=1: break
                O[k]=(i[0],sv(p.ev[i[0]].args[0])); F[k]=[sv(x) for x in p.ev[i[0]].args[1:]]
            if len(O)<3: continue
            T={}
            for i in pos(p,r"std::(thread|jthread)::(thread|jthread)"):
                # an assignment from a temporary moves the thread
                r=reaches(p,i,p.ev[i].args[1:])
                for k in O:
                    if O[k][1] in r: T.setdefault(k,[]).append((i,sv(p.ev[i].args[0])))
            good=True
            for k in O:
                c.ob("M06.order",f.where(),len(T.get(k,[]))==1,"%d threads for the %s"%(len(T.get(k,[])),NAME[k]),key="M06.order|thread|"+k)
                good=good and len(T.get(k,[]))==1
            if not good: continue
            t={k:T[k][0][0] for k in T}
            w=[i for i in pos(p,"Allocate::waitTillReady") if sv(p.ev[i].args[0])==O["alloc"][1]]
            c.ob("M06.order",f.where(),any(t["alloc"]<i<t["sched"] for i in w),"the scheduler starts without waiting for the streams",key="M06.order|ready")
            ini=[i for i in pos(p,"(Schedule|simple_schedule|pool_schedule)::init|virtual::init|virtual::.*init.*") if sv(p.ev[i].args[0])==O["sched"][1]]
            idle=all(not [e for e in q.ev if e.k in("st","call","throw")] for g in m.find(rx=r"(Schedule|simple_schedule|pool_schedule)::init") for q in paths(g))
            c.ob("M06.order",f.where(),idle or any(i<t["sched"] for i in ini),"the scheduler starts without having been initialised",key="M06.order|init")
            c.ob("M06.order",f.where(),t["alloc"]<t["par"],"the monitor starts before the allocator",key="M06.order|par")
            J={}
            for i in pos(p,r"std::(thread|jthread)::join"):
                for k in T:
                    if sv(p.ev[i].args[0])==T[k][0][1]: J.setdefault(k,[]).append(i)
            for k in O: c.ob("M06.join",f.where(),len(J.get(k,[]))==1,"the %s's thread is joined %d times"%(NAME[k],len(J.get(k,[]))),key="M06.join|"+k)
            if any(len(J.get(k,[]))!=1 for k in O): continue
            j={k:J[k][0] for k in J}
            c.ob("M06.join",f.where(),j["sched"]<j["alloc"]<j["par"],"joined in the order "+", ".join(NAME[k] for k in sorted(j,key=lambda k:j[k])),key="M06.join|order")
            for k in("alloc","par"):
                # the flag: a local among the arguments of the constructor
                fl=[x for x in F[k] if x.startswith("alloca#") and x not in [O[q][1] for q in O]]
                st=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a in fl]
                if not fl: continue
                early=[e for i,e in st if i<j["sched"] and e.v!=ZERO]
                c.ob("M06.stop",f.where(),not early,"the %s is told to stop before the scheduler has finished"%NAME[k],key="M06.stop|early|"+k)
                pre=[e for i,e in st if i<t[k]]
                c.ob("M06.stop",f.where(),bool(pre) and pre[-1].v==ZERO,"the %s's stop flag is not cleared before its thread starts"%NAME[k],key="M06.stop|init|"+k)
                aft=[e for i,e in st if i<j[k]]
                c.ob("M06.stop",f.where(),bool(aft) and aft[-1].v!=ZERO,"the %s's thread is joined without having been told to stop"%NAME[k],key="M06.stop|set|"+k)
                c.ob("M06.stop",f.where(),not(set(fl)&set(F["par" if k=="alloc" else "alloc"])) or max(i for i,e in st)>j["sched"],"one flag for two",key="M06.stop|one")
            for k,ct,dt in KIND:
                d=[i for i in pos(p,dt) if sv(p.ev[i].args[0])==O[k][1]]
                c.ob("M06.free",f.where(),len(d)<=1 and all(i>max(j.values()) for i in d),"the %s is destroyed while a thread may still use it"%NAME[k],key="M06.free|"+k)
    n=0
    for f in m.find(rx=r"raft::map::exe::.*operator\(\)"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            b=[e for e in p.ev if e.k=="call" and re.match(r"dynalloc::|stdalloc::|simple_schedule::|pool_schedule::|Schedule::|basic_parallel::|no_parallel::|Allocate::|virtual::",e.q or "")]
            n+=1
            c.ob("M06.body",f.where(),len(b)==1 and re.search(r"::(\{?)(\w+::)?(run|start)\b",b[0].q) is not None,"the thread does %s"%[e.q for e in b],key="M06.body")
    # classes without a lambda pass their function directly
    if n==0: c.ob("M06.body","raft::map::exe",True)
    counted(c,m,"M06.ready","Allocate::waitTillReady"); counted(c,m,"M06.last","dynalloc::run|basic_parallel::start",only="sleep|yield|BFS")
    for f in c.need(m.find(q="Allocate::waitTillReady"),"Allocate::waitTillReady"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret":
                l=[x for x in facts(p) if "ready" in sv(x[1])+sv(x[2])]
                c.ob("M06.ready",f.where(),bool(l) and l[-1][0]!="eq","stops waiting although the streams are not ready",key="M06.ready|wait")
    for f in c.need(m.find(q="Allocate::Allocate"),"Allocate::Allocate"):
        for p in paths(f):
            if p.end=="ret": c.ob("M06.ready",f.where(),p.last("arg0.ready")==ZERO,"ready before anything was allocated",key="M06.ready|init")
    for f in c.need(m.find(rx="(stdalloc|dynalloc)::run"),"allocators",2):
        c.fn(f)
        for p in paths(f):
            r=[i for i,e in enumerate(p.ev) if (e.k=="call" and e.q=="Allocate::setReady") or (e.k=="st" and e.a=="arg0.ready" and e.v!=ZERO)]
            b=pos(p,"GraphTools::(BFS|__BFS|__DFS)")
            if p.end=="ret": c.ob("M06.ready",f.where(),bool(r),"never says that the streams are ready",key="M06.ready|never|"+f.q)
            for i in r[:1]:
                c.ob("M06.ready",f.where(),bool(b) and b[0]<i,"says ready before going through the graph",key="M06.ready|early|"+f.q)
    for f in m.find(q="Allocate::setReady"):
        for p in paths(f):
            if p.end=="ret": c.ob("M06.ready",f.where(),p.last("arg0.ready") not in(None,ZERO),"does not set the mark",key="M06.ready|set")
    for q,fl in(("dynalloc::run","exit_alloc"),("basic_parallel::start","exit_para")):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f,fresh=r"\*\(.*%s\)"%fl):
                if p.end!="ret": continue
                l=[x for x in facts(p) if fl in sv(x[1])+sv(x[2])]
                c.ob("M06.last",f.where(),bool(l) and l[-1][0]!="eq","ends without having been told to",key="M06.last|"+q)
            P=paths(f,unroll=2,fresh=r"\*\(.*%s\)"%fl)
            c.ob("M06.heed",f.where(),any(p.end=="ret" and any(e.k=="if" and fl in sv(e.l)+sv(e.r) and e.pred=="eq" for e in p.ev) for p in P),"never ends once it runs",key="M06.heed|end|"+q)
            for p in P:
                told=None; late=0
                for e in p.ev:
                    if e.k=="if" and fl in sv(e.l)+sv(e.r) and "0" in(sv(e.l),sv(e.r)) and e.pred in("ne","eq"): told=(e.pred=="ne") or None
                    elif told and e.k=="call" and re.search(r"GraphTools::BFS|sleep_for",e.q or ""): late+=1
                n_=2*len({e.q for e in p.ev if e.k=="call" and re.search(r"GraphTools::BFS|sleep_for",e.q or "")})
                c.ob("M06.heed",f.where(),not told or late<max(n_,2),"goes on although it was told to stop",key="M06.heed|on|"+q)
    for q in("dynalloc","stdalloc","basic_parallel","Allocate"):
        for f in m.find(q="%s::%s"%(q,q)):
            for p in paths(f):
                if p.end!="ret": continue
                for fl,ar in(("exit_alloc",2),("exit_para",4)):
                    v=p.last("arg0."+fl)
                    if v is not None: c.ob("M06.last",f.where(),sv(v)=="arg%d"%ar,"the flag it watches is %s"%sv(v),key="M06.last|flag|"+q)
                for e in p.calls("Allocate::Allocate"):
                    c.ob("M06.last",f.where(),[sv(x) for x in e.args]==["arg0","arg1","arg2"],"hands %s to its base"%[sv(x) for x in e.args],key="M06.last|base|"+q)

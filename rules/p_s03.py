"""S03: every worker thread is joined once and released."""
from sysm import *
TECH="facts along all paths of the scheduler's loops"
NOTE="every path, loops followed three times (lists of up to two workers, two sweeps); sound for the stated rules"
MIN={"S03.join":2,"S03.done":2,"S03.worker":3,"S03.free":1}
def el(x,field):
    """element whose field is loaded: '*(*(E).finished)' -> '*(E)'"""
    m=re.fullmatch(r"\*\((.*)\.%s\)"%field,x)
    return m[1] if m else None
def worker(c,m,rule,full=True):
    for f in c.need(m.find(q="simple_schedule::simple_run"),"simple_schedule::simple_run"):
        c.fn(f)
        for p in paths(f):
            last=None
            for i,e in enumerate(p.ev):
                if e.k=="if" and e.r==ZERO and re.fullmatch(r"\*\(\*\(arg0\.finished\)\)('\d+)?",sv(e.l)): last=(i,e.pred!="eq")
                if e.k=="call" and e.q=="Schedule::kernelRun":
                    c.ob(rule,f.where(),last is not None and last[1] is False,"runs the kernel without having seen it unfinished",key=rule+"|run")
                    c.ob(rule,f.where(),sv(e.args[0]) in("*(arg0.k)","*(arg0)"),"runs %s"%sv(e.args[0]),key=rule+"|kernel")
                    c.ob(rule,f.where(),sv(e.args[1])=="*(arg0.finished)","lets it set %s"%sv(e.args[1]),key=rule+"|flag")
                    last=None
            if full and p.end=="ret":
                c.ob(rule,f.where(),last is not None and last[1] is True,"ends without having seen its kernel finished",key=rule+"|end")
def run(c):
    c.rule("S03.join","a worker is joined only after it has been seen finished, only if not joined before, and is then marked as joined")
    c.rule("S03.done","the scheduler returns only when its last look at the workers found each of them joined")
    c.rule("S03.worker","a worker runs its kernel only after seeing its finished mark unset, ends only once it is set, and a new worker is not finished")
    c.rule("S03.free","worker records are freed once each, and only with the scheduler")
    m=c.load("sys")
    for f in c.need(m.find(q="simple_schedule::start"),"simple_schedule::start"):
        c.fn(f); joins=0; rets=0
        for p in paths(f):
            joined={}      # element -> position of its join
            sweep={}       # element -> state in the current sweep
            lastlock=-1
            for i,e in enumerate(p.ev):
                if e.k=="if" and e.r==ZERO and re.match(r"std::mutex::try_lock\(arg0\.\w*mutex",sv(e.l)) and e.pred!="eq": sweep={}
                if e.k=="call" and e.q in("std::mutex::lock",) : sweep={}
                if e.k=="call" and e.q in("std::mutex::unlock",) : 
                    for x,j in list(joined.items()):
                        if j<0: continue
                        mk=[q for q in p.ev[:i] if q.k=="st" and q.a==x+".term" and q.v!=ZERO]
                        uses_joinable=any(q.k=="call" and q.q=="std::thread::joinable" for q in p.ev[:j])
                        c.ob("S03.join",f.where(),bool(mk) or uses_joinable,"a joined worker is not marked as joined",key="S03.join|mark")
                        joined[x]=-1
                if e.k=="if" and e.r==ZERO:
                    for fld in("term","finished"):
                        x=el(sv(e.l),fld)
                        if x: sweep.setdefault(x,{})[fld]=(e.pred!="eq")
                    g=re.fullmatch(r"std::thread::joinable\((.*)\.th\)('\d+)?",sv(e.l))
                    if g: sweep.setdefault(g[1],{})["joinable"]=(e.pred!="eq")
                if e.k=="call" and e.q=="std::thread::join":
                    joins+=1
                    x=re.sub(r"\.th$","",sv(e.args[0])); st=sweep.get(x,{})
                    c.ob("S03.join",f.where(),st.get("finished") is True,"joins a worker that has not been seen finished",key="S03.join|finished")
                    c.ob("S03.join",f.where(),st.get("term") is False or st.get("joinable") is True,"joins a worker without knowing that it has not been joined",key="S03.join|once")
                    sweep.setdefault(x,{})["joined"]=True; joined[x]=i
            if p.end=="ret":
                rets+=1
                for x,st in sweep.items():
                    ok=st.get("term") is True or st.get("joined") or st.get("joinable") is False
                    c.ob("S03.done",f.where(),ok,"returns although its last look found a worker %s"%("unfinished" if st.get("finished") is False else "finished but not joined"),key="S03.done|"+("open" if st.get("finished") is False else "unjoined"))
                c.ob("S03.done",f.where(),bool(pos(p,"std::mutex::(try_lock|lock)|std::(lock_guard|unique_lock)::.*")),"returns without looking at the workers",key="S03.done|looked")
        c.ob("S03.join",f.where(),joins>0,"no worker is ever joined",key="S03.join|any")
        c.ob("S03.done",f.where(),rets>0,"no path returns",key="S03.done|any")
    worker(c,m,"S03.worker")
    counted(c,m,"S03.worker","simple_schedule::simple_run"); counted(c,m,"S03.done","simple_schedule::start")
    for f in m.find(rx=r"(simple_schedule|Schedule)::.*"):
        for I in f.insts():
            if I.op in("call","invoke") and re.fullmatch(r"std::j?thread::detach",callee(I) or ""): c.ob("S03.join",f.where(),False,"lets go of a worker instead of joining it",key="S03.join|detach|"+f.q)
    for f in m.find(q="simple_schedule::thread_info_t::thread_info_t"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            t=pos(p,"std::thread::thread"); t=t[0] if t else len(p.ev)
            for fld in("finished","term"):
                st=[e for e in p.ev[:t] if e.k=="st" and e.a=="arg0."+fld]
                c.ob("S03.worker",f.where(),bool(st) and st[-1].v==ZERO,"%s starts as %s"%(fld,sv(st[-1].v) if st else "nothing"),key="S03.worker|init|"+fld)
            st=[e for e in p.ev[:t] if e.k=="st" and e.a=="arg0.data.finished"]
            c.ob("S03.worker",f.where(),bool(st) and sv(st[-1].v)=="arg0.finished","the worker watches %s"%[sv(e.v) for e in st],key="S03.worker|watch")
    frees=0
    for f in m.find(rx=r"(simple_schedule|Schedule)::[^:]*"):
        ps=None
        for I in f.insts():
            if callee(I)=="simple_schedule::thread_info_t::~thread_info_t":
                ps=paths(f); break
        if ps is None: continue
        c.fn(f)
        dt=re.search(r"::~",f.q) is not None
        for p in ps:
            d=[sv(p.ev[i].args[0]) for i in pos(p,"simple_schedule::thread_info_t::~thread_info_t")]
            frees+=len(d)
            c.ob("S03.free",f.where(),len(d)==len(set(d)),"frees a worker record twice",key="S03.free|twice")
            if not dt:
                for x in set(d):
                    j=[e for e in p.calls("std::thread::join") if sv(e.args[0])==x+".th"]
                    c.ob("S03.free",f.where(),bool(j),"frees the record of a worker that it has not joined",key="S03.free|running")
            else:
                els=[sv(e.l) for e in p.conds() if e.pred=="ne" and "thread_map" in sv(e.l) and "thread_map" in sv(e.r) and null(p,"*(%s)"%sv(e.l)) is not True]
                if p.end=="ret" and els: c.ob("S03.free",f.where(),len(d)==len(els),"frees %d of %d worker records"%(len(d),len(els)),key="S03.free|all")
    c.ob("S03.free","simple_schedule",frees>0,"worker records are never freed",key="S03.free|any")

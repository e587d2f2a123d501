"""M04: every kernel that is linked is registered, and each is run by one worker."""
from sysm import *
TECH="values and facts along all paths of the registering and scheduling functions"
NOTE="every path, loops followed three times; sound for the stated rules"
MIN={"M04.all":3,"M04.source":2,"M04.sink":2,"M04.own":2,"M04.worker":3,"M04.each":1}
OWN={"internally_created_kernels"}
def own(c,rid,f,p,alls):
    """exactly the library's kernels among alls are registered for deletion"""
    k=kept(p)
    for x in alls:
        ia=null(p,"*(%s.internal_alloc)"%x)
        n=sum(1 for _,s,y in k if s in OWN and y==x)
        if ia is True: c.ob(rid,f.where(),n==0,"%s is not the library's and is registered for deletion"%x,key=rid+"|%s|extra"%f.q)
        elif ia is False: c.ob(rid,f.where(),n>=1,"%s is the library's and is not registered for deletion"%x,key=rid+"|%s|missing"%f.q)
        else: c.ob(rid,f.where(),False,"%s: who made it is not looked at"%x,key=rid+"|%s|unasked"%f.q)
def run(c):
    c.rule("M04.all","linking registers both kernels with the map, and a kernel scheduled at run time registers with the set being run")
    c.rule("M04.source","exactly kernels without input ports are registered as sources")
    c.rule("M04.sink","exactly kernels without output ports are registered as sinks")
    c.rule("M04.own","exactly kernels marked as made by the library are registered for deletion")
    c.rule("M04.link","a link registers its kernels before it returns")
    c.rule("M04.idem","registration adds the given kernel to a container that keeps each kernel once")
    c.rule("M04.each","the scheduler hands every registered kernel to exactly one worker")
    c.rule("M04.worker","scheduling a kernel makes one worker record, with one thread, that runs this kernel")
    m=c.load("sys")
    def check(f,p,src,dst,alls,sets):
        k=kept(p)
        for x in alls:
            n=sum(1 for _,s,y in k if s in sets["all"] and y==x)
            c.ob("M04.all",f.where(),n>=1,"%s is not registered"%x,key="M04.all|%s|%s"%(f.q,x))
        for _,s,y in k:
            if s in sets["all"]: c.ob("M04.all",f.where(),y in alls,"registers %s"%y,key="M04.all|%s|other"%f.q)
        for rule,st,who,port in(("M04.source","src",src,"input"),("M04.sink","dst",dst,"output")):
            for x in alls:
                hp=None
                for cand in({x,"*(%s)"%x} if not x.startswith("*") else {x}):
                    v=callok(p,"Port::(hasPorts|count)",cand+"."+port); hp=v if v is not None else hp
                n=sum(1 for _,s,y in k if s in sets[st] and y==x)
                if x in who:
                    if hp is None: c.ob(rule,f.where(),n==0,"%s registered without asking for its ports"%x,key="%s|%s|unasked"%(rule,f.q)); 
                    if hp is None and n==0: c.ob(rule,f.where(),False,"%s: its ports are not looked at"%x,key="%s|%s|unasked"%(rule,f.q))
                    if hp is False: c.ob(rule,f.where(),n>=1,"%s has no %s ports and is not registered"%(x,port),key="%s|%s|missing"%(rule,f.q))
                if hp is True: c.ob(rule,f.where(),n==0,"%s has %s ports and is registered"%(x,port),key="%s|%s|extra"%(rule,f.q))
                if x not in who and hp is None: c.ob(rule,f.where(),n==0,"%s registered on the wrong side"%x,key="%s|%s|side"%(rule,f.q))
        own(c,"M04.own",f,p,alls)
    sets=dict(all={"all_kernels","kernel_set"},src={"source_kernels"},dst={"dst_kernels"},own={"internally_created_kernels"})
    for f in c.need(m.find(q="MapBase::updateKernels"),"MapBase::updateKernels"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret": check(f,p,["*(arg1)"],["*(arg2)"],["*(arg1)","*(arg2)"],sets)
    for f in c.need(m.find(q="MapBase::link"),"MapBase::link"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            u=pos(p,"MapBase::updateKernels")
            got=[[slots(p,i,"*(%s)"%sv(x)) for x in p.ev[i].args[1:]] for i in u]
            c.ob("M04.link",f.where(),["arg2","arg4"] in got,"registers %s"%got,key="M04.link|"+f.q)
    for f in c.need(m.find(q="Schedule::scheduleKernel"),"Schedule::scheduleKernel"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            check(f,p,["arg1"],["arg1"],["arg1"],sets)
            h=[e for e in p.ev if e.k=="call" and re.search(r"handleSchedule",e.q or "")]
            c.ob("M04.each",f.where(),len(h)==1 and sv(h[0].args[1])=="arg1","hands %s to a worker"%[sv(e.args[1]) for e in h],key="M04.each|scheduleKernel")
    # the sets of the schedule are those of the map
    for f in m.find(q="Schedule::Schedule"):
        if not re.search(r"raft::map",f.dem): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for a,b in(("kernel_set","all_kernels"),("source_kernels",)*2,("dst_kernels",)*2,("internally_created_kernels",)*2):
                v=p.last("arg0."+a)
                if v is not None: c.ob("M04.all",f.where(),sv(v)=="arg1."+b,"the scheduler's %s is the map's %s"%(a,sv(v)),key="M04.all|schedule|"+a)
    for f in c.need(m.find(q="keeper::operator+="),"keeper::operator+="):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            ins=[(i,e) for i,e in enumerate(p.ev) if e.k=="call" and re.match(r"std::(set|unordered_set|map|vector|list|multiset)::(emplace|insert|push_back|emplace_back)",e.q or "")]
            x=[slots(p,i,"*(%s)"%sv(e.args[-1])) if sv(e.args[-1]).startswith("alloca#") else sv(e.args[-1]) for i,e in ins]
            c.ob("M04.idem",f.where(),len(ins)>=1 and all(y=="arg1" for y in x),"adds %s"%x,key="M04.idem|what")
            c.ob("M04.idem",f.where(),all(re.match(r"std::(set|unordered_set)::",e.q) for _,e in ins),"adds to a container that may hold a kernel twice",key="M04.idem|set")
    # one worker for every registered kernel
    for f in c.need(m.find(q="simple_schedule::start"),"simple_schedule::start"):
        c.fn(f)
        seen=0
        for p in paths(f):
            hs=[(i,e) for i,e in enumerate(p.ev) if e.k=="call" and re.search(r"handleSchedule",e.q or "")]
            # an iteration lasts from one advance of the iterator to the next
            adv=[i for i,e in enumerate(p.ev) if e.k=="call" and re.search(r"_Rb_tree\w*iterator::operator\+\+",e.q or "")]
            if adv:
                lo=0
                for a in adv:
                    n=[e for i,e in hs if lo<=i<a]; lo=a
                    c.ob("M04.each",f.where(),len(n)==1,"%d workers for one registered kernel"%len(n),key="M04.each|start|count")
            for i,e in hs:
                x=sv(e.args[1]); seen+=1
                if re.match(r"\*\(std::",x): c.ob("M04.each",f.where(),re.search(r"iterator::operator\*",x) is not None,"hands over "+x[:80],key="M04.each|start|what")
                else: c.ob("M04.each",f.where(),not re.fullmatch(r"arg0.*|0",x),"hands over "+x[:80],key="M04.each|start|what")
            if p.end=="ret":
                acq=[sv(p.ev[i].args[0]) for i in pos(p,"keeper::acquire")]
                if acq: c.ob("M04.each",f.where(),any(mem(a)=="kernel_set" for a in acq),"runs the kernels of %s"%[mem(a) for a in acq],key="M04.each|start|set")
        c.ob("M04.each",f.where(),seen>0,"no registered kernel is handed to a worker",key="M04.each|start|any")
    for f in c.need(m.find(q="simple_schedule::handleSchedule"),"simple_schedule::handleSchedule"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            w=[(i,p.ev[i]) for i in pos(p,r"simple_schedule::thread_info_t::thread_info_t")]
            c.ob("M04.worker",f.where(),len(w)==1 and sv(w[0][1].args[1])=="arg1","makes %d workers, for %s"%(len(w),[sv(e.args[1]) for _,e in w]),key="M04.worker|make")
            ad=[(i,p.ev[i]) for i in pos(p,r"std::(vector|list|deque|set)::(emplace_back|push_back|insert|emplace)") if "thread_map" in sv(p.ev[i].args[0])]
            x=[slots(p,i,"*(%s)"%sv(e.args[-1])) if sv(e.args[-1]).startswith("alloca#") else sv(e.args[-1]) for i,e in ad]
            c.ob("M04.worker",f.where(),len(ad)==1 and (not w or x==[sv(w[0][1].args[0])]),"enters %s in the list of workers"%x,key="M04.worker|enter")
    for f in c.need([f for f in m.find(q="simple_schedule::thread_info_t::thread_info_t")],"worker constructor"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            t=pos(p,"std::thread::thread")
            c.ob("M04.worker",f.where(),len(t)==1,"starts %d threads"%len(t),key="M04.worker|thread")
            for i in t:
                a=p.ev[i].args
                c.ob("M04.worker",f.where(),"simple_run" in sv(a[1]),"the thread runs "+sv(a[1])[:60],key="M04.worker|function")
                if len(a)>2: c.ob("M04.worker",f.where(),slots(p,i,"*(%s)"%sv(a[2])) in("arg0.data","arg0.data.k"),"the thread is given "+slots(p,i,"*(%s)"%sv(a[2])),key="M04.worker|data")
                ks=[e for e in p.ev[:i] if e.k=="st" and e.a in("arg0.data","arg0.data.k")]
                c.ob("M04.worker",f.where(),bool(ks) and sv(ks[-1].v)=="arg1","its record names kernel %s"%[sv(e.v) for e in ks],key="M04.worker|kernel")

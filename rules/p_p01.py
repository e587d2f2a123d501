"""P01: placement and duplication keep the graph well formed."""
from sysm import *
TECH="values and facts along all paths of the placements, the worker's start and the duplicating monitor"
NOTE="every path, loops followed three times; the core of the k-th kernel is evaluated for 1, 2 and 3 cores; sound for the stated rules"
MIN={"P01.core":3,"P01.own":3,"P01.dup":6,"P01.none":2}
def ev_(t,env):
    """integer value of a rendered expression, None when it contains an unknown"""
    for k,v in env.items(): t=t.replace(k,str(v))
    def go(x):
        x=x.strip()
        m=re.fullmatch(r"([su])(rem|div)\((.*)\)",x)
        if m:
            d=0; parts=[""]
            for ch in m[3]:
                if ch==";" and d==0: parts.append(""); continue
                d+=ch in "("; d-=ch in ")"; parts[-1]+=ch
            if len(parts)!=2: return None
            a,b=go(parts[0]),go(parts[1])
            if a is None or not b: return None
            return a%b if m[2]=="rem" else a//b
        d=0
        for i in range(len(x)-1,0,-1):
            ch=x[i]; d+=ch==")"; d-=ch=="("
            if d==0 and ch in "+-" :
                a,b=go(x[:i]),go(x[i+1:])
                return None if a is None or b is None else a+b if ch=="+" else a-b
        m=re.fullmatch(r"\((.*)\)",x)
        if m: return go(m[1])
        return int(x) if re.fullmatch(r"-?\d+",x) else None
    return go(t)
FLIP={"ult":"ugt","ugt":"ult","ule":"uge","uge":"ule","slt":"sgt","sgt":"slt","sle":"sge","sge":"sle","eq":"eq","ne":"ne"}
CMP={"eq":lambda a,b:a==b,"ne":lambda a,b:a!=b,"ult":lambda a,b:a<b,"slt":lambda a,b:a<b,"ugt":lambda a,b:a>b,"sgt":lambda a,b:a>b,"ule":lambda a,b:a<=b,"sle":lambda a,b:a<=b,"uge":lambda a,b:a>=b,"sge":lambda a,b:a>=b}
def run(c):
    c.rule("P01.core","the basic placement gives each kernel a core that exists, the next one modulo the number of cores, at least one core assumed")
    c.rule("P01.dummy","the dummy placement assigns no core, and a kernel is born without one")
    c.rule("P01.own","the core assigned to a kernel is the one its worker is started with, and is known before the thread starts")
    c.rule("P01.dup","a clone gets, for each side of the original, a stream to a new port of the same neighbour, before it is scheduled, once")
    c.rule("P01.enabled","only kernels whose duplication was enabled are duplicated")
    c.rule("P01.none","without a parallelism monitor nothing is duplicated")
    carried(c,c.load("sys"),"P01.dup",(),("split_func","join_func"))
    m=c.load("sys")
    SET=r"(interface_partition|raft::kernel)::setCore|virtual::setCore"
    for f in c.need(m.find(q="partition_basic::partition"),"basic placement"):
        c.fn(f); HC="std::thread::hardware_concurrency()"
        for p in paths(f):
            S=[(i,p.ev[i]) for i in pos(p,SET)]
            direct=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a.endswith(".core_assign")]
            calls=[(i,sv(e.args[0]),sv(e.args[1])) for i,e in S]+[(i,e.a[:-12],sv(e.v)) for i,e in direct]
            calls.sort()
            it=iterfacts(p)
            for k,(i,end) in enumerate(it):
                if end or k+1>=len(it): continue
                n=[x for x in calls if i<x[0]<it[k+1][0]]
                c.ob("P01.core",f.where(),len(n)==1,"%d cores assigned to one kernel"%len(n),key="P01.core|each")
            if p.end=="ret" and it: c.ob("P01.core",f.where(),it[-1][1],"stops before the last kernel",key="P01.core|all")
            if p.end=="ret":
                acq=[sv(p.ev[i].args[0]) for i in pos(p,"keeper::acquire")]
                c.ob("P01.core",f.where(),all(a=="arg1" for a in acq),"places the kernels of %s"%acq,key="P01.core|set")
            for n in(0,1,2,3):
                env={"%s"%HC:n}; ok=True
                for pr,l,r in facts(p):
                    a,b=ev_(sv(l),env),ev_(sv(r),env)
                    if a is not None and b is not None and not CMP[pr](a,b): ok=False
                if not ok: continue
                for k,(_,_,v) in enumerate(calls):
                    x=ev_(v,env)
                    if n==0:
                        bad=re.search(r"[su](rem|div)\([^;]*;%s\)"%re.escape(HC),v)
                        c.ob("P01.core",f.where(),not bad,"divides by a number of cores that may be zero",key="P01.core|zero")
                    elif x is not None:
                        c.ob("P01.core",f.where(),0<=x<n,"%d cores: kernel %d gets core %d"%(n,k,x),key="P01.core|range|%d"%n)
                        y=ev_(calls[k-1][2],env) if k else None
                        if y is not None: c.ob("P01.core",f.where(),x==(y+1)%n,"%d cores: core %d follows core %d"%(n,x,y),key="P01.core|turn|%d"%n)
    for f in m.find(rx=r"interface_partition::setCore|raft::kernel::setCore"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=p.last("arg0.core_assign")
            g=[[sv(x) for x in p.ev[i].args] for i in pos(p,"raft::kernel::setCore")]
            c.ob("P01.own",f.where(),(v is not None and sv(v)=="arg1") or g==[["arg0","arg1"]],"records %s"%(sv(v) if v is not None else g),key="P01.own|record|"+f.q)
    for f in c.need(m.find(q="raft::kernel::getCoreAssignment"),"getCoreAssignment"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            r=[sv(e.v) for e in p.ev if e.k=="ret"]
            c.ob("P01.own",f.where(),r==["*(arg0.core_assign)"],"yields %s"%r,key="P01.own|read")
    for f in c.need(m.find(q="partition_dummy::partition"),"dummy placement"):
        c.fn(f)
        for p in paths(f):
            c.ob("P01.dummy",f.where(),not pos(p,SET) and not any(e.k=="st" and "core_assign" in e.a for e in p.ev),"assigns a core",key="P01.dummy|assign")
    for f in c.need(m.find(q="raft::kernel::kernel"),"kernel constructors"):
        for p in paths(f):
            if p.end!="ret": continue
            v=p.last("arg0.core_assign")
            if v is None and pos(p,"raft::kernel::kernel"): continue
            c.ob("P01.dummy",f.where(),v is not None and not v[0] and v[1] in(-1,2**64-1),"a kernel is born on core %s"%(sv(v) if v is not None else "unset"),key="P01.dummy|born|"+f.dem)
    for f in c.need(m.find(q="simple_schedule::handleSchedule"),"handleSchedule"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for i in pos(p,r"simple_schedule::thread_info_t::thread_info_t"):
                a=[sv(x) for x in p.ev[i].args]
                if len(a)>2: c.ob("P01.own",f.where(),re.fullmatch(r"raft::kernel::getCoreAssignment\(arg1\)('\d+)?|\*\(arg1\.core_assign\)",a[2]) is not None,"the worker is started on core "+a[2],key="P01.own|given")
    for f in c.need(m.find(q="simple_schedule::thread_info_t::thread_info_t"),"worker constructor"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            t=pos(p,"std::thread::thread"); s=[(i,sv(e.v)) for i,e in enumerate(p.ev) if e.k=="st" and e.a=="arg0.data.loc"]
            for i in t:
                b=[v for j,v in s if j<i]; a=[v for j,v in s if j>i]
                c.ob("P01.own",f.where(),b[-1:] in(["arg2"],["*(arg1.core_assign)"]) or (b[-1:] and b[-1].startswith("raft::kernel::getCoreAssignment(arg1)")),"its record holds core %s when the thread starts"%(b[-1:] or "none"),key="P01.own|before")
                c.ob("P01.own",f.where(),not a,"the core is written after the thread started",key="P01.own|after")
    for f in c.need(m.find(q="simple_schedule::simple_run"),"worker"):
        c.fn(f)
        for p in paths(f):
            s=[sv(p.ev[i].args[0]) for i in pos(p,r"raft::affinity::set")]
            if p.end!="ret": continue
            for loc in(-1,0,1):
                ok=True
                for pr,l,r in facts(p):
                    for a,b,q in((l,r,pr),(r,l,FLIP[pr])):
                        if sv(a)=="*(arg0.loc)" and not b[0]:
                            v=b[1]-2**64 if b[1]>=2**63 else b[1]
                            x,y=(loc%2**64,v%2**64) if q[0]=="u" else (loc,v)
                            ok=ok and CMP[q](x,y)
                if not ok: continue
                if loc==-1: c.ob("P01.own",f.where(),not s,"is bound to a core though it has none",key="P01.own|unbound")
                else: c.ob("P01.own",f.where(),s==["*(arg0.loc)"],"has core %d and is bound to %s"%(loc,s or "none"),key="P01.own|bound")
    # duplication
    SCH=r"(Schedule|simple_schedule|pool_schedule)::scheduleKernel|virtual::.*scheduleKernel.*"
    ALL=r"(Allocate|stdalloc|dynalloc)::allocate|virtual::.*allocate.*"
    some=0
    for f in c.need(m.find(q="basic_parallel::start"),"duplicating monitor"):
        c.fn(f)
        for p in paths(f):
            cl=[i for i,e in enumerate(p.ev) if e.k=="call" and re.search(r"(^|::)clone\b",e.q or "")]
            S=Strs(p)
            for n,i in enumerate(cl):
                hi=cl[n+1] if n+1<len(cl) else len(p.ev)
                if n+1==len(cl) and p.end not in("ret",): 
                    if p.end!="cut": continue
                K=sv(p.ev[i].args[0]); q=p.ev[i].q
                # the value the call yields
                C=None
                for e in p.ev[i+1:hi]:
                    for x in(e.args or []):
                        mm=re.search(r"(%s\(%s\)(?:'\d+)?)"%(re.escape(q),re.escape(K)),sv(x))
                        if mm: C=mm[1]
                sc=[j for j in range(i,hi) if p.ev[j].k=="call" and re.fullmatch(SCH,p.ev[j].q or "")]
                if not sc and p.end=="cut": continue
                c.ob("P01.dup",f.where(),len(sc)==1 and sv(p.ev[sc[0]].args[1])==C,"the clone is scheduled %d times"%len(sc),key="P01.dup|schedule")
                al=[j for j in range(i,hi) if p.ev[j].k=="call" and re.fullmatch(ALL,p.ev[j].q or "")]
                some+=1
                c.ob("P01.dup",f.where(),all(j<sc[0] for j in al) if sc else True,"a stream of the clone is made after it is scheduled",key="P01.dup|order")
                used=set()
                for side,opp in(("input","output"),("output","input")):
                    can={0:True,1:True}
                    for e in p.ev[i:hi]:
                        if e.k!="if": continue
                        for a,b,pr in((e.l,e.r,e.pred),(e.r,e.l,FLIP[e.pred])):
                            mm=re.match(r"Port::(count|hasPorts)\(%s\.%s\)"%(re.escape(K),side),sv(a))
                            if mm and not b[0]:
                                for z in can: can[z]=can[z] and CMP[pr](z,b[1])
                    has=True if can[1] else False if can[0] else None
                    N="*(Port::getPortInfo(%s.%s).other_kernel)"%(K,side)
                    mine=[]
                    for j in al:
                        a=[re.sub(r"'\d+(?=[).\]]|$)","",sv(x)) for x in p.ev[j].args[1:3]]
                        own="Port::getPortInfo(%s.%s)"%(re.sub(r"'\d+(?=[).\]]|$)","",C or "?"),side)
                        k=1 if side=="input" else 0
                        if a[k]==own: mine.append((j,a[1-k])); used.add(j)
                    if has is True:
                        c.ob("P01.dup",f.where(),len(mine)==1,"%d streams for the clone's %s"%(len(mine),side),key="P01.dup|%s|count"%side)
                        for j,o in mine:
                            Nn=re.sub(r"'\d+(?=[).\]]|$)","",N)
                            mm=re.fullmatch(r"Port::getPortInfoFor\((.*),(alloca#\d+)\)",o)
                            c.ob("P01.dup",f.where(),mm is not None and mm[1]=="%s.%s"%(Nn,opp),"the clone's %s is connected to %s"%(side,o[:120]),key="P01.dup|%s|neighbour"%side)
                            if not mm: continue
                            # the name: text of the index addPort of this neighbour returned
                            ts=[e for e in p.ev[i:j] if e.k=="call" and re.search(r"to_string$",e.q or "") and sv(e.args[0])==mm[2]]
                            src=sv(ts[-1].args[1]) if ts else "?"
                            src=re.sub(r"'\d+(?=[).\]]|$)","",src)
                            c.ob("P01.dup",f.where(),re.fullmatch(r"(virtual|raft)::.*addPort.*",src) is not None and src.endswith("(%s)"%Nn),"the neighbour's port is named by "+src[:120],key="P01.dup|%s|port"%side)
                    elif has is False: c.ob("P01.dup",f.where(),not mine,"a stream for a side without ports",key="P01.dup|%s|extra"%side)
                c.ob("P01.dup",f.where(),len(used)==len(al),"a stream that does not end at the clone",key="P01.dup|foreign")
    c.ob("P01.dup","(basic_parallel::start)",some>0,"%d clones found on the paths"%some,key="P01.dup|any")
    seen=0
    for f in m.find(rx=r"basic_parallel::start::.*operator\(\)"):
        for p in paths(f):
            ad=pos(p,r"std::(vector|list|deque|set)::(emplace_back|push_back|insert|emplace)")
            if not ad: continue
            c.fn(f); seen+=1
            en=[pr for pr,l,r in facts(p,ad[0]) for a,b in((l,r),(r,l)) if b==ZERO and re.search(r"dup_enabled\)$",sv(a))]
            c.ob("P01.enabled",f.where(),bool(en) and en[-1]!="eq","a kernel is picked whose duplication was not enabled",key="P01.enabled|pick")
    for f in c.need(m.find(q="no_parallel::start"),"no_parallel::start"):
        c.fn(f)
        for p in paths(f):
            b=[e.q for e in p.ev if e.k=="call" and re.search(r"clone|addPort|allocate|scheduleKernel",e.q or "")]
            c.ob("P01.none",f.where(),not b,"calls %s"%b,key="P01.none")
            c.ob("P01.none",f.where(),p.end!="cut","does not return",key="P01.none|ends")
    # a port added at run time: named by the index returned, indices never reused
    for f in c.need(m.find(q="raft::parallel_k::addPortTo"),"addPortTo"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            r=[sv(e.v) for e in p.ev if e.k=="ret"]; ad=[(i,p.ev[i]) for i in pos(p,"Port::add(Port|_port)")]
            c.ob("P01.dup",f.where(),len(ad)==1 and sv(ad[0][1].args[0])=="arg1","adds %d ports"%len(ad),key="P01.dup|add|count")
            st=p.last("arg0.port_name_index")
            c.ob("P01.dup",f.where(),st is not None and sv(st)=="*(arg0.port_name_index)+1","the next index is %s"%(sv(st) if st is not None else "the same"),key="P01.dup|add|next")
            for i,e in ad:
                ts=[x for x in p.ev[:i] if x.k=="call" and re.search(r"to_string$",x.q or "") and sv(x.args[0])==Strs(p).at(i,e.args[1])]
                c.ob("P01.dup",f.where(),bool(ts) and [sv(ts[-1].args[1])]==r,"the port is called %s and %s is returned"%(sv(ts[-1].args[1]) if ts else "?",r),key="P01.dup|add|name")
    for f in c.need(m.find(rx=r"raft::(split|join)::addPort"),"addPort of split and join",2):
        c.fn(f); side="output" if "split" in f.q else "input"
        for p in paths(f):
            if p.end!="ret": continue
            r=[sv(e.v) for e in p.ev if e.k=="ret"]
            a=[p.ev[i] for i in pos(p,"raft::parallel_k::addPortTo")]
            if a: c.ob("P01.dup",f.where(),len(a)==1 and sv(a[0].args[1])=="arg0."+side and r[0].startswith("raft::parallel_k::addPortTo("),"adds to %s, yields %s"%([sv(e.args[1]) for e in a],r),key="P01.dup|side|"+f.q)

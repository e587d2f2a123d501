"""M03: every link gets one buffer, shared by both ends, before kernels start."""
from sysm import *
TECH="values and facts along all paths of the allocator, of the port record and of the traversal callbacks"
NOTE="every path, loops followed three times; that the traversal reaches every link is property M05, that it comes first M06"
MIN={"M03.both":3,"M03.twice":2,"M03.make":3,"M03.kind":6,"M03.free":2,"M03.all":2,"M03.fixed":1,"M03.info":8}
FRESH=r"PortInfo::getFIFO\((arg\d)\)('\d+)?|\*\((arg\d)\.fifo_[ab]\)"
def run(c):
    c.rule("M03.both","installing a stream puts it at both ends of the link and into the list of the allocator's streams")
    c.rule("M03.twice","a stream is installed only where neither end has one; otherwise the double-initialisation error is thrown and nothing is changed")
    c.rule("M03.make","for each link one stream is made and installed: on the user's buffer where there is one, else of the fixed size where there is one, else of a default size above zero")
    c.rule("M03.kind","the stream makers registered for a port of type T make streams of type T")
    c.rule("M03.free","each stream in the allocator's list is freed once, by the allocator and by nobody else")
    c.rule("M03.all","the allocators go through the links of all sources and allocate for each the stream of exactly this link")
    c.rule("M03.fixed","only links without a fixed size are resized")
    c.rule("M03.info","a port record starts without stream, link and buffer, and a copy of it carries all of them over")
    m=c.load("sys")
    for f in c.need(m.find(q="Allocate::initialize"),"Allocate::initialize"):
        c.fn(f)
        for p in paths(f):
            st=[(i,sv(e.args[0]),sv(e.args[1])) for i,e in enumerate(p.ev) if e.k=="call" and e.q=="PortInfo::setFIFO"]
            st+=[(i,e.a.rsplit(".",1)[0],sv(e.v)) for i,e in enumerate(p.ev) if e.k=="st" and re.search(r"^arg\d\.fifo_[ab]$",e.a)]
            ins=[i for i in pos(p,r"std::(set|vector|list|deque)::(insert|emplace|push_back|emplace_back)") if mem(sv(p.ev[i].args[0]))=="allocated_fifo"]
            if p.end=="ret":
                for x in("arg1","arg2"):
                    if any(not re.match(r"arg\d",slots(p,i,o)) for i,o,_ in st): continue    # by way of a list
                    v={slots(p,i,y) if y.startswith("*(alloca") else y for i,o,y in st if o==x}
                    c.ob("M03.both",f.where(),v=={"arg3"},"the %s port gets %s"%("source" if x=="arg1" else "destination",sorted(v) or "no stream"),key="M03.both|"+x)
                    hi=min([i for i,o,_ in st if o==x],default=len(p.ev))
                    fr=None
                    for pr,l,r in facts(p,hi):
                        g=re.fullmatch(FRESH,sv(l))
                        if g and x in g.groups() and r==ZERO: fr=(pr=="eq")
                    c.ob("M03.twice",f.where(),fr is True,"installs a stream at the %s port without having found it free"%("source" if x=="arg1" else "destination"),key="M03.twice|"+x)
                v=[slots(p,i,"*(%s)"%sv(p.ev[i].args[-1])) if sv(p.ev[i].args[-1]).startswith("alloca") else sv(p.ev[i].args[-1]) for i in ins]
                c.ob("M03.both",f.where(),v==["arg3"],"the list of streams gets %s"%v,key="M03.both|list")
            elif thrown(p):
                c.ob("M03.twice",f.where(),exname(thrown(p))=="PortDoubleInitialize","throws "+exname(thrown(p)),key="M03.twice|error")
                c.ob("M03.twice",f.where(),not st and not ins,"throws after installing the stream",key="M03.twice|clean")
    for f in c.need(m.find(q="Allocate::allocate"),"Allocate::allocate"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            mk=pos(p,r"std::function::operator\(\)"); ini=pos(p,"Allocate::initialize")
            c.ob("M03.make",f.where(),len(mk)==1 and len(ini)==1,"makes %d and installs %d streams"%(len(mk),len(ini)),key="M03.make|one")
            if len(mk)!=1 or len(ini)!=1: continue
            a=[sv(x) for x in p.ev[ini[0]].args]
            c.ob("M03.make",f.where(),a[:3]==["arg0","arg1","arg2"] and a[3]==sv(p.ev[mk[0]].res),"installs %s at %s, %s"%(a[3][:40],a[1],a[2]),key="M03.make|install")
            g=[sv(x) for x in p.ev[mk[0]].args][1:]
            ub=null(p,"*(arg1.existing_buffer)"); fx=null(p,"*(arg1.fixed_buffer_size)")
            if ub is False: c.ob("M03.make",f.where(),g==["*(arg1.nitems)","*(arg1.start_index)","*(arg1.existing_buffer)"],"a stream on a user buffer is made from %s"%g,key="M03.make|user")
            elif ub is None: c.ob("M03.make",f.where(),g[2]=="*(arg1.existing_buffer)","makes a stream without looking for a user buffer",key="M03.make|unasked")
            else:
                c.ob("M03.make",f.where(),g[2]in("0","*(arg1.existing_buffer)"),"a stream without user buffer is made on %s"%g[2],key="M03.make|nouser")
                al=re.fullmatch(r"\d+",g[1])
                c.ob("M03.make",f.where(),not al or (int(g[1])>0 and int(g[1])&(int(g[1])-1)==0),"alignment "+g[1],key="M03.make|align")
                if fx is False: c.ob("M03.make",f.where(),g[0]=="*(arg1.fixed_buffer_size)","a stream of fixed size is made of size "+g[0],key="M03.make|fixed")
                elif fx is True: c.ob("M03.make",f.where(),not re.fullmatch(r"0|-\d+",g[0]) and "fixed" not in g[0],"a stream of default size is made of size "+g[0],key="M03.make|default")
                else: c.ob("M03.make",f.where(),"fixed_buffer_size" in g[0],"makes a stream without looking for a fixed size",key="M03.make|fixedunasked")
            src=[sv(p.ev[i].args[0]) for i in pos(p,r"std::(map|unordered_map)::(operator\[\]|at|find)")]
            c.ob("M03.make",f.where(),any("const_map" in x for x in src) and all("arg2.const_map" not in x or True for x in src),"the stream maker does not come from the port",key="M03.make|maker")
    # the maker asked for is one that was registered
    asked=set()
    for f in m.find(q="Allocate::allocate"):
        for p in paths(f):
            for i in pos(p,r"std::function::operator\(\)|Allocate::initialize")[:1]:
                ks=[]
                for j in pos(p,r"std::(map|unordered_map)::(operator\[\]|at)"):
                    if j>=i: continue
                    ks.append(content(p,j,sv(p.ev[j].args[1])))
                if len(ks)>=2 and all(k is not None and re.fullmatch(r"-?\d+",k) for k in ks[-2:]): asked.add(tuple(ks[-2:]))
    for f in m.find(q="Port::initializeConstMap"):
        for p in paths(f):
            if p.end!="ret": continue
            have=set(); unknown=False
            for j in pos(p,r"std::(map|unordered_map)::(insert|emplace|insert_or_assign|try_emplace|operator\[\])"):
                e=p.ev[j]; o=sv(e.args[0]); g=re.search(r"operator\[\]\(arg1\.const_map,([\w#]+)\)",o)
                if not g:
                    # a table of makers filled before it is put in
                    if not re.fullmatch(r"arg1\.const_map",o): unknown=True
                    continue
                t=content(p,j,g[1]); x=sv(e.args[1]) if len(e.args)>1 else ""
                k=next((sv(y.v) for y in reversed(p.ev[:j]) if y.k=="st" and y.a in(x+".#0",x+".first")),None)
                if k is None and "operator[]" in e.q: k=content(p,j,x)
                if k is None or not re.fullmatch(r"-?\d+",t) or not re.fullmatch(r"-?\d+",k): unknown=True
                else: have.add((t,k))
            for a in asked:
                c.ob("M03.kind",f.where(),unknown or a in have,"the stream maker the allocator asks for (kind %s, variant %s) is not among those registered %s"%(a+(sorted(have),)),key="M03.kind|registered")
    for f in m.find(rx=r"Port::(add_port|addInPlacePorts)"):
        for p in paths(f):
            if p.end!="ret": continue
            ini=pos(p,"Port::initializeConstMap")
            for j in pos(p,r"std::(map|unordered_map)::(insert|emplace|insert_or_assign|try_emplace)"):
                if "portmap" not in sv(p.ev[j].args[0]) or "name_map" in sv(p.ev[j].args[0]): continue
                c.ob("M03.kind",f.where(),any(i<j for i in ini),"a port is added without stream makers",key="M03.kind|without|"+f.q)
    # element type of the makers
    for f in c.need([f for f in m.find(q="Port::initializeConstMap")],"Port::initializeConstMap",2):
        c.fn(f); n=0
        T=re.search(r"initializeConstMap<(.*)>\(",f.dem)[1]
        for I in f.insts():
            for o in I.a:
                if "fn" in o and m.q(o["fn"]).startswith("RingBuffer::"):
                    n+=1; d=m.dem(o["fn"])
                    c.ob("M03.kind",f.where(),d.startswith("RingBuffer<%s, "%T) or " RingBuffer<%s, "%T in d,"ports of %s get streams made by %s"%(T,d[:80]),key="M03.kind|maker")
        c.ob("M03.kind",f.where(),n>0,"no stream maker for "+T,key="M03.kind|none")
    for f in m.find(rx=r"Port::(add_port|addInPlacePorts|addPort)"):
        T=re.search(r"::(add_port|addInPlacePorts|addPort)<(.*)>\(",f.dem)
        if not T: continue
        for I in f.insts():
            q=callee(I) or ""
            if q in("Port::initializeConstMap",):
                d=m.dem(I.fn); t=re.search(r"initializeConstMap<(.*)>\(",d)[1]
                c.fn(f); c.ob("M03.kind",I.where(),T[2]==t or T[2].startswith(t+","),"a port of %s is given the stream makers of %s"%(T[2],t),key="M03.kind|port")
    for f in m.find(q="RingBuffer::make_new_fifo"):
        T=re.match(r"(RingBuffer<.*>)::make_new_fifo\(",f.dem)
        for I in f.insts():
            if callee(I)=="RingBuffer::RingBuffer" and I.fn and T:
                c.fn(f); c.ob("M03.kind",I.where(),m.dem(I.fn).startswith(T[1]+"::"),"makes "+m.dem(I.fn)[:80],key="M03.kind|make")
    # freeing
    DT=r".*(FIFO::~FIFO|RingBuffer\w*::~RingBuffer).*"
    seen=0
    for f in c.need(m.find(q="Allocate::~Allocate"),"Allocate::~Allocate"):
        ps=[p for p in paths(f) if p.end=="ret"]
        if not ps: continue
        c.fn(f); seen+=1
        for p in ps:
            it=iterfacts(p); d=pos(p,DT)
            if it: c.ob("M03.free",f.where(),it[-1][1],"stops before the last stream",key="M03.free|end")
            c.ob("M03.free",f.where(),any("allocated_fifo" in sv(x) for e in p.ev if e.k=="call" and not re.search("::~",e.q or "") for x in e.args),"does not look at its streams",key="M03.free|list")
            for n,(i,end) in enumerate(it):
                if end: continue
                hi=it[n+1][0] if n+1<len(it) else len(p.ev)
                k=[j for j in d if i<j<hi]
                nul=any(e.k=="if" and e.pred=="eq" and e.r==ZERO and re.fullmatch(r"\*\(.*operator(\*|->|\[\])\(.*|arg0",sv(e.l)) for e in p.ev[i:hi])
                c.ob("M03.free",f.where(),len(k)==(0 if nul else 1),"frees a stream %d times"%len(k),key="M03.free|once")
    c.need([1]*seen,"destructor of the allocator")
    for k in m.raw:
        f=m.func(k)
        if re.match(r"RingBuffer|FIFO|Allocate::~",f.q): continue
        for I in f.insts():
            q=callee(I) or ""
            if I.op in("call","invoke") and q.startswith("virtual::") and "~FIFO" in q:
                c.ob("M03.free",I.where(),False,"%s frees a stream"%f.q,key="M03.free|other|"+f.q)
    # every link
    lam={}
    for f in m.find(rx=r"(stdalloc|dynalloc)::run(::.*)?"):
        for p in paths(f):
            if p.end!="ret": continue
            for e in p.calls("Allocate::allocate|virtual::.*allocate.*"):
                lam.setdefault(f.dem.split("::operator()")[0],[]).append((f,p,[sv(x) for x in e.args]))
    for f in c.need(m.find(rx="(stdalloc|dynalloc)::run"),"allocators",2):
        c.fn(f); cls=f.q.split("::")[0]
        own=[k for k in lam if k.startswith(cls+"::run")]
        c.ob("M03.all",f.where(),bool(own) or bool([1 for g in m.find(rx=cls+r"::.*") for I in g.insts() if callee(I)=="Allocate::allocate"]),"never allocates a stream",key="M03.all|any|"+cls)
        for p in paths(f):
            if p.end!="ret": continue
            b=pos(p,"GraphTools::BFS")
            c.ob("M03.all",f.where(),len(b)>=1,"does not go through the graph",key="M03.all|walk|"+cls)
            if not b: continue
            src=sv(p.ev[b[0]].args[0])
            c.ob("M03.all",f.where(),"arg0.source_kernels" in src or not src.startswith("keeper::"),"starts from "+src,key="M03.all|sources|"+cls)
            fo=sv(p.ev[b[0]].args[1])
            for e in p.ev[:b[0]]:
                if e.k=="call" and e.q=="std::function::function" and sv(e.args[0])==fo:
                    d=m.dem(e.I.fn)
                    g=re.search(r"function<(\w+::run\(\)::\$_\d+|\w+::run\(\)::'lambda\d*'\([^)]*\))",d)
                    if g: c.ob("M03.all",f.where(),any(k.startswith(g[1]) for k in own),"the first walk through the graph does not allocate",key="M03.all|first|"+cls)
    for k,l in lam.items():
        for f,p,a in l:
            c.fn(f); c.ob("M03.all",f.where(),a[1:3]==["arg1","arg2"] if "operator()" in f.dem else True,"allocates for the ports %s"%a[1:3],key="M03.all|ports")
        g=l[0][0]
        if "operator()" in g.dem:
            for p in paths(g):
                had=any(re.fullmatch(r"PortInfo::getFIFO\(arg[12]\)('\d+)?",sv(l)) and r==ZERO and pr!="eq" for pr,l,r in facts(p))
                if p.end=="ret" and not had: c.ob("M03.all",g.where(),len(p.calls("Allocate::allocate|virtual::.*allocate.*"))==1,"a link gets %d streams"%len(p.calls("Allocate::allocate|virtual::.*allocate.*")),key="M03.all|one")
    n=0
    for k in list(m.raw):
        f=m.func(k)
        if re.match(r"RingBuffer|FIFO|DataManager|probe::",f.q): continue
        if not any("resize" in (callee(I) or "") and "RingBuffer" in (callee(I) or "") for I in f.insts()): continue
        c.fn(f)
        for p in paths(f):
            for i in pos(p,r"virtual::.*resize.*"):
                n+=1; o=sv(p.ev[i].args[0]); g=re.match(r"PortInfo::getFIFO\((\w+)\)",o)
                w=g[1] if g else "arg1"
                c.ob("M03.fixed",f.where(),null(p,"*(%s.fixed_buffer_size)"%w,i) is True,"resizes the stream of a link whose size may be fixed",key="M03.fixed|"+f.q)
                cap=sv(p.ev[i].args[1])
                c.ob("M03.fixed",f.where(),not re.fullmatch(r"\d+|-.*",cap),"resizes to "+cap[:40],key="M03.fixed|size|"+f.q)
    if n==0: c.ob("M03.fixed","library",True)
    # port records
    for f in c.need(m.find(q="PortInfo::PortInfo"),"PortInfo constructors",3):
        c.fn(f); copy="PortInfo const&" in f.dem or "PortInfo&" in f.dem
        for p in paths(f):
            if p.end!="ret": continue
            S=Strs(p)
            for fld in("fifo_a","fifo_b","other_kernel","my_kernel","fixed_buffer_size","existing_buffer","nitems","start_index","out_of_order"):
                v=p.last("arg0."+fld)
                if copy: c.ob("M03.info",f.where(),v is not None and sv(v)=="*(arg1.%s)"%fld,"a copy has %s = %s"%(fld,"nothing" if v is None else sv(v)),key="M03.info|copy|"+fld)
                elif fld in("existing_buffer","nitems","start_index") and len(f.args)>=5:
                    k=dict(existing_buffer=2,nitems=3,start_index=4)[fld]
                    c.ob("M03.info",f.where(),v is not None and sv(v)=="arg%d"%k,"%s = %s"%(fld,"nothing" if v is None else sv(v)),key="M03.info|mem|"+fld)
                elif fld!="my_kernel": c.ob("M03.info",f.where(),v==ZERO,"%s starts as %s"%(fld,"nothing" if v is None else sv(v)),key="M03.info|init|"+fld)
            if copy:
                for fld in("my_name","other_name"):
                    c.ob("M03.info",f.where(),S.at(len(p.ev),"arg0."+fld)=="arg1."+fld,"a copy has %s of %s"%(fld,S.at(len(p.ev),"arg0."+fld)),key="M03.info|copy|"+fld)
                for fld,rx in(("type","memcpy|std::type_index::(type_index|operator=)"),("const_map",r"std::map::(map|operator=)"),("split_func",r"std::function::(function|operator=)"),("join_func",r"std::function::(function|operator=)")):
                    k=[e for e in p.ev if (e.k=="call" and re.fullmatch(rx,e.q or "") and len(e.args)>=2 and sv(e.args[0])=="arg0."+fld and sv(e.args[1]).startswith("arg1."+fld)) or (e.k=="st" and e.a.startswith("arg0."+fld) and "arg1."+fld in sv(e.v))]
                    c.ob("M03.info",f.where(),bool(k),"a copy does not carry "+fld,key="M03.info|copy|"+fld)
    for f in c.need(m.find(q="PortInfo::setFIFO"),"PortInfo::setFIFO"):
        for p in paths(f):
            if p.end=="ret":
                for x in("a","b"):
                    v=p.last("arg0.fifo_"+x); c.ob("M03.info",f.where(),v is not None and sv(v)=="arg1","fifo_%s is set to %s"%(x,"nothing" if v is None else sv(v)),key="M03.info|set|"+x)
    for f in c.need(m.find(q="PortInfo::getFIFO"),"PortInfo::getFIFO"):
        for p in paths(f):
            if p.end=="ret": 
                v=p.ev[-1].v
                c.ob("M03.info",f.where(),v is not None and re.fullmatch(r"\*\(arg0\.fifo_[ab]\)('\d+)?",sv(v)) is not None,"the stream of a port is given as "+sv(v),key="M03.info|get")
    ranges(c,c.load("sys"),"M03.range",r"(Allocate|stdalloc|dynalloc)::.*")

"""K05: user memory is divided among ports without gap or overlap, and streams on it stay on it."""
from sysm import *
import p_m09
TECH="values along all paths of the division, the stream builders, resizing and release"
NOTE="every path, loops followed twice; element sizes of the instantiated types; streams of element types stored by pointer are the known finding"
MIN={"K05.segments":6,"K05.memory":4,"K05.record":2,"K05.build":4,"K05.stream":6,"K05.fixed":4,"K05.free":4}
def last(p,a,upto=None):
    v=None
    for e in p.ev[:upto]:
        if e.k=="st" and e.a==a: v=e.v
    return v
def run(c):
    c.rule("K05.segments","in-place ports are named by their index and cut the memory given into consecutive segments that cover it")
    c.rule("K05.memory","the ports of a kernel built on user memory know that memory and its length in bytes")
    c.rule("K05.record","a port record keeps the segment it was made with")
    c.rule("K05.build","the stream of a port with a segment is built on exactly this segment")
    c.rule("K05.stream","a stream built on memory uses it as its storage, has its capacity and is full of its elements")
    c.rule("K05.fixed","a stream on user memory is never resized")
    c.rule("K05.free","a stream on user memory never frees it")
    m=c.load("sys")
    p_m09.inplace(c,m,"K05.segments")
    n=0
    for f in c.need(m.find(q="Port::Port"),"Port::Port"):
        if len(f.args)<4: continue
        c.fn(f); n+=1
        for p in paths(f):
            if p.end!="ret": continue
            for a,w in(("arg0.alloc_ptr","arg2"),("arg0.alloc_ptr_length","arg3")):
                v=last(p,a); c.ob("K05.memory",f.where(),v is not None and sv(v)==w,"%s is %s"%(a[5:],sv(v) if v is not None else "not set"),key="K05.memory|"+a)
    for f in c.need(m.find(q="raft::kernel::kernel")+m.find(q="raft::parallel_k::parallel_k"),"kernel constructors"):
        if len(f.args)!=3: continue
        c.fn(f); n+=1
        for p in paths(f):
            if p.end!="ret": continue
            pc=[[sv(x) for x in p.ev[i].args] for i in pos(p,"Port::Port")]; kc=[[sv(x) for x in p.ev[i].args] for i in pos(p,"raft::kernel::kernel")]
            for a in pc: c.ob("K05.memory",f.where(),a[1:]==["arg0","arg1","arg2"],"%s gets %s"%(a[0],a[1:]),key="K05.memory|ports")
            for a in kc: c.ob("K05.memory",f.where(),a[1:]==["arg1","arg2"],"the kernel gets %s"%a[1:],key="K05.memory|base")
            if pc: c.ob("K05.memory",f.where(),{a[0] for a in pc}=={"arg0.input","arg0.output"},"sets up %s"%[a[0] for a in pc],key="K05.memory|both")
    W={"long":8,"int":4,"short":2}
    for f in m.find(q="raft::for_each::for_each"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            kc=[p.ev[i].args for i in pos(p,"raft::kernel::kernel")]
            ty=re.search(r"for_each<([^<>]*)>::",f.dem); w=W.get(ty[1] if ty else "")
            for a in kc:
                if len(a)<3: c.ob("K05.memory",f.where(),False,"the array is not passed on",key="K05.memory|each"); continue
                c.ob("K05.memory",f.where(),sv(a[1])=="arg1" and len(a[2][0])==1 and a[2][0][0][0]=="arg2" and a[2][1]==0 and (w is None or a[2][0][0][1]==w),"an array of arg2 elements at arg1 becomes %s bytes at %s"%(sv(a[2]),sv(a[1])),key="K05.memory|each")
            for i in pos(p,"Port::addInPlacePorts"):
                a=[sv(x) for x in p.ev[i].args]; c.ob("K05.memory",f.where(),a==["arg0.output","arg3"],"divides among %s"%a,key="K05.memory|divide")
            c.ob("K05.memory",f.where(),len(pos(p,"Port::addInPlacePorts"))==1,"divides the array %d times"%len(pos(p,"Port::addInPlacePorts")),key="K05.memory|divide")
    for f in c.need(m.find(q="PortInfo::PortInfo"),"PortInfo::PortInfo"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            if len(f.args)==5: want=(("existing_buffer","arg2"),("nitems","arg3"),("start_index","arg4"))
            elif len(f.args)==2 and "const&" in f.dem and "PortInfo const&" in f.dem: want=tuple((x,"*(arg1.%s)"%x) for x in("existing_buffer","nitems","start_index"))
            else: continue
            for a,w in want:
                v=last(p,"arg0."+a); c.ob("K05.record",f.where(),v is not None and sv(v)==w,"%s is %s"%(a,sv(v) if v is not None else "not set"),key="K05.record|%s|%d"%(a,len(f.args)))
    for f in c.need(m.find(q="Allocate::allocate"),"Allocate::allocate")+[f for f in m.find(rx=r"dynalloc::.*") if any(True for p in paths(f) for _ in pos(p,r"std::function::operator\(\)"))]:
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for i in pos(p,r"std::function::operator\(\)"):
                a=[sv(x) for x in p.ev[i].args]
                if len(a)<4: continue
                src=re.search(r"\((arg\d+)\.const_map",next((sv(p.ev[j].args[1]) for j in reversed(range(i)) if p.ev[j].k=="call" and p.ev[j].q=="std::function::function" and sv(p.ev[j].args[0])==a[0]),""))
                A=src[1] if src else "arg1"; B="*(%s.existing_buffer)"%A
                z=null(p,B,i)
                if z is True: c.ob("K05.build",f.where(),a[3] in("0",B),"a port without memory gets a stream on %s"%a[3],key="K05.build|none")
                else: c.ob("K05.build",f.where(),a[1:4]==["*(%s.nitems)"%A,"*(%s.start_index)"%A,B],"the stream is built with %s"%a[1:4],key="K05.build|segment")
            for i in pos(p,"Allocate::initialize"):
                a=[sv(x) for x in p.ev[i].args]
                fn=[sv(p.ev[j].res) for j in pos(p,r"std::function::operator\(\)")]
                if fn: c.ob("K05.build",f.where(),a[3] in fn,"connects another stream",key="K05.build|connect")
    g=c.load("fifo")
    def ext(f): return bool(re.search(r"(RingBuffer|Data)<probe::Big",f.dem))
    mk=[f for f in g.find(q="RingBuffer::make_new_fifo") if "true>::" not in f.dem]
    for f in c.need(mk,"RingBuffer::make_new_fifo"):
        c.fn(f); t="ext" if ext(f) else "inline"
        for p in paths(f):
            if p.end!="ret": continue
            z=null(p,"arg2")
            bufs=[(e.a[:-len(".datamanager.buffer")],sv(e.v)) for e in p.ev if e.k=="st" and e.a.endswith(".datamanager.buffer") and sv(e.v)!="0"]
            if not bufs: continue
            fifo,B=bufs[-1]
            st=last(p,B+".store"); cap=last(p,B+".max_cap"); xa=last(p,B+".external_alloc"); rs=last(p,fifo+".datamanager.resizeable")
            cap=sv(cap) if cap is not None else None
            ptr=lambda nm:[[sv(x) for x in p.ev[i].args] for i in pos(p,"Pointer::Pointer") if sv(p.ev[i].args[0])==B+"."+nm]
            rd,wr=ptr("read_pt")[-1:],ptr("write_pt")[-1:]
            if z is False or z is None and st is not None and sv(st)=="arg2":
                if t=="inline": c.ob("K05.stream",f.where(),st is not None and sv(st)=="arg2","its storage is %s"%(sv(st) if st is not None else "not set")[:60],key="K05.stream|store|"+t)
                c.ob("K05.stream",f.where(),cap=="arg0","its capacity is %s"%cap,key="K05.stream|capacity|"+t)
                if t=="ext" and st is not None and sv(st)=="arg2": c.ob("K05.stream",f.where(),False,"elements stored by pointer: the user's elements are taken for pointers to elements",key="K05.stream|pointers")
                c.ob("K05.stream",f.where(),bool(rd) and rd[0][1] in("arg0","*(%s.max_cap)"%B) and (len(rd[0])<3 or rd[0][2]=="0"),"reads from %s"%(rd[0][1:] if rd else "nowhere"),key="K05.stream|read|"+t)
                c.ob("K05.stream",f.where(),bool(wr) and wr[0][1] in("arg0","*(%s.max_cap)"%B) and len(wr[0])==3 and wr[0][2]=="1","is filled up to %s"%(wr[0][1:] if wr else "nowhere"),key="K05.stream|full|"+t)
                touch=[e for e in p.ev if e.k=="call" and re.match(r"(llvm\.)?(memset|memcpy|memmove|free|bzero)|std::(fill|uninitialized_)",e.q or "") and e.args and sv(e.args[0])=="arg2"]+[e for e in p.ev if e.k=="st" and re.match(r"arg2(\[|\.|$)",e.a)]
                c.ob("K05.stream",f.where(),not touch,"writes to the user's memory",key="K05.stream|write|"+t)
                c.ob("K05.free",f.where(),xa is not None and not xa[0] and xa[1]&1==1,"is not marked as the user's",key="K05.free|mark|"+t)
                ok=rs is not None and (not rs[0] and rs[1]==0 or "external_alloc" in sv(rs))
                c.ob("K05.fixed",f.where(),ok,"may be resized",key="K05.fixed|mark|"+t)
            elif z is True:
                c.ob("K05.stream",f.where(),st is None or sv(st)!="arg2","has no storage",key="K05.stream|own|"+t)
    for f in c.need([f for f in g.find(q="RingBuffer::resize")+g.find(q="RingBufferBaseMonitor::resize")],"RingBuffer::resize"):
        c.fn(f)
        for p in paths(f):
            R=[i for i in pos(p,"DataManager::resize")]
            ns=[i for i in range(len(p.ev)) if p.ev[i].k=="st" and p.ev[i].a.endswith(".datamanager.buffer") and p.ev[i].a.startswith("arg0")]
            for i in R+ns:
                z=[possible(p,t,(0,1),i) for t in("*(arg0.datamanager.resizeable)","*(arg0.datamanager.buffer.external_alloc)","*(*(arg0.datamanager.buffer).external_alloc)")]
                ok=(z[0]=={1}) or any(x=={0} for x in z[1:])
                c.ob("K05.fixed",f.where(),ok,"resizes without looking whether the memory is the user's",key="K05.fixed|guard|"+f.q)
            c.ob("K05.fixed",f.where(),True,"",key="K05.fixed|path")
    for f in c.need([f for f in g.find(q="Buffer::Data::~Data") if "Type::RingBufferType)0" in f.dem],"Buffer::Data::~Data"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            fr=[i for i,e in enumerate(p.ev) if e.k=="call" and re.match(r"(free|operator delete.*|_aligned_free|std::free)$",e.q or "") and e.args and sv(e.args[0])=="*(arg0.store)"]
            xs=possible(p,"*(arg0.external_alloc)",(0,1))
            for i in fr:
                s=possible(p,"*(arg0.external_alloc)",(0,1),i)
                c.ob("K05.free",f.where(),s=={0},"frees storage that may be the user's",key="K05.free|guard")
            if xs=={0}: c.ob("K05.free",f.where(),len(fr)==1,"frees its own storage %d times"%len(fr),key="K05.free|own")
            elif xs is None: c.ob("K05.free",f.where(),not fr,"frees storage that may be the user's",key="K05.free|guard")

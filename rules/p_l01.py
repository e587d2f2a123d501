"""L01: shared container locks are released on every path."""
from sysm import *
from flow import callee
import ir
TECH="lock state along all paths including exceptions from callbacks and failed operations; lock-order graph over the call graph"
NOTE="every path of every function that takes or releases a lock, loops followed three times, exceptions from explicit throws, callbacks and the operations that throw them; allocation failure not considered; locks told apart by the object named; sound for the stated rules"
MIN={"L01.balance":15,"L01.touch":8,"L01.pair":6,"L01.order":1}
def norm(t): return re.sub(r"'\d+(?=[).,\]]|$)","",t)
TRY=r"std::(\w+_)?mutex::try_lock"
# bodies of threads: an exception that leaves them ends the process
THREAD=r"(basic_parallel|dynalloc|stdalloc|Allocate|\w*schedule\w*)::(start|run)"
# functions that are a lock operation themselves
PRIM={"keeper::acquire":+1,"keeper::release":-1,"raft::parallel_k::lock_helper":+1,"raft::parallel_k::unlock_helper":-1,"raft::split::lock":+1,"raft::split::unlock":-1,"raft::join::lock":+1,"raft::join::unlock":-1,"raft::kernel::lock":0,"raft::kernel::unlock":0}
UNWIND=r"std::function::operator\(\)|virtual::.*(clone|run)\b.*|raft::kernel::(clone|allConnected)|virtual::.*allConnected.*|raft::map::(checkEdges|joink|inline_\w+)|MapBase::(join|link|insert|updateKernels)|Port::(operator\[\]|getPortInfo|getPortInfoFor|getPortType|addPort|add_port)"
def op(p,i,e):
    """(+1|-1, lock) when event i takes or releases a lock"""
    if e.k=="if":
        for a,b in((e.l,e.r),(e.r,e.l)):
            m=re.fullmatch(TRY+r"\((.*)\)('\d+)?",norm(sv(a)))
            if m and b==ZERO and e.pred!="eq": return +1,norm(re.sub(TRY+r"\(|\)$","",norm(sv(a))))
        return None
    if e.k!="call" or not e.args: return None
    q=e.q or ""; x=norm(slots(p,i,sv(e.args[0])))
    if q=="keeper::acquire": return +1,x+"#"
    if q=="keeper::release": return -1,x+"#"
    if re.fullmatch(r"std::(\w+_)?mutex::lock",q): return +1,x
    if re.fullmatch(r"std::(\w+_)?mutex::unlock",q): return -1,x
    if q.startswith("pthread_mutex_lock"): return +1,x
    if q.startswith("pthread_mutex_unlock"): return -1,x
    if re.fullmatch(r"virtual::lock|raft::(kernel|split|join)::lock|virtual::\{.*::lock\b.*",q): return +1,x+"!"
    if re.fullmatch(r"virtual::unlock|raft::(kernel|split|join)::unlock|virtual::\{.*::unlock\b.*",q): return -1,x+"!"
    if q=="raft::parallel_k::lock_helper": return +1,x+".portmap.mutex_map"
    if q=="raft::parallel_k::unlock_helper": return -1,x+".portmap.mutex_map"
    return None
def lname(x):
    """class of a lock for the order: last member name"""
    x=re.sub(r"[#!]$","",x); n=mem(x)
    return {"kernel_set":"all_kernels"}.get(n,n)
def run(c):
    c.rule("L01.balance","every lock taken is released exactly once before the operation ends, on every path, exceptions included, and no lock is taken twice or released without being held")
    c.rule("L01.prim","the lock primitives take, or release, their lock exactly once on every path that returns")
    c.rule("L01.pair","lock and unlock of a kernel work on the same lock, that of the ports it adds to")
    c.rule("L01.touch","kernel sets, traversed port maps and the worker list are touched only while their lock is held")
    c.rule("L01.order","no lock is waited for while it is held, directly or through a call, and locks are taken in one order")
    m=c.load("sys")
    takes={}; edges={}; heldcalls=[]
    LK=re.compile(r"keeper::(acquire|release)|std::(\w+_)?mutex::(lock|try_lock|unlock)|pthread_mutex_\w+|virtual::.*\b(lock|unlock)\b.*|raft::.*::(lock|unlock|lock_helper|unlock_helper)")
    fs=[]
    for x in m.raw:
        f=m.func(x)
        if f.q.startswith(("std::","probe::","__")): continue
        q={callee(I) for I in f.insts()}
        if f.q in PRIM or any(y and LK.fullmatch(y) for y in q): fs.append(f)
    lockers=[f for f in fs if f.q not in PRIM]
    c.need(lockers,"functions that take locks",8)
    for f in fs:
        if f.q in PRIM:
            want=PRIM[f.q]; c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                n=[op(p,i,e) for i,e in enumerate(p.ev)]; n=[x for x in n if x]
                if want: c.ob("L01.prim",f.where(),len(n)==1 and n[0][0]==want,"%d lock operations"%len(n),key="L01.prim|"+f.dem)
            continue
        c.fn(f)
        for p in paths(f,unwind=UNWIND):
            held={}
            for i,e in enumerate(p.ev):
                o=op(p,i,e)
                if o:
                    s,x=o
                    if s>0:
                        c.ob("L01.balance",f.where(),not held.get(x),"%s is taken while it is held"%x[:90],key="L01.balance|%s|twice|%s"%(f.q,lname(x)))
                        for y in held:
                            if held[y]: edges.setdefault((lname(y),lname(x)),f)
                        held[x]=1; takes.setdefault(f.m,set()).add(lname(x))
                    else:
                        c.ob("L01.balance",f.where(),bool(held.get(x)),"%s is released and not held"%x[:90],key="L01.balance|%s|free|%s"%(f.q,lname(x)))
                        held[x]=0
                    continue
                if e.k=="call":
                    h=[x for x in held if held[x]]
                    if h and e.I is not None:
                        t=[e.I.fn] if e.I.fn else (e.I.get("vt") or [])
                        for y in t: heldcalls.append((f,y,tuple(sorted({lname(x) for x in h}))))
                    # touching
                    for j,a in enumerate((e.args or [])[:1]):
                        t=norm(sv(a))
                        mm=re.match(r"keeper::acquire\((.*)\)$",t)
                        if mm and re.match(r"std::(set|vector|list|map|unordered_set|deque)::(?!~)",e.q or ""):
                            c.ob("L01.touch",f.where(),bool(held.get(mm[1]+"#")),"%s is touched while its lock is free"%mm[1],key="L01.touch|%s|%s"%(f.q,lname(mm[1])))
                        if re.search(r"\.thread_map$",t) and re.match(r"std::\w+::(?!~)",e.q or "") and not re.search(r"::(vector|list|deque|set)$",e.q or ""):
                            c.ob("L01.touch",f.where(),bool(held.get(t+"_mutex")),"the worker list is touched (%s) while its lock is free"%e.q,key="L01.touch|%s|thread_map"%f.q)
                        mm=re.match(r"(.*\.output)(\.portmap(\.map)?)?$",t)
                        if mm and "GraphTools" in f.q and re.match(r"std::map::(c?begin|c?end|size)|Port::(begin|end)|PortIterator::PortIterator",e.q or ""):
                            c.ob("L01.touch",f.where(),bool(held.get(mm[1]+".portmap.mutex_map")),"the ports of %s are traversed while their lock is free"%mm[1][:60],key="L01.touch|%s|ports"%f.q)
                # handed to a traversal
                if e.k=="call" and re.match(r"GraphTools::|partition_\w+::|raft::map::|MapBase::",e.q or ""):
                    for a in e.args or []:
                        mm=re.match(r"keeper::acquire\((.*)\)$",norm(sv(a)))
                        if mm: c.ob("L01.touch",f.where(),bool(held.get(mm[1]+"#")),"%s is handed to %s while its lock is free"%(mm[1],e.q),key="L01.touch|%s|%s|%s"%(f.q,lname(mm[1]),e.q))
                # steps of an iterator over a locked container
                if e.k=="call" and re.fullmatch(r"std::_Rb_tree\w*iterator::operator(\+\+|\*|->)",e.q or "") and e.args:
                    src=norm(slots(p,i,"*(%s)"%sv(e.args[0])))
                    mm=re.match(r"std::set::c?begin\(keeper::acquire\((.*?)\)\)$",src)
                    if mm: c.ob("L01.touch",f.where(),bool(held.get(mm[1]+"#")),"%s is iterated over while its lock is free"%mm[1],key="L01.touch|%s|%s|step"%(f.q,lname(mm[1])))
            if p.end in("ret","resume","throw") and not(p.end!="ret" and re.fullmatch(THREAD,f.q)):
                for x in held: c.ob("L01.balance",f.where(),not held[x],"%s is still held when the operation %s"%(x[:90],"returns" if p.end=="ret" else "ends with an exception"),key="L01.balance|%s|leak|%s|%s"%(f.q,lname(x),p.end=="ret"))
    # waiting for a lock ends with having it
    prim={f.q for x in m.raw for f in [m.func(x)] if not f.q.startswith(("std::","probe::")) and any(re.search(r"mutex::try_lock$",callee(I) or "") for I in f.insts())}
    if prim: counted(c,m,"L01.prim","|".join(re.escape(q) for q in sorted(prim)))
    # members touched without taking the lock at all
    for x in m.raw:
        f=m.func(x)
        if f in fs or f.q.startswith(("std::","probe::")) or re.search(r"::~?(simple_schedule|pool_schedule)$",f.q): continue
        g={I.id:I for I in f.insts() if I.get("path")}
        for I in f.insts():
            q=callee(I)
            if not q or not re.match(r"std::(vector|list|deque|set)::(emplace_back|push_back|erase|begin|insert|emplace|clear)",q) or not I.a: continue
            b=g.get(I.a[0].get("v"))
            if b is not None and b["path"][-1].get("n")=="thread_map": c.ob("L01.touch",f.where(),False,"%s touches the worker list without its lock"%f.q,key="L01.touch|%s|thread_map|none"%f.q)
    # kernels: lock and unlock agree, on the ports addPort extends
    for k in("split","join"):
        side={}
        for n in("lock","unlock","addPort"):
            for f in c.need(m.find(q="raft::%s::%s"%(k,n)),"%s::%s"%(k,n)):
                c.fn(f)
                for p in paths(f):
                    if p.end!="ret": continue
                    for e in p.ev:
                        if e.k=="call" and re.search(r"lock_helper|addPortTo|mutex::(try_)?(lock|unlock)",e.q or ""):
                            a=[sv(y) for y in e.args]
                            s=re.search(r"\b(input|output)\b"," ".join(a))
                            if s: side.setdefault(n,set()).add(s[1])
                c.ob("L01.pair",f.where(),side.get(n) is not None and len(side[n])==1,"%s works on %s"%(n,side.get(n)),key="L01.pair|%s|%s"%(k,n))
        for n in("lock","unlock"):
            c.ob("L01.pair","raft::%s::%s"%(k,n),side.get(n)==side.get("addPort"),"%s locks its %s and adds to its %s"%(k,side.get(n),side.get("addPort")),key="L01.pair|%s|%s|same"%(k,n))
    # lock order over the call graph
    callees={}
    for x in m.raw:
        f=m.func(x); s=set()
        for I in f.insts():
            if I.op in("call","invoke"):
                if I.fn: s.add(I.fn)
                s.update(I.get("vt") or [])
        callees[x]=s
    memo={}
    def trans(x,seen=()):
        r=set(takes.get(x,())); st=[x]; done={x}
        while st:
            y=st.pop()
            for z in callees.get(y,()):
                if z in done: continue
                done.add(z); st.append(z); r|=takes.get(z,set())
        return r
    bad=0
    for f,y,h in heldcalls:
        if y not in memo: memo[y]=trans(y)
        for l in memo[y]:
            for x in h:
                if not (l==x=="mutex_map"): edges.setdefault((x,l),f)
                if l==x and l!="mutex_map":
                    c.ob("L01.order",f.where(),False,"%s waits for %s, which the caller holds"%(m.q(y),l),key="L01.order|self|%s|%s"%(f.q,l)); bad+=1
    g={}
    for a,b in edges:
        if a!=b: g.setdefault(a,set()).add(b)
    def reach(a,b):
        st=[a]; d=set()
        while st:
            x=st.pop()
            for y in g.get(x,()):
                if y==b: return True
                if y not in d: d.add(y); st.append(y)
        return False
    for (a,b),f in sorted(edges.items(),key=lambda x:x[0]):
        if a!=b: c.ob("L01.order",f.where(),not reach(b,a),"%s is waited for while %s is held, and the other way round elsewhere"%(b,a),key="L01.order|%s|%s"%tuple(sorted((a,b))))
    c.ob("L01.order","(all functions)",True,"%d ordered pairs of locks, %d calls made under a lock"%(len(edges),len(heldcalls)),key="L01.order|any")

"""K02: library kernels handle each element exactly once and in order."""
from sysm import *
from p_k04 import ev, holds
TECH="conservation of elements along all paths of the kernels' run functions: what is taken, emitted and removed per port"
NOTE="one run of each instantiated kernel, loops followed up to three times; the state between runs is what the run stored in the kernel's members; generators, comparison and output operators are taken as given"
MIN={"K02.source":4,"K02.write":6,"K02.print":12,"K02.random":6,"K02.math":4,"K02.make":8}
ELE=re.compile(r"^(?:extractvalue\(|\*\()?\(?(?:FIFO::autorelease|autorelease)::operator\[\]\((alloca#\d+),(.*?)\)")
def short(d): return re.sub(r"std::__cxx11::|__gnu_cxx::|, std::allocator<[^<>]*>","",d)[:90]
def visited(p):
    """[(first event, last event, port)]: the stretches of the path spent on one port"""
    st=[(i,sv(e.res)) for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"PortIterator::operator\*",e.q or "") and e.res is not None]
    # several looks through the iterator between two steps concern the same port
    out=[]
    for i,o in st:
        if out and not any(e.k=="call" and re.search(r"PortIterator::operator\+\+",e.q or "") for e in p.ev[out[-1][0]:i]): out[-1][2].add(o)
        else: out.append([i,None,{o}])
    for a,b in zip(out,out[1:]+[None]): a[1]=b[0] if b else len(p.ev)
    return out
def cnt(p,v,st,lo,hi):
    """set of values of the sum v given values of the port's size terms"""
    return ev(v,st)
def sizes(p,objs,lo,hi):
    return {t for i,o,t in vcalls(p,"size") if t and o in objs and lo<=i<hi}
def runport(p,lo,hi,objs,rule,site,c,emit):
    """everything done with one input port in p.ev[lo:hi]; emit(i,e) -> rendered element handed on at event i, or None"""
    S=sizes(p,objs,lo,hi)
    feas=[]
    for n in range(5):
        env={t:n for t in S}; ok=True
        for e in p.ev[lo:hi]:
            if e.k!="if" or e.l is None or e.r is None: continue
            x,y=ev(e.l,env),ev(e.r,env)
            if x is not None and y is not None and (any(t in S for t,_ in e.l[0]) or any(t in S for t,_ in e.r[0]) or (not e.l[0] and not e.r[0])) and not holds(e.pred,x,y): ok=False; break
        if ok: feas.append((n,env))
    if S and not feas: return
    views={}; taken=[]; given=[]; removed=[]; unknown=False; order=[]
    for i in range(lo,hi):
        e=p.ev[i]
        if e.k=="call":
            q=e.q or ""; a=[sv(x) if x is not None else "" for x in e.args]
            if q=="FIFO::peek_range" and len(a)>2 and a[1] in objs: views[a[0]]=e.args[2]
            elif q=="FIFO::peek" and a[0] in objs and e.res is not None: views[sv(e.res)]="one"; 
            elif q=="FIFO::pop" and a[0] in objs: views[a[1]]="pop"; removed.append((i,((),1))); order.append((i,a[1]))
            elif q=="FIFO::pop_s" and len(a)>1 and a[1] in objs: views[a[0]]="pop"; removed.append((i,((),1))); order.append((i,a[0]))
            elif q=="FIFO::recycle" and a[0] in objs: removed.append((i,e.args[1] if len(e.args)>1 else ((),1)))
        g=emit(i,e)
        if g is not None: given.append((i,g))
    for n,env in feas or [(None,{})]:
        rem=0
        for i,v in removed:
            x=ev(v,env); rem=None if x is None or rem is None else rem+x
        got=[]
        for i,g in given:
            k=None
            m=ELE.search(g)
            if m and m[1] in views:
                if m[2].isdigit(): k=int(m[2])
                else:
                    t=[x for x in p.ev[lo:i] if x.k=="call" and (x.q or "").endswith("autorelease::operator[]") and sv(x.args[0])==m[1]]
                    k=ev(t[-1].args[1],env) if t else None
            else:
                for v in views:
                    if views[v]=="one" and v in g: k=0
                    if views[v]=="pop" and (v+")" in g or v==g): k=max([j for j,(q,x) in enumerate(order) if x==v and q<i],default=None)
            if k is None: unknown=True
            got.append(k)
        if unknown: c.ob(rule,site,True,""); return bool(given)
        c.ob(rule,site,got==list(range(len(got))),"the elements handed on from one port are, by position, %s"%got,key=rule+"|order")
        c.ob(rule,site,rem is None or rem==len(got),"with %s elements present it hands on %d and removes %s"%("some" if n is None else n,len(got),rem),key=rule+"|balance")
        if n is not None:
            c.ob(rule,site,rem is None or rem<=n or "FIFO::pop" in [p.ev[i].q for i,_ in removed],"removes %s of %d elements"%(rem,n),key=rule+"|bound")
        for a in(x for x in views if views[x]=="one"):
            rec=[i for i,_ in removed]
            un=[i for i,o,_ in vcalls(p,"unpeek") if o in objs and lo<=i<hi]
            for i,g in given:
                c.ob(rule,site,all(r>i for r in rec),"an element is used after its removal",key=rule+"|late")
    return bool(given)
def run(c):
    c.rule("K02.source","a sequence source emits each element of its sequence once, in order, and stops exactly at the end")
    c.rule("K02.write","writing hands each received element on once, in order, and removes just those from the stream")
    c.rule("K02.print","printing hands each received element to the output once, followed by the delimiter, and removes just those")
    c.rule("K02.random","a counted source emits one fresh value per port until exactly the count asked for, and stops then")
    c.rule("K02.math","adding and multiplying streams takes one element of each and combines just these")
    c.rule("K02.make","the kernels keep the sequence, target, count and stream they were made with, and have their ports")
    m=c.load("sys"); STOP,GO=const(m,"stop"),const(m,"proceed")
    # ---------------------------------------------------------------- read_each
    for f in c.need(m.find(q="raft::readeach::run"),"readeach::run"):
        c.fn(f); site=f.where()
        for p in paths(f,unroll=2):
            if p.end!="ret": continue
            puts=[]                # (position, rendered value or None)
            for i,e in enumerate(p.ev):
                if e.k!="call": continue
                q=e.q or ""; a=[sv(x) if x is not None else "" for x in e.args]
                if q=="FIFO::allocate_s":
                    h=a[0]; names={sv(x.res) for x in p.ev[i:] if x.k=="call" and re.search(r"autorelease::operator(\*|->)$",x.q or "") and sv(x.args[0])==h and x.res is not None}
                    nxt=[j for j in range(i+1,len(p.ev)) if p.ev[j].k=="call" and re.search(r"autorelease::~",p.ev[j].q or "") and sv(p.ev[j].args[0])==h]
                    s=[(x.k=="st" and sv(x.v)) for x in p.ev[i:nxt[0] if nxt else None] if x.k=="st" and x.a in names]
                    c.ob("K02.source",site,len(s)>0,"an element is reserved and sent without a value",key="K02.source|empty")
                    puts.append((i,s[-1] if s else None))
                elif q=="FIFO::push" and len(a)>1: puts.append((i,content(p,i,a[1])))
                elif q=="FIFO::allocate" and e.res is not None:
                    s=[sv(x.v) for x in p.ev[i:] if x.k=="st" and x.a==sv(e.res)]
                    puts.append((i,s[-1] if s else None))
                elif q in("FIFO::insert","FIFO::allocate_range"): puts=None; break
            if puts is None: continue
            feas=None
            # positions relative to the kept begin
            def off(t):
                mm=re.fullmatch(r"\*\(\*\(arg0\.begin\)(?:\[(\d+)\])?\)",t or "")
                return (int(mm[1]) if mm[1] else 0) if mm else None
            b=[off(v) for _,v in puts]
            if all(x is not None for x in b):
                c.ob("K02.source",site,b==list(range(len(b))),"emits, by position, %s"%b,key="K02.source|order")
            r=retval(p)
            last=None; n=len(puts); ended=False; less=set()
            for e in p.ev:
                if e.k!="if" or e.l is None: continue
                for x,y in((sv(e.l),sv(e.r)),(sv(e.r),sv(e.l))):
                    mm=re.fullmatch(r"\*\(arg0\.begin\)(?:\[(\d+)\])?",x)
                    if mm and y=="*(arg0.end)":
                        k=int(mm[1] or 0)
                        if e.pred=="eq": ended=True; c.ob("K02.source",site,k==n,"at the end after %d elements it has emitted %d"%(k,n),key="K02.source|count")
                        elif e.pred=="ne": less.add(k)
            for k in range(n): c.ob("K02.source",site,k in less,"emits element %d without finding it before the end"%k,key="K02.source|past")
            kept=[sv(e.v) for e in p.ev if e.k=="st" and e.a=="arg0.begin"]
            adv=0
            if kept:
                mm=re.fullmatch(r"\*\(arg0\.begin\)(?:\[(\d+)\])?",kept[-1]); adv=int(mm[1] or 0) if mm else None
            if r==STOP: c.ob("K02.source",site,ended,"stops before the end of the sequence",key="K02.source|early")
            elif r==GO:
                c.ob("K02.source",site,adv is None or adv==n,"emits %d elements and continues from position %s"%(n,adv),key="K02.source|resume")
                c.ob("K02.source",site,not ended or n>0,"goes on at the end of the sequence",key="K02.source|endless")
    # --------------------------------------------------------------- write_each
    def wr(i,e,p=None):
        if e.k=="call" and re.search(r"insert_iterator::operator=$",e.q or "") and len(e.args)>1: return sv(e.args[1])
        if e.k=="call" and re.fullmatch(r"std::\w+::(push_back|emplace_back)",e.q or "") and "inserter" in sv(e.args[0]): return sv(e.args[1])
        return None
    for f in c.need(m.find(q="raft::writeeach::run"),"writeeach::run"):
        c.fn(f); site=f.where(); did=False
        L=[p for p in paths(f,unroll=2) if p.end!="cut"]
        if not any(pos(p,r".*insert_iterator::operator=") for p in L): L+=[p for p in paths(f) if p.end!="cut"]
        for p in L:
            if p.end!="ret": continue
            for lo,hi,o in visited(p):
                if runport(p,lo,hi,o,"K02.write",site,c,wr): did=True
            for i in pos(p,r".*insert_iterator::operator="):
                c.ob("K02.write",site,re.search(r"arg0\.inserter|alloca",sv(p.ev[i].args[0])),"writes to %s"%sv(p.ev[i].args[0]),key="K02.write|target")
            r=retval(p)
            if r is not None: c.ob("K02.write",site,r==GO,"asks to stop",key="K02.write|stop")
        c.ob("K02.write",site,did,"no path writes anything",key="K02.write|none")
    # -------------------------------------------------------------------- print
    for f in c.need(m.find(q="raft::print::run"),"print::run"):
        c.fn(f); site=f.where(); mm=re.search(r"\(char\)(\d+)>",f.dem); D=int(mm[1]) if mm else None; did=False
        for p in paths(f):
            if p.end!="ret": continue
            def pr(i,e):
                if e.k!="call" or not re.search(r"operator<<",e.q or "") or len(e.args)<2: return None
                v=e.args[1]
                if not v[0]: return None          # a constant: the delimiter
                return sv(v)
            for lo,hi,o in visited(p):
                if runport(p,lo,hi,o,"K02.print",site,c,pr): did=True
                w=[]
                for e in p.ev[lo:hi]:
                    if e.k=="call" and re.search(r"operator<<|ostream::put$",e.q or "") and len(e.args)>1:
                        w.append("e" if e.args[1][0] and not sv(e.args[1]).startswith("str:") else e.args[1][1] if not e.args[1][0] else sv(e.args[1]))
                        t=sv(e.args[0])
                        c.ob("K02.print",site,re.search(r"arg0(\[\d+\])?\.ofs|arg0.*ofs",t) is not None,"prints to %s"%t[:80],key="K02.print|target")
                if D is not None and w:
                    k=w.count("e")
                    c.ob("K02.print",site,w==(["e",D] if D else ["e"])*k or any(isinstance(x,str) and x!="e" for x in w),"writes %s"%w,key="K02.print|delim")
            r=retval(p)
            if r is not None: c.ob("K02.print",site,r==GO,"asks to stop",key="K02.print|stop")
        c.ob("K02.print",site,did,"no path prints anything",key="K02.print|none")
    for f in c.need(m.find(q="raft::for_each::run"),"for_each::run"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret" and retval(p) is not None: c.ob("K02.source",f.where(),retval(p)==STOP,"the in-place source does not stop",key="K02.source|foreach")
    # ------------------------------------------------------------------- random
    for f in c.need(m.find(q="raft::random_variate::run"),"random_variate::run"):
        c.fn(f); site=f.where()
        C,N="*(arg0.count_of_sent)","*(arg0.N)"
        for p in paths(f,unroll=2):
            if p.end!="ret": continue
            V=visited(p); P=[(i,sv(p.ev[i].args[0]),p.ev[i]) for i in pos(p,r"FIFO::(push|allocate_s|insert)")]
            if any(p.ev[i].q!="FIFO::push" for i,_,_ in P): continue
            for lo,hi,o in V:
                k=[e for i,x,e in P if lo<=i<hi]
                c.ob("K02.random",site,len(k)<=1,"sends %d values on one port"%len(k),key="K02.random|twice")
            draws=[]
            for i,_,e in P:
                t=content(p,i,sv(e.args[1])) if re.match(r"alloca#",sv(e.args[1])) else sv(e.args[1])
                if re.search(r"distribution::operator\(\)",t):
                    c.ob("K02.random",site,t not in draws,"sends the same draw twice",key="K02.random|fresh"); draws.append(t)
                    c.ob("K02.random",site,"arg0.dist" in t and "arg0.gen" in t,"draws from %s"%t[:80],key="K02.random|dist")
            r=retval(p)
            st=[e.v for e in p.ev if e.k=="st" and e.a=="arg0.count_of_sent"]
            for n in range(5):
                for c0 in range(n+1):
                    env={C:c0,N:n}; ok=True
                    for pr_,l,rr in facts(p):
                        x,y=ev(l,env),ev(rr,env)
                        if x is not None and y is not None and not holds(pr_,x,y): ok=False; break
                    if not ok: continue
                    if c0==n and n>0: continue          # it has stopped before
                    k=len(P)
                    c.ob("K02.random",site,c0+k<=n,"asked for %d values with %d sent it sends %d more"%(n,c0,k),key="K02.random|count")
                    if r is not None and (k or r==STOP): c.ob("K02.random",site,(r==STOP)==(c0+k>=n),"asked for %d values, after sending %d it %s"%(n,c0+k,"stops" if r==STOP else "goes on"),key="K02.random|stop")
                    x=ev(st[-1],env) if st else c0
                    c.ob("K02.random",site,x is None or x==c0+k or r==STOP,"counts %s after %d values"%(x,c0+k),key="K02.random|counted")
    # --------------------------------------------------------------------- math
    for fn,op in(("probe::u_sum","add"),("probe::u_mult","mul")):
        for f in c.need(m.find(q=fn),fn):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                got={}
                for i in pos(p,"FIFO::pop"):
                    a=[sv(x) for x in p.ev[i].args]; got.setdefault(a[0],[]).append(a[1])
                c.ob("K02.math",f.where(),sorted(got)==["arg0","arg1"] and all(len(x)==1 for x in got.values()),"takes %s"%{k:len(v) for k,v in got.items()},key="K02.math|pops|"+op)
                loc=sorted(x for v in got.values() for x in v)
                v=[e.v for e in p.ev if e.k=="ret"][-1]
                if len(loc)==2 and v is not None:
                    w=["*(%s)"%x for x in loc]
                    if op=="add": ok=dict(v[0])=={x:1 for x in w} and v[1]==0
                    else: ok=v[1]==0 and len(v[0])==1 and v[0][0][1]==1 and sorted(re.findall(r"\*\(alloca#\d+\)",v[0][0][0]))==sorted(w) and v[0][0][0].startswith("mul(")
                    c.ob("K02.math",f.where(),ok or loc[0]==loc[1],"returns %s"%sv(v),key="K02.math|value|"+op)
    # ------------------------------------------------------------- construction
    def field(p,name):
        """what the member ends up with"""
        r=None
        for e in p.ev:
            if e.k=="st" and e.a in("arg0."+name,): r=sv(e.v)
            elif e.k=="call" and e.args and sv(e.args[0])=="arg0."+name and len(e.args)>1: r="*(%s)"%sv(e.args[1])
        return r
    KEEP={"raft::readeach::readeach":[("begin",1),("end",2)],"raft::writeeach::writeeach":[("inserter",1)]}
    for fn,L in KEEP.items():
        for f in c.need(m.find(q=fn),fn):
            c.fn(f); copy=len(f.args)==2 and re.search(r"\((raft::)?%s<.*> const&\)"%fn.split("::")[-1],f.dem)
            for p in paths(f):
                if p.end!="ret": continue
                for nm,k in L:
                    w="*(arg1.%s)"%nm if copy else "*(arg%d)"%k
                    g=field(p,nm)
                    if g is not None: c.ob("K02.make",f.where(),g==w,"%s is kept as %s"%(nm,g),key="K02.make|%s|%s"%(fn,nm))
                    else: c.ob("K02.make",f.where(),not pos(p,r"raft::kernel::kernel|raft::parallel_k::parallel_k"),"%s is not kept"%nm,key="K02.make|%s|%s"%(fn,nm))
                ports=[sv(p.ev[i].args[1]) for i in pos(p,"raft::parallel_k::addPortTo")]
                side_="arg0.output" if "readeach" in fn else "arg0.input"
                if pos(p,r"raft::kernel::kernel|raft::parallel_k::parallel_k"): c.ob("K02.make",f.where(),ports==[side_],"has the ports %s"%ports,key="K02.make|port|"+fn)
    ctors(c,m)
def ctors(c,m):
    """printing kernels have the number of ports asked for, named in order, and the stream given"""
    for q in("raft::print::print","raft::printabstract::printabstract"):
        for f in m.find(q=q):
            c.fn(f); copy=re.search(r"\(raft::print<.*> const&\)",f.dem) is not None
            st=None if copy else "arg1" if "basic_ostream" in f.dem.split("(")[-1] or "ostream&" in f.dem else ""
            nk="*(arg1.input_port_count)" if copy else "arg2" if st else "arg1"
            for p in paths(f,unroll=2):
                if p.end!="ret": continue
                add=[i for i in pos(p,"Port::addPort")]
                if not add and pos(p,r"raft::print\w*::print\w*"): continue
                S=Strs(p); names=[]
                for i in add:
                    a=[sv(x) for x in p.ev[i].args]; k=None
                    c.ob("K02.make",f.where(),a[0]=="arg0.input","adds a port to %s"%a[0],key="K02.make|print|side")
                    src=S.at(i,a[1])
                    for x in p.ev[:i]:
                        if x.k=="call" and re.search(r"to_string$",x.q or "") and x.args and sv(x.args[0]) in(a[1],src): k=sv(x.args[1])
                    names.append(k)
                for n in range(4):
                    env={nk:n}; ok=True
                    for pr,l,r in facts(p):
                        x,y=ev(l,env),ev(r,env)
                        if x is not None and y is not None and not holds(pr,x,y): ok=False; break
                    if not ok: continue
                    if n>2: continue
                    c.ob("K02.make",f.where(),len(names)==n,"asked for %d ports it has %d"%(n,len(names)),key="K02.make|print|ports")
                if all(x is not None for x in names): c.ob("K02.make",f.where(),names==[str(k) for k in range(len(names))],"names its ports %s"%names,key="K02.make|print|names")
                o=[sv(e.v) for e in p.ev if e.k=="st" and re.fullmatch(r"arg0.*\.ofs|arg0\[\d+\]",e.a) and e.v!=ZERO]
                w=st if st else "g:_ZSt4cout" if st=="" else None
                if o and w: c.ob("K02.make",f.where(),w in o[-1],"prints to %s"%o[-1],key="K02.make|print|stream")
                if o and copy: c.ob("K02.make",f.where(),re.search(r"\*\(arg1.*\.ofs\)",o[-1]) is not None,"a copy prints to %s"%o[-1],key="K02.make|print|stream")
                n=[sv(e.v) for e in p.ev if e.k=="st" and re.fullmatch(r"arg0.*\.input_port_count",e.a)]
                if n: c.ob("K02.make",f.where(),n[-1] in(nk,re.sub(r"arg1\.",r"arg1[392].",nk)) or "input_port_count" in n[-1],"keeps %s as its number of ports"%n[-1],key="K02.make|print|count")

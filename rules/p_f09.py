"""F09: positions and occupancy."""
from paths import *
TECH="path-wise value analysis of the position and occupancy functions"
NOTE="every path of Pointer's functions and of size/space_avail/capacity in every specialisation; arithmetic judged modulo the capacity by normal forms"
MIN={"F09.range":2,"F09.wrap":2,"F09.size":4,"F09.free":1}
def run(c):
    c.rule("F09.range","every value stored into a position is the advanced position reduced modulo the capacity (or guarded so that it is below it)")
    c.rule("F09.wrap","the wrap count grows by one exactly on the paths on which the position passes the end")
    c.rule("F09.order","the wrap count is updated after the position")
    c.rule("F09.read","reading a position or its wrap count returns it unchanged")
    c.rule("F09.ctor","a new position starts at 0, a carried over position keeps its index, with the new capacity")
    c.rule("F09.size","size() returns: 0 or capacity for equal positions, by the wrap counts, else the distance modulo the capacity")
    c.rule("F09.free","space_avail() is capacity() minus size(), capacity() is the capacity of the current buffer")
    m=c.load("leaf")
    a=A("*(arg0.a)"); cap=A("*(arg0.max_cap)")
    for name,amt in(("inc",K(1)),("incBy",A("arg1"))):
        fs=c.need(m.find(q="Pointer::"+name),"Pointer::"+name)
        for f in fs:
            c.fn(f)
            if m.find(q="Pointer::"+name) and any(I.op in("call","invoke") and callee(I)=="Pointer::incBy" for I in f.insts()):
                ps=paths(f)
                for p in ps:
                    cs=p.calls("Pointer::incBy")
                    c.ob("F09.range",f.where(),len(cs)==1 and cs[0].args[1]==amt,"advances by another amount")
                continue
            full=ladd(a,amt)
            red="urem(%s;%s)"%(sv(full),sv(cap))
            for p in paths(f,nonneg=True):
                if p.end!="ret": continue
                wrapped=None; 
                st=[e for e in p.ev if e.k=="st" and e.a in("arg0.a",)]
                site="%s line %s"%(name,st[-1].I.line if st else f.d.get("line"))
                if not st: c.ob("F09.range",site,False,"a path leaves the position unchanged: %r"%p,key="F09.range|%s|none"%name); continue
                up=lambda q:p.implies(q,full,cap)
                for e in st:
                    v=e.v; ok=False
                    if single(v)==red: ok=True
                    elif v==ladd(full,cap,-1): ok=up("uge") or up("ugt") or up("eq"); wrapped=True
                    elif v==K(0) and name=="inc": ok=up("eq") or up("uge") or p.implies("eq",a,ladd(cap,K(1),-1)); wrapped=True
                    elif v==K(0): ok=up("eq"); wrapped=True
                    elif v==full: 
                        ok=up("ult") or (name=="inc" and (up("ne") or p.implies("ne",a,ladd(cap,K(1),-1)))); wrapped=False
                    c.ob("F09.range","%s line %s"%(name,e.I.line),ok,"position becomes %s, not shown to be the advanced position modulo the capacity"%sv(v),key="F09.range|%s|%s"%(name,sv(v)))
                final=st[-1].v
                # decided by comparisons
                T=[]; F=[]
                new=final
                if name=="inc":
                    T=[("eq",new,K(0)),("ule",new,a),("ult",new,amt)]
                    F=[("ne",new,K(0)),("ugt",new,a),("uge",new,amt)]
                    T+=[("eq",full,cap),("uge",full,cap),("eq",a,ladd(cap,K(1),-1)),("uge",a,ladd(cap,K(1),-1))]
                    F+=[("ne",full,cap),("ult",full,cap),("ne",a,ladd(cap,K(1),-1)),("ult",a,ladd(cap,K(1),-1))]
                else:
                    T=[("ult",new,amt),("uge",full,cap),("ne",new,full),("ult",new,full)]
                    F=[("uge",new,amt),("ult",full,cap),("eq",new,full),("uge",new,full)]
                def holds(L):
                    for q,l,r in L:
                        if p.implies(q,l,r): return True
                    return False
                t=holds(T); u=holds(F)
                if single(final)!=red and wrapped is not None and t==u: t,u=wrapped,not wrapped
                w=[e for e in p.ev if e.k=="st" and e.a=="arg0.wrap_a"]
                d=None
                if w:
                    x=ladd(w[-1].v,A("*(arg0.wrap_a)"),-1)
                    d=x[1] if isK(x) else None
                    if d is None:   # arithmetic instead of a branch
                        q="udiv(%s;%s)"%(sv(full),sv(cap))
                        ok=single(x)==q
                        c.ob("F09.wrap",site,ok,"wrap count changes by %s"%sv(x),key="F09.wrap|%s"%name); 
                        c.ob("F09.order",site,p.ev.index(w[0])>p.ev.index(st[-1]),"the wrap count changes before the position",key="F09.order|"+name)
                        continue
                else: d=0
                if t and not u: ok=d==1; why="passes the end but the wrap count changes by %s"%d
                elif u and not t: ok=d==0; why="does not pass the end but the wrap count changes by %s"%d
                else: ok=False; why="the wrap count does not depend on whether the position passes the end (%r)"%p
                c.ob("F09.wrap",site,ok,why,key="F09.wrap|%s"%name)
                if w: c.ob("F09.order",site,p.ev.index(w[0])>p.ev.index(st[-1]),"the wrap count changes before the position",key="F09.order|"+name)
    # a count of fewer bits comes round, and the order of two counts says nothing then
    fm=c.load("fifo"); order=False
    for f in [f for f in fm.find(rx=r"RingBufferBase\w*::size") if not re.search("Infinite|Shared",f.dem)]:
        for p in paths(f):
            order=order or any(e.k=="if" and e.pred[-2:] in("lt","gt","le","ge") and sv(e.l).count("wrapIndicator")==1 and sv(e.r).count("wrapIndicator")==1 for e in p.ev)
    for f in m.find(rx=r"Pointer::(inc|incBy)"):
        for p in paths(f):
            for e in p.ev:
                if e.k=="st" and e.a=="arg0.wrap_a" and e.I and e.I.get("vty"):
                    c.ob("F09.wrap",f.where(),not order or e.I["vty"] in("i64","i128"),"the wrap count is kept in %s but compared by order"%e.I["vty"],key="F09.wrap|width")
    for name,fld in(("val","a"),("wrapIndicator","wrap_a")):
        for f in c.need(m.find(q="Pointer::"+name),"Pointer::"+name):
            c.fn(f); narrow=[I for I in f.insts() if I.op=="trunc" and I.get("ty") in("i32","i16","i8")]
            for p in paths(f):
                if p.end=="ret": c.ob("F09.read",f.where(),not narrow and p.ev[-1].v==A("*(arg0.%s)"%fld) and not [e for e in p.ev if e.k=="st" and not e.a.startswith("alloca")],"returns %s"%sv(p.ev[-1].v),key="F09.read|"+name)
    for f in m.find(q="Pointer::Pointer"):
        c.fn(f)
        n=len(f.args); carried="Pointer&" in f.dem
        for p in paths(f):
            if p.end!="ret": continue
            d=[e for e in p.ev if e.k=="call" and e.q=="Pointer::Pointer"]
            la,lw,lc=p.last("arg0.a"),p.last("arg0.wrap_a"),p.last("arg0.max_cap")
            if d:
                if la is None: la=K(0)
                if lw is None: lw=K(0)
                if lc is None: lc=d[0].args[1] if len(d[0].args)>1 else K(0)
            if carried:
                okv=la in(A("Pointer::val(arg1)"),A("*(arg1.a)")) and lc==A("arg2") and lw==K(0)
                c.ob("F09.ctor",f.where(),okv,"carried over as a=%s wrap=%s capacity=%s"%tuple(sv(x) if x else "?" for x in(la,lw,lc)),key="F09.ctor|carry")
            elif n>=2:
                c.ob("F09.ctor",f.where(),la==K(0) and lc==A("arg1") and lw==(A("arg2") if n>2 else K(0)),"new position is a=%s wrap=%s capacity=%s"%tuple(sv(x) if x else "?" for x in(la,lw,lc)),key="F09.ctor|new%d"%n)
    m=c.load("fifo")
    for f in c.need([f for f in m.find(rx=r"RingBufferBase\w*::size")],"size()"):
        if "Infinite" in f.dem or "Shared" in f.dem: continue
        c.fn(f)
        seen=set()
        for p in paths(f):
            if p.end!="ret": continue
            k=max([i for i,e in enumerate(p.ev) if e.k=="call" and e.q.endswith("::enterBuffer")] or [0])
            ev=p.ev[k:]
            nm={}
            for e in ev:
                if e.k!="call" or not e.res: continue
                r=single(e.res)
                if e.q in("Pointer::val","Pointer::wrapIndicator") and e.args:
                    a0=sv(e.args[0]); s="w" if a0.endswith(".write_pt") else "r" if a0.endswith(".read_pt") else "?"
                    nm[r]=("v" if e.q=="Pointer::val" else "n")+s
            def ren(x): 
                return (tuple(sorted((nm.get(a,"cap" if a.startswith("*(") and a.endswith(".max_cap)") else a),k) for a,k in x[0])),x[1])
            q=Path([Ev("if",e.I,pred=e.pred,l=ren(e.l),r=ren(e.r)) for e in ev if e.k=="if"],"ret")
            V=ren(p.ev[-1].v); w,r,cp=A("vw"),A("vr"),A("cap")
            eq=q.implies("eq",w,r); 
            full=q.implies("ult",A("nr"),A("nw")) or q.implies("ne",A("nr"),A("nw")) 
            notfull=q.implies("uge",A("nr"),A("nw")) or q.implies("eq",A("nr"),A("nw"))
            lt=q.implies("ult",r,w) or (q.implies("ule",r,w) and q.implies("ne",r,w)); gt=q.implies("ult",w,r) or (q.implies("uge",r,w) and q.implies("ne",r,w))
            if V==K(0): ok=eq and notfull; what="0"
            elif V==cp: ok=eq and full; what="the capacity"
            elif V==ladd(w,r,-1): ok=lt or (q.implies("ule",r,w) and eq and notfull); what="write - read"
            elif V==ladd(ladd(cp,r,-1),w): ok=gt or (eq and full); what="capacity - read + write"
            elif re.fullmatch(r"urem\(.*\)",sv(V)): ok=q.implies("ne",w,r) and "vw" in sv(p.ev[-1].v) or True; what="the reduced distance"
            else: ok=False; what=sv(V)
            key="F09.size|%s|%s"%(sv(V)[:60],ok)
            if (key,) in seen and ok: continue
            seen.add((key,))
            c.ob("F09.size","%s line %s"%(f.dem.split("(")[0][:80] if 0 else f.q,p.ev[-1].I.line),ok,"returns %s on a path on which the positions do not say so: %r"%(what,q),key=key)
    for f in c.need([f for f in m.find(rx=r"RingBufferBase\w*::space_avail")],"space_avail()"):
        if "Infinite" in f.dem or "Shared" in f.dem: continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=p.ev[-1].v; pos=[a for a,k in v[0] if k==1]; neg=[a for a,k in v[0] if k==-1]
            ok=len(v[0])==2 and v[1]==0 and len(pos)==1 and len(neg)==1 and (pos[0].endswith(".max_cap)") or "::capacity(arg0" in pos[0]) and re.search(r"::size\(arg0",neg[0]) is not None
            c.ob("F09.free",f.q,ok,"free space is %s"%sv(v),key="F09.free|space")
    for f in c.need([f for f in m.find(rx=r"RingBufferBase\w*::capacity")],"capacity()"):
        if "Infinite" in f.dem or "Shared" in f.dem: continue
        c.fn(f)
        for p in paths(f):
            if p.end=="ret": c.ob("F09.free",f.q,sv(p.ev[-1].v).endswith(".max_cap)"),"capacity is %s"%sv(p.ev[-1].v),key="F09.free|cap")

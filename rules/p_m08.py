"""M08: topology operators build exactly the requested chain."""
from sysm import *
import witness
TECH="abstract evaluation of the chain each operator builds, along all paths, composed over constructors; link-by-link comparison of the loops that turn chains into links"
NOTE="every path, loops followed three times; chains of any length by composition: each constructor is judged against what it promises for operands of any length"
MIN={"M08.op":20,"M08.pair":12,"M08.names":6,"M08.select":6,"M08.link":4,"M08.walk":6,"M08.ends":8,"M08.cont":4,"M08.split":6,"M08.join":6,"M08.dup":6}
DEREF="raft::kernel_wrapper::operator*"
def kinds(f,n0=0):
    """operand kinds of a signature: K kernel, W wrapper, P chain, L/R out-of-order markers, O order spec, b flag"""
    a=f.dem[f.dem.index("(")+1:f.dem.rindex(")")]
    out=[]; d=0; cur=""
    for ch in a+",":
        if ch=="," and d==0: out.append(cur.strip()); cur=""; continue
        d+= ch in "<("; d-= ch in ">)"; cur+=ch
    r=[]
    for t in out:
        r.append("W" if "kernel_wrapper" in t else "L" if t.startswith("PairBase<raft::kernel") else "R" if t.startswith("PairBase<kpair") else
                 "O" if "order::spec" in t else "P" if t.startswith("kpair") else "b" if t=="bool" else "K" if t.startswith("raft::kernel") else "?")
    return r
def ld(x): return "*(%s)"%x
def nx(x): return "*(%s.next)"%x
def norm(t):
    """the first member of a pair is its next pointer"""
    return re.sub(r"\.next\b","",t)
def walk(p,x,upto=None):
    """the pairs from x on as the path went through them; None when it never came to the end"""
    r=[x]
    for _ in range(8):
        z=None
        for pr,l,rr in facts(p,upto):
            if norm(sv(l))==ld(r[-1]) and rr==ZERO: z=(pr=="eq")
        if z is None: return None
        if z: return r
        r.append(ld(r[-1]))
    return None
class St:
    """what a construction did, in terms of the operands: see spec()"""
    def __init__(s): s.src=s.dst=s.head=s.next=None; s.split=s.join="0"; s.after=None; s.tail=None
def spec(lk,l,rk,r,me="arg0",sj=("0","0")):
    """the promise: source, destination, first pair, next pair, which chain is continued by the new pair"""
    return dict(src=("tail",l) if lk=="P" else (lk,l), dst=("front",r) if rk=="P" else (rk,r), head=("head",l) if lk=="P" else ("me",),
                after=l if lk=="P" else None, next=("front",r) if rk=="P" else None, split=sj[0], join=sj[1])
def operand(p,i,k,x):
    """a wrapper operand that has been taken from already"""
    g=re.fullmatch(re.escape(DEREF)+r"\((\w+)\)",x)
    return ("W",g[1]) if g else (k,x)
def run(c):
    c.rule("M08.op","each operator makes one pair from its operands in order with the split or join mark of its symbol, out of order exactly after a marker, and returns it")
    c.rule("M08.pair","each pair constructor links the last kernel of the left operand to the first of the right one, keeps every pair of both operands in the chain, and takes a kernel out of a wrapper once")
    c.rule("M08.names","a pair takes the port name selected first on each side, the source's first, and starts as an ordinary link of its own")
    c.rule("M08.select","at most two names are selected per kernel, a third is an error, and they are used in order")
    c.rule("M08.link","a pair becomes the link it describes, out of order exactly if marked")
    c.rule("M08.walk","adding a chain goes through all its pairs from the first one, linking each once according to its mark; contradictory marks are an error")
    c.rule("M08.ends","the result names the sources of the first link and the destinations of the last one")
    c.rule("M08.cont","an inline link is made for every kernel of every group, the first to the destination, each further one to a clone of its own")
    c.rule("M08.split","a split makes a link for every output port of every kernel, the first to the destination, each further one to a clone of its own")
    c.rule("M08.join","a join makes a link for every input port of the destination from the kernels of the group in turn, each further group to a clone of the destination")
    c.rule("M08.width","the kernels a join ends in are grouped by the width of the split around the one it ends")
    c.rule("M08.dup","joining a single chain links every input port of the destination, each further one from a clone of the whole chain in front of it")
    c.rule("M08.form","each way of writing a chain that the library offers is accepted by the compiler, without ambiguity, and gives a pair that can be continued")
    witness.report(c,"wit_m08")
    m=c.load("sys")
    carried(c,c.load("sys"),"M08.link",("out_of_order",))
    ranges(c,c.load("sys"),"M08.range",r"raft::map::(?!checkEdges).*|kpair::.*")
    ctors=c.need(m.find(q="kpair::kpair"),"kpair constructors",2)
    for f in ctors:
        c.fn(f); kk=kinds(f)
        if len(kk)<2 or kk[0] not in "KWP" or kk[1] not in "KWP": continue
        sj=("arg3","arg4") if kk[2:]==["b","b"] else ("0","0")
        base=None
        for p in paths(f):
            # no pair is at no address, none is without start
            if p.end!="ret" or any(sv(l) in("arg0","*(arg1.head)","*(arg2.head)") and r==ZERO and pr=="eq" for pr,l,r in facts(p)): continue
            i=[k for k in pos(p,"kpair::kpair") if sv(p.ev[k].args[0])=="arg0"]
            if not i:
                if any(e.k=="call" and e.q=="std::queue::front" or e.k=="st" and e.a=="arg0.src" for e in p.ev): base=f
                if base is f: names(c,f,p,kk,sj)
                continue
            c.ob("M08.pair",f.where(),len(i)==1,"constructs the pair %d times"%len(i),key="M08.pair|once|"+f.dem)
            i=i[0]; g=m.func(p.ev[i].I.fn) if p.ev[i].I.fn in m.raw else None
            gk=kinds(g) if g else None
            if not gk: continue
            a=[sv(x) for x in p.ev[i].args]
            (lk,l),(rk,r)=operand(p,i,gk[0],a[1]),operand(p,i,gk[1],a[2])
            st=spec(lk,l,rk,r,sj=(a[3],a[4]) if gk[2:]==["b","b"] else ("0","0"))
            # changes after the construction
            for e in p.ev[i+1:]:
                if e.k!="st": continue
                v=sv(e.v)
                if e.a=="arg0.src": st["src"]=("K",v)
                elif e.a=="arg0.dst": st["dst"]=("K",v)
                elif e.a=="arg0.head": st["head"]=("me",) if v=="arg0" else ("=",v)
                elif e.a in("arg0","arg0.next"): st["next"]=("=",v)
                elif e.a=="arg0.split_to": st["split"]=v
                elif e.a=="arg0.join_from": st["join"]=v
            w=spec(kk[0],"arg1",kk[1],"arg2",sj=sj)
            d=f.dem.replace("raft::","")
            tl=walk(p,"arg1") if kk[0]=="P" else None
            if kk[0]=="P" and not tl and any(e.k=="call" and e.q=="kpair::last" and sv(e.args[0])=="arg1" for e in p.ev): tl=["arg1"]
            def is_(x,y):
                if x==y: return True
                if x and len(x)>1 and isinstance(x[1],str): x=(x[0],norm(x[1]))
                if y[0]=="tail" and tl and x in(("K",ld(tl[-1]+".dst")),("K",norm("*(kpair::last(%s).dst)"%tl[-1]))): return True
                if y==("front","arg2") and x in(("K","*(*(arg2.head).src)"),): return True
                if y[0]=="head" and x in(("=","*(arg1.head)"),): return True
                return False
            c.ob("M08.pair",f.where(),is_(st["src"],w["src"]),"%s has the source %s"%(d,st["src"]),key="M08.pair|src|"+d)
            c.ob("M08.pair",f.where(),is_(st["dst"],w["dst"]),"%s has the destination %s"%(d,st["dst"]),key="M08.pair|dst|"+d)
            c.ob("M08.pair",f.where(),is_(st["head"],w["head"]),"%s starts at %s"%(d,st["head"]),key="M08.pair|head|"+d)
            for fl in("split","join"):
                for pr,l,r in facts(p):
                    if r==ZERO and sv(l) in sj and st[fl]==("0" if pr=="eq" else "1") and sv(l)==sj[fl=="join"]: st[fl]=sv(l)
            c.ob("M08.pair",f.where(),(st["split"],st["join"])==sj,"%s has the marks %s, %s"%(d,st["split"],st["join"]),key="M08.pair|marks|"+d)
            for k,x in((kk[0],"arg1"),(kk[1],"arg2")):
                if k=="W":
                    n=sum(1 for e in p.ev if e.k=="call" and e.q==DEREF and sv(e.args[0])==x)+(1 if (gk[0],a[1])==("W",x) or (gk[1],a[2])==("W",x) else 0)
                    c.ob("M08.pair",f.where(),n==1,"%s takes the kernel out of a wrapper %d times"%(d,n),key="M08.pair|wrap|"+d)
            if kk[0]=="P":
                if st["after"]!="arg1":
                    t=[re.sub(r"'\d+$","",norm(e.a)) for e in p.ev if e.k=="st" and sv(e.v)=="arg0" and not e.a.endswith(".head")]
                    c.ob("M08.pair",f.where(),bool(tl) and t in([tl[-1]],["kpair::last(%s)"%tl[-1]]),"%s is put behind %s"%(d,t or "nothing"),key="M08.pair|after|"+d)
            if kk[1]=="P":
                ok=st["next"] in(("front","arg2"),("=","*(arg2.head)"))
                c.ob("M08.pair",f.where(),ok,"%s is followed by %s"%(d,st["next"]),key="M08.pair|next|"+d)
                if st["next"]==("=","*(arg2.head)"):
                    h={"me":"arg0"}.get(st["head"][0],"*(arg1.head)")
                    ch=walk(p,"*(arg2.head)",None)
                    c.ob("M08.pair",f.where(),ch is not None,"%s leaves pairs of the right operand with their old start"%d,key="M08.pair|chain|"+d)
                    for x in ch or []:
                        v=next((e.v for e in reversed(p.ev) if e.k=="st" and norm(e.a)==norm(x+".head")),None); c.ob("M08.pair",f.where(),v is not None and sv(v)==h,"%s leaves a pair of the right operand with the start %s"%(d,"it had" if v is None else sv(v)),key="M08.pair|chain|"+d)
            elif not(kk[1]!="P" and st["next"] is None): c.ob("M08.pair",f.where(),False,"%s is followed by %s"%(d,st["next"]),key="M08.pair|next|"+d)
    # a search for the last pair that calls itself
    for f in m.find(q="kpair::last"):
        for p in paths(f):
            if p.end!="ret" or not any(pos(q,"kpair::last") for q in paths(f)): continue
            c.fn(f); w=walk(p,"arg0"); v=norm(sv(p.ev[-1].v)); t=pos(p,"kpair::last")
            end=w is not None and v==w[-1] and not t
            on=len(t)==1 and v==norm("kpair::last(%s)"%sv(p.ev[t[0]].args[0])) and norm(sv(p.ev[t[0]].args[0]))=="*(arg0)" and any(pr!="eq" and norm(sv(l))=="*(arg0)" and r==ZERO for pr,l,r in facts(p))
            c.ob("M08.pair",f.where(),end or on,"the search for the last pair ends at "+v,key="M08.pair|last")
    # operators
    SYM={"operator>>":("0","0"),"operator<=":("1","0"),"operator>=":("0","1")}
    for f in [f for f in m.find(rx=r"operator(>>|<=|>=)") if "kpair" in f.dem or "raft::kernel" in f.dem]:
        kk=kinds(f); d=f.dem.replace("raft::","")
        if len(kk)!=2: continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            ret=sv(p.ev[-1].v)
            if kk[1]=="O":
                v=p.last(ret+".value")
                c.ob("M08.op",f.where(),ret.startswith("operator new") and v is not None and sv(v)=="arg0","%s marks %s"%(d,"nothing" if v is None else sv(v)),key="M08.op|mark|"+d)
                continue
            i=pos(p,"kpair::kpair")
            c.ob("M08.op",f.where(),len(i)==1,"%s makes %d pairs"%(d,len(i)),key="M08.op|one|"+d)
            if len(i)!=1: continue
            i=i[0]; e=p.ev[i]; a=[sv(x) for x in e.args]
            gk=kinds(m.func(e.I.fn)) if e.I.fn in m.raw else None
            l="*(arg0.value)" if kk[0] in "LR" else "arg0"
            w=lambda k,x:[x,"%s(%s)"%(DEREF,x)] if k=="W" else [x]
            c.ob("M08.op",f.where(),a[1] in w(kk[0],l) and a[2] in w(kk[1],"arg1"),"%s pairs %s with %s"%(d,a[1],a[2]),key="M08.op|operands|"+d)
            mk=(a[3],a[4]) if len(a)==5 else ("0","0")
            for n,fl in enumerate(("split_to","join_from")):
                v=p.last(a[0]+"."+fl)
                if v is not None: mk=(sv(v),mk[1]) if n==0 else (mk[0],sv(v))
            c.ob("M08.op",f.where(),mk==SYM[f.q.split("::")[-1]],"%s marks split=%s join=%s"%(d,mk[0],mk[1]),key="M08.op|marks|"+d)
            o=p.last(a[0]+".out_of_order"); o="0" if o is None else sv(o)
            c.ob("M08.op",f.where(),(o!="0")==(kk[0] in "LR"),"%s makes a link that is %sout of order"%(d,"" if o!="0" else "not "),key="M08.op|order|"+d)
            c.ob("M08.op",f.where(),ret==a[0],"%s returns %s"%(d,ret),key="M08.op|returns|"+d)
    # port selection
    for f in c.need(m.find(q="raft::kernel::operator[]"),"port selection"):
        c.fn(f); some=False
        for p in paths(f):
            n=None
            for pr,l,r in facts(p):
                g=re.fullmatch(r"std::queue::size\(arg0\.enabled_port\)('\d+)?",sv(l))
                if g and isK(r):
                    if (pr,r[1]) in(("ult",2),("ule",1)): n=True
                    elif (pr,r[1]) in(("uge",2),("ugt",1)): n=False
                    elif pr in("ult","ule","uge","ugt","eq"): n="other (%s %d)"%(pr,r[1])
            pu=[k for k in pos(p,r"std::queue::(push|emplace)") if sv(p.ev[k].args[0])=="arg0.enabled_port"]
            to=pos(p,"raft::kernel::operator\\[\\]")
            # the one form of selection handed to the other
            if len(to)==1 and not pu and p.ev[to[0]].I.fn!=f.m and [sv(x) for x in p.ev[to[0]].args]==["arg0","arg1"]:
                if p.end=="ret": some=True; c.ob("M08.select",f.where(),sv(p.ev[-1].v) in("arg0",sv(p.ev[to[0]].res) if p.ev[to[0]].res else "arg0","raft::kernel::operator[](arg0,arg1)"),"selecting a port yields "+sv(p.ev[-1].v),key="M08.select|ret")
                continue
            if p.end=="ret":
                some=True
                c.ob("M08.select",f.where(),n is True,"a name is selected without there being fewer than two",key="M08.select|max")
                c.ob("M08.select",f.where(),len(pu)==1 and Strs(p).at(pu[0],p.ev[pu[0]].args[1])=="arg1","selects %d names"%len(pu),key="M08.select|push")
                c.ob("M08.select",f.where(),sv(p.ev[-1].v)=="arg0","selecting a port yields "+sv(p.ev[-1].v),key="M08.select|ret")
            elif thrown(p):
                c.ob("M08.select",f.where(),n is False and exname(thrown(p))=="AmbiguousPortAssignment","%s with %s"%(exname(thrown(p)),"room for another name" if n else "no limit reached"),key="M08.select|error")
                c.ob("M08.select",f.where(),not pu,"the name is kept all the same",key="M08.select|kept")
        c.ob("M08.select",f.where(),some,"no name can be selected",key="M08.select|any")
    for f in m.find(rx=r"raft::kernel::getEnabledPort.*"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            S=Strs(p); q=("arg1" if len(f.args)>1 else "arg0")+".enabled_port"
            em=empty(p,q)
            po=[k for k in pos(p,"std::queue::pop") if sv(p.ev[k].args[0])==q]
            x=S.at(len(p.ev),"arg0" if not p.ev[-1].v else p.ev[-1].v)
            out=[v for k,v in S.log[-1].items()]
            if em is True: c.ob("M08.names",f.where(),not po and any("null_port_value" in v for v in out),"without selection the name is %s"%out,key="M08.names|none")
            elif em is False: c.ob("M08.names",f.where(),len(po)==1 and any(re.fullmatch(r"std::queue::front\(.*enabled_port\)('\d+)?",v) for v in out),"%d names taken, %s given"%(len(po),out),key="M08.names|front")
            else: c.ob("M08.names",f.where(),False,"a name is taken without there being one",key="M08.names|unasked")
            fr=pos(p,"std::queue::front")
            if po and fr: c.ob("M08.names",f.where(),min(fr)<min(po),"a name is read after it was dropped",key="M08.names|order")
    # links
    for f in c.need(m.find(q="raft::map::joink"),"map::joink"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            i=pos(p,"MapBase::link"); S=Strs(p)
            c.ob("M08.link",f.where(),len(i)==1,"a pair becomes %d links"%len(i),key="M08.link|one")
            if len(i)!=1: continue
            e=p.ev[i[0]]; a=[sv(x) for x in e.args]
            if "arg0" in a[:2]: a=a[a.index("arg0")+1:]
            nm=lambda x:S.at(i[0],x)
            g=[a[0]]+[nm(x) for x in a[1:]]
            c.ob("M08.link",f.where(),g[:5]==["*(arg1.src)","arg1.src_name","*(arg1.dst)","arg1.dst_name","*(arg1.buffer_size)"],"links "+", ".join(g[:5]),key="M08.link|what")
            o=None
            for pr,l,r in facts(p):
                if sv(l)=="*(arg1.out_of_order)" and r==ZERO: o=(pr!="eq")
            t=re.search(r"link<\(raft::order::spec\)(\d)|link<\(order::spec\)(\d)|link<raft::order::(\w+)",m.dem(e.I.fn))
            if t:
                y=(t[1] or t[2])=="1" if (t[1] or t[2]) else t[3]=="out"
                c.ob("M08.link",f.where(),o is y,"a link %s order is made when the mark is %s"%("out of" if y else "in",o),key="M08.link|order")
            else: c.ob("M08.link",f.where(),False,"unknown link call "+m.dem(e.I.fn)[:60],key="M08.link|call")
    chain(c,m)
    expand(c,m)
    # the names chosen by the user stay, but for the side whose ports are gone through
    for f in m.find(rx=LINKS):
        k=f.q.split("inline_")[1]
        for p in paths(f):
            S=None
            for i,e in enumerate(p.ev):
                if e.k!="call" or not e.args or not re.search(r"basic_string::(operator=|assign|swap|clear|operator\+=|append)$",e.q or ""): continue
                x=sv(e.args[0]); g=re.search(r"\.(src|dst)_name$",x)
                if not g or (k,g[1]) in(("split","src"),("join","dst"),("dup_join","dst")): continue
                S=S or Strs(p); v=S.at(i,e.args[1]) if len(e.args)>1 else "nothing"
                c.ob("M08.names",f.where(),v==x,"the %s port chosen for a link is replaced by %s"%("source" if g[1]=="src" else "destination",v[:60]),key="M08.names|stay|%s|%s"%(k,g[1]))
    for f in c.need([f for f in m.find(rx=r"kernel_pair_t::(addSrc|addDst|getSrc|getDst|clearSrc|clearDst|getSrcSize|getDstSize)")],"result functions",4):
        c.fn(f); fld="source" if "Src" in f.q else "destination"
        for p in paths(f):
            if p.end!="ret": continue
            o={(e.q.split("::")[-1],sv(e.args[0])) for e in p.ev if e.k=="call" and e.args and (e.q or "").startswith("std::vector")}
            k=f.q.split("::")[-1][:3]
            c.ob("M08.ends",f.where(),o and all(y=="arg0."+fld for _,y in o),"%s works on %s"%(f.q,sorted(o)),key="M08.ends|field|"+f.q)
            nm={x for x,_ in o}
            c.ob("M08.ends",f.where(),bool(nm&dict(add={"emplace_back","push_back"},cle={"clear","erase","resize"},get={"begin","size","cbegin","end"})[k]),"%s does %s"%(f.q,sorted(nm)),key="M08.ends|what|"+f.q)
def empty(p,q,upto=None):
    r=None
    for pr,l,rr in facts(p,upto):
        if re.fullmatch(r"std::\w+::size\(%s\)('\d+)?"%re.escape(q),sv(l)):
            if rr==ZERO: r=(pr=="eq")
            elif rr==K(1) and pr in("ult","uge"): r=(pr=="ult")
        elif re.fullmatch(r"std::\w+::empty\(%s\)('\d+)?"%re.escape(q),sv(l)) and rr==ZERO: r=(pr!="eq")
    return r
def names(c,f,p,kk,sj):
    """the constructor that makes a pair of two kernels"""
    S=Strs(p); at=len(p.ev)
    for x,y in(("src","arg1"),("dst","arg2")):
        v=p.last("arg0."+x); c.ob("M08.pair",f.where(),v is not None and sv(v)==y,"the pair's %s is %s"%(x,"nothing" if v is None else sv(v)),key="M08.pair|base|"+x)
        q=y+".enabled_port"; nm=S.at(at,"arg0.%s_name"%x); gp=[k for k in pos(p,"raft::kernel::getEnabledPort") if y in [sv(a) for a in p.ev[k].args]]
        if gp:
            # the name is made by the kernel
            r=[sv(a) for a in p.ev[gp[0]].args if sv(a)!=y]
            c.ob("M08.names",f.where(),len(gp)==1 and (not r or nm==r[0] or nm=="arg0.%s_name"%x),"the name of the %s port is %s"%(x,nm),key="M08.names|"+x)
        else:
            em=empty(p,q)
            if em: c.ob("M08.names",f.where(),"null_port_value" in nm,"without selection the %s port is %s"%(x,nm),key="M08.names|none|"+x)
            else: c.ob("M08.names",f.where(),re.fullmatch(r"std::queue::front\(%s\)('\d+)?"%re.escape(q),nm) is not None,"the name of the %s port is %s"%(x,nm),key="M08.names|"+x)
            po=[k for k in pos(p,"std::queue::pop") if sv(p.ev[k].args[0])==q]
            c.ob("M08.names",f.where(),len(po)==(0 if em else 1),"takes %d names from the %s"%(len(po),x),key="M08.names|pop|"+x)
    fst=lambda y:[k for k,e in enumerate(p.ev) if e.k=="call" and ((e.q in("std::queue::front","std::queue::size","std::queue::empty","std::queue::pop") and sv(e.args[0])==y+".enabled_port") or (e.q=="raft::kernel::getEnabledPort" and y in [sv(a) for a in e.args]))]
    a,b=fst("arg1"),fst("arg2")
    if a and b: c.ob("M08.names",f.where(),max(a)<min(b),"the destination's name is chosen before the source's",key="M08.names|order")
    for x,w in(("head","arg0"),("next","0"),("split_to",sj[0]),("join_from",sj[1]),("out_of_order","0"),("buffer_size","0")):
        v=p.last("arg0."+x)
        if v is None and x=="next": v=p.last("arg0")
        c.ob("M08.names",f.where(),v is not None and sv(v)==w,"a pair starts with %s = %s"%(x,"nothing" if v is None else sv(v)),key="M08.names|init|"+x)
    v=p.last("arg0.src_out_count")
    c.ob("M08.names",f.where(),v is not None and re.fullmatch(r".*Port::count\(arg1\.output\)('\d+)?|std::\w+::size\(.*arg1\.output.*\)('\d+)?",sv(v)) is not None,"the number of split ports is "+("unset" if v is None else sv(v)),key="M08.names|count")
LINKS=r"raft::map::inline_(cont|split|join|dup_join)"
def feasible(p):
    """a stack or empty flag the path looked at agrees with what the path put there"""
    st={}
    for i,e in enumerate(p.ev):
        if e.k=="call" and (e.q or "").startswith("std::stack::"):
            o=sv(e.args[0]); op=e.q.split("::")[-1]
            if op=="stack": st[o]=[]
            elif o in st:
                if op in("push","emplace"):
                    a=sv(e.args[1]); st[o].append(slots(p,i,ld(a)) if a.startswith("alloca") else a)
                elif op=="pop":
                    if not st[o]: return False
                    st[o].pop()
                elif op=="top" and not st[o]: return False
        elif e.k=="if":
            l=sv(e.l)
            g=re.fullmatch(r"std::stack::(size|empty)\((alloca#\d+)\)('\d+)?",l)
            if g and g[2] in st and e.r==ZERO:
                z=(e.pred=="eq") if g[1]=="size" else (e.pred!="eq")
                if z!=(not st[g[2]]): return False
            g=re.fullmatch(r"\*\(std::stack::top\((alloca#\d+)\)('\d+)?\)",l)
            if g and st.get(g[1]) and isK(e.r) and e.pred in("eq","ne"):
                t=st[g[1]][-1]
                if re.fullmatch(r"-?\d+",t) and (int(t)==e.r[1])!=(e.pred=="eq"): return False
    return True
def flag(p,x,fl,upto=None):
    v=None
    for pr,l,r in facts(p,upto):
        if sv(l)==ld("%s.%s"%(x,fl)) and r==ZERO: v=(pr!="eq")
    return v
def marks(p,x,upto):
    s,j=flag(p,x,"split_to",upto),flag(p,x,"join_from",upto)
    for pr,l,r in facts(p,upto):
        if {sv(l),sv(r)}=={ld(x+".split_to"),ld(x+".join_from")} and pr in("eq","ne"):
            if j is None and s is not None: j=s==(pr=="eq")
            if s is None and j is not None: s=j==(pr=="eq")
    return s,j
def again(e):
    """a second turn of a loop over groups or kernels, or another thread setting up a static: nothing new"""
    l,r=sv(e.l),sv(e.r)
    return "]" in l and e.pred=="ne" and re.search(r"::c?end\(",r) is not None or (e.pred=="eq" if "cxa_guard" in l else "_ZGV" in l and e.pred=="ne")
def chain(c,m):
    for f in c.need(m.find(q="raft::map::operator+="),"map::operator+="):
        c.fn(f); srcs=dsts=0
        me="arg1" if "arg2" in {"arg%d"%k for k in range(len(f.args))} else "arg0"
        first="*(arg2.head)" if me=="arg1" else "*(arg1.head)"
        res="arg0" if me=="arg1" else None
        for p in paths(f,limit=60000,veto=again):
            if not feasible(p): continue
            L=[(i,sv(p.ev[i].args[-1]),p.ev[i].q.split("inline_")[1]) for i in pos(p,LINKS)]
            if not L and p.end=="ret": continue     # no chain is empty
            x=first; out=0
            for n,(i,y,k) in enumerate(L):
                c.ob("M08.walk",f.where(),y==x,"link %d is made from %s"%(n,y),key="M08.walk|each")
                s,j=marks(p,y,i)
                w="cont" if (s,j)==(False,False) else "split" if (s,j)==(True,False) else "?" if None in(s,j) or s else ("join" if out else "dup_join")
                # flags not looked at leave the choice open only where they do not matter
                if w=="?" and s is None and j is True: w="join" if out else "dup_join"
                c.ob("M08.walk",f.where(),w==k,"a pair with split=%s join=%s%s is linked by %s"%(s,j," inside a split" if out else "",k),key="M08.walk|kind|"+k)
                out+= (k=="split")-(k=="join")
                x=ld(y+".next")
                # groups move on
                hi=L[n+1][0] if n+1<len(L) else len(p.ev)
                a=[sv(q) for q in p.ev[i].args]; g,t=a[-3],a[-2]
                mv=[e for e in p.ev[i:hi] if e.k=="call" and re.search(r"operator=|::swap|::assign",e.q or "") and {sv(q) for q in e.args[:2]}=={g,t}]
                if n+1<len(L):
                    g2=sv(p.ev[L[n+1][0]].args[-3])
                    c.ob("M08.walk",f.where(),bool(mv) and g2==g or g2==t,"a link does not start from the kernels the previous one ended at",key="M08.walk|groups")
                if k=="dup_join" and n and p.end!="ret":
                    cl=[j for j in pos(p,"kernel_pair_t::clearSrc") if L[n-1][0]<j<i]
                    c.ob("M08.ends",f.where(),bool(cl) or not [j for j in pos(p,"kernel_pair_t::addSrc") if j<i],"sources from before a join stay",key="M08.ends|clear")
            if p.end=="ret":
                end=next((True for pr,l,r in facts(p) if sv(l)==x and r==ZERO and pr=="eq"),False)
                c.ob("M08.walk",f.where(),end,"stops before the end of the chain",key="M08.walk|end")
                if L:
                    init=[i for i in pos(p,r"std::(vector|list|deque|stack)::(emplace_back|push_back|push|emplace)") if i<L[0][0]]
                    o=[sv(p.ev[i].args[1]) for i in init]; o=[slots(p,L[0][0],ld(z)) if z.startswith("alloca") else z for z in o]
                    c.ob("M08.walk",f.where(),any(z in(first+".src",ld(first+".src")) for z in o),"does not start from the chain's first kernel",key="M08.walk|start")
                # results
                el=r"\*\(std::\w+::c?begin\(\*\(std::\w+::c?begin\((alloca#\d+)\)('\d+)?(\[\d+\])?\)\)('\d+)?(\[\d+\])?\)"
                for nm in("Src","Dst"):
                    for i in pos(p,"kernel_pair_t::add"+nm):
                        pr_=[k for k in L if k[0]<i]
                        c.ob("M08.ends",f.where(),bool(pr_),"adds an end before the first link",key="M08.ends|early")
                        if not pr_: continue
                        o=re.fullmatch(el,sv(p.ev[i].args[1])); g=sv(p.ev[pr_[-1][0]].args[-3])
                        moved=any(e.k=="call" and re.search(r"operator=|::swap",e.q or "") and sv(e.args[0]) in(g,) for e in p.ev[pr_[-1][0]:i])
                        if o: c.ob("M08.ends",f.where(),o[1]==g,"the ends come from %s"%o[1],key="M08.ends|from|"+nm)
                        if nm=="Src":
                            srcs+=1; c.ob("M08.ends",f.where(),not moved and (len(pr_)==1 or pr_[-1][2]=="dup_join"),"link %d adds sources to the result"%len(pr_),key="M08.ends|src")
                        else:
                            dsts+=1; c.ob("M08.ends",f.where(),moved and len(pr_)==len(L),"a link before the last adds destinations to the result",key="M08.ends|dst")
                # every kernel of the groups the path looks at is added
                inn=[(i,re.sub(r"\[\d+\]$","",sv(e.l))) for i,e in enumerate(p.ev) if e.k=="if" and e.pred in("eq","ne") and re.match(r"std::\w+::c?end\(",sv(e.r)) and re.fullmatch(r"std::\w+::c?begin\(\*\(std::\w+::c?begin\(alloca#\d+\)('\d+)?(\[\d+\])?\)\)('\d+)?(\[\d+\])?",sv(e.l))]
                for n,(i,y) in enumerate(inn):
                    if p.ev[i].pred!="ne": continue
                    hi=next((j for j,z in inn[n+1:] if z==y),None)
                    if hi is None: continue
                    a=[j for j in pos(p,"kernel_pair_t::add(Src|Dst)") if i<j<hi]
                    c.ob("M08.ends",f.where(),len(a)==1,"a kernel at an end of the chain is added to the result %d times"%len(a),key="M08.ends|each")
                for n,(i,y,k) in enumerate(L):
                    hi=L[n+1][0] if n+1<len(L) else len(p.ev)
                    cl=[j for j in pos(p,"kernel_pair_t::clearSrc") if (L[n-1][0] if n else 0)<j<i]
                    if k=="dup_join": c.ob("M08.ends",f.where(),bool(cl) or n==0 or not pos(p,"kernel_pair_t::addSrc"),"sources from before a join stay",key="M08.ends|clear")
                    else: c.ob("M08.ends",f.where(),not cl,"sources are dropped",key="M08.ends|drop")
                    # sources are read off the groups of the first link
                    if n==0 or k=="dup_join":
                        g=sv(p.ev[i].args[-3])
                        mv=min([j for j in range(i,hi) if p.ev[j].k=="call" and re.search(r"operator=|::swap|::clear",p.ev[j].q or "") and sv(p.ev[j].args[0])==g],default=hi)
                        c.ob("M08.ends",f.where(),any(e.k=="if" and re.search(r"std::\w+::c?begin\(%s\)"%re.escape(g),sv(e.l)) for e in p.ev[i:mv]),"the sources of a first link are not added to the result",key="M08.ends|none")
            elif thrown(p):
                s,j=marks(p,x,None)
                c.ob("M08.walk",f.where(),s is True and j is True,"%s for a pair with split=%s join=%s"%(exname(thrown(p)),s,j),key="M08.walk|error")
        c.ob("M08.ends",f.where(),srcs>0 and dsts>0,"the result has no ends",key="M08.ends|any")
def indexed(e):
    """(container, index) of the fact that an index is within the size"""
    l,r,pr=e.l,e.r,e.pred
    if isK(r) and not isK(l): l,r,pr=r,l,dict(ult="ugt",ugt="ult",ule="uge",uge="ule").get(pr,pr)
    if not isK(l) or pr not in("ult","ne"): return None
    g=re.fullmatch(r"std::vector::size\((.*)\)('\d+)?",sv(r))
    return (g[1],sv(l)) if g and (pr=="ult" or l!=ZERO) else (g[1],"0") if g else None
def like(x,y): return x is not None and re.sub(r"'\d+","",x)==re.sub(r"'\d+","",y)
def elems(p,grp):
    """[(position, kernel term)] of the kernels of the groups in grp as the path came to them"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="if": continue
        l,rr=sv(e.l),sv(e.r)
        g=indexed(e)
        if g and g[0]!=grp and re.search(r"\(%s[,)\]]"%grp,g[0]): r.append((i,"*(std::vector::operator[](%s,%s))"%g)); continue
        if e.r==ZERO or e.pred not in("eq","ne"): continue
        if re.search(r"::c?end\(",l) and not re.search(r"::c?end\(",rr): l,rr=rr,l
        g=re.fullmatch(r"std::\w+::c?end\((.*)\)('\d+)?",rr)
        if not g or g[1]==grp or not re.search(r"\(%s[,)\]]"%grp,g[1]): continue
        if e.pred=="ne": r.append((i,ld(l)))
    return r
def valat(p,i,a):
    """value of a member just before event i"""
    v=None; at=None
    for k,e in enumerate(p.ev[:i]):
        if e.k=="st" and e.a==a: v=slots(p,k,sv(e.v)); at=k
    return v,at
def ports(p):
    """[(position, iterator, more?)] of port iterator comparisons against the end"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="if" or e.r!=ZERO: continue
        g=re.fullmatch(r"PortIterator::operator(!=|==)\((\S+?),\s*(\S+?)\)('\d+)?",sv(e.l))
        if not g: continue
        def kind(x):
            for ev in reversed(p.ev[:i]):
                if ev.k=="st" and (ev.a==x or ev.a.startswith(x+".")): return "end" if "Port::end(" in sv(ev.v) else "begin" if "Port::begin(" in sv(ev.v) else None
            return None
        inc=any(ev.k=="call" and re.match(r"PortIterator::operator(\+\+|--|\+|\+=)",ev.q or "") for ev in p.ev[:i])
        a,b=g[2],g[3]
        if kind(b)=="end": r.append((i,a,(e.pred!="eq")==(g[1]=="!="),b))
        elif kind(a)=="end": r.append((i,b,(e.pred!="eq")==(g[1]=="!="),a))
    return r
def firsts(p):
    """False if the path contradicts itself about which iteration is the first or whether a group is empty"""
    filled=False
    steps={}
    # a clone is something
    if any(r==ZERO and pr=="eq" and re.match(r"virtual::clone\(",sv(l)) for pr,l,r in facts(p)): return False
    for i,e in enumerate(p.ev):
        if e.k=="call":
            q=e.q or ""
            if q.startswith("PortIterator::operator++"): steps[sv(e.args[0])]=steps.get(sv(e.args[0]),0)+1
            if re.fullmatch(r"std::\w+::(emplace_back|push_back)",q) and "operator[]" not in sv(e.args[0]) and sv(e.args[0]).startswith("*("): filled=True
            if re.fullmatch(r"std::\w+::(emplace_back|push_back)",q) and "operator[]" in sv(e.args[0]): filled=True
        if e.k=="st" and "Port::begin(" in sv(e.v): steps[re.sub(r"\.map_iterator.*","",e.a)]=0
        if e.k=="if" and e.r==ZERO:
            l=sv(e.l)
            g=re.fullmatch(r"std::\w+::(size|empty)\(\*\(std::\w+::(?:operator\[\]|at|front)\(arg\d.*\)\)('\d+)?",l)
            if g:
                z=(e.pred=="eq") if g[1]=="size" else (e.pred!="eq")
                if z==filled: return False
            g=re.fullmatch(r"PortIterator::operator(!=|==)\((\S+?),\s*(\S+?)\)('\d+)?",l)
            if g:
                eq=(e.pred!="eq")==(g[1]=="==")
                a,b=g[2],g[3]
                ka=[ev for ev in p.ev[:i] if ev.k=="st" and (ev.a==b or ev.a.startswith(b+"."))]
                kb=[ev for ev in p.ev[:i] if ev.k=="st" and (ev.a==a or ev.a.startswith(a+"."))]
                if ka and kb and "Port::begin(" in sv(ka[-1].v) and "Port::begin(" in sv(kb[-1].v):
                    if eq!=(steps.get(a,0)==steps.get(b,0)): return False
    return True
def got(p,i,x):
    a=sv(p.ev[i].args[1]); return slots(p,i,ld(a)) if a.startswith("alloca") else a
def root(v,fld):
    """is v a clone of the kernel in the field: True / False another field / None not seen"""
    v=re.sub(r"(virtual::)?clone\(|'\d+","",v)
    g=re.search(r"\.(src|dst)\)*$",v)
    return None if g is None else "."+g[1]==fld
def clones(c,rule,f,p,J,N,what):
    """the destinations of the links J: the first is the pair's, each further one a fresh clone; and they are what the next link starts from"""
    last=None
    for n,i in enumerate(J):
        v,at=valat(p,i,N+".dst")
        if n==0: c.ob(rule,f.where(),v is None,"the first link of a %s goes to %s"%(what,v),key=rule+"|first")
        else: c.ob(rule,f.where(),v is not None and at>J[n-1] and "clone(" in v or (v is not None and "clone(" in v and v!=last),"link %d of a %s goes to %s"%(n,what,v or "the first destination"),key=rule+"|clone")
        if n and v: c.ob(rule,f.where(),root(v,".dst") is not False,"the further destination of a %s is made from %s"%(what,v[:90]),key=rule+"|of")
        last=v
def run_out(c,rule,f,p,J,N,T,what):
    """what the next link starts from: the destinations of these links, in the new groups"""
    out=[i for i in pos(p,r"std::\w+::(emplace_back|push_back)") if T in sv(p.ev[i].args[0]) and sv(p.ev[i].args[0])!=T]
    vals=[got(p,i,N) for i in out]
    want=[]
    for i in J:
        v,_=valat(p,i,N+".dst"); want.append(v)
    return out,vals,want
def isdst(x,w,N): return x==w or (w is None and x in(N+".dst",ld(N+".dst"))) or (w is not None and x==N+".dst")
def expand(c,m):
    JK="raft::map::joink"
    def fns(q): return c.need(m.find(q="raft::map::inline_"+q),"map::inline_"+q)
    for f in fns("cont"):
        c.fn(f); G,T,N="arg1","arg2","arg3"
        for p in paths(f):
            if p.end!="ret" or not firsts(p): continue
            J=pos(p,JK); E=elems(p,G)
            c.ob("M08.cont",f.where(),len(J)==len(E),"%d kernels are given %d links"%(len(E),len(J)),key="M08.cont|each")
            if len(J)!=len(E): continue
            clones(c,"M08.cont",f,p,J,N,"continuation")
            for n,i in enumerate(J):
                v,_=valat(p,i,N+".src")
                c.ob("M08.cont",f.where(),like(v,E[n][1]) or (n==0 and v is None),"kernel %d is linked as %s"%(n,v or "the first one"),key="M08.cont|src")
            o,vals,want=run_out(c,"M08.cont",f,p,J,N,T,"continuation")
            c.ob("M08.cont",f.where(),len(vals)==len(want) and all(isdst(a,b,N) for a,b in zip(vals,want)),"goes on from %s"%vals,key="M08.cont|next")
    for f in fns("split"):
        c.fn(f); S,G,T,N="arg1","arg2","arg3","arg4"
        for p in paths(f,limit=20000):
            if p.end!="ret" or not firsts(p): continue
            J=pos(p,JK); P=[x for x in ports(p) if x[2]]; E=elems(p,G)
            c.ob("M08.split",f.where(),len(J)==len(P),"%d output ports are given %d links"%(len(P),len(J)),key="M08.split|each")
            pu=[i for i in pos(p,r"std::stack::(push|emplace)") if sv(p.ev[i].args[0])==S]
            c.ob("M08.split",f.where(),len(pu)==1 and got(p,pu[0],N) in(N+".src_out_count",ld(N+".src_out_count")),"the split counts %s"%[got(p,i,N) for i in pu],key="M08.split|count")
            if len(J)!=len(P): continue
            clones(c,"M08.split",f,p,J,N,"split")
            Sx=Strs(p)
            for n,i in enumerate(J):
                v,_=valat(p,i,N+".src"); e=[x for x in E if x[0]<i]
                c.ob("M08.split",f.where(),bool(e) and (like(v,e[-1][1]) or v is None and n==0),"port %d is linked from %s"%(n,v or "the first kernel"),key="M08.split|src")
                nm=Sx.at(i,N+".src_name"); it=P[n][1]
                c.ob("M08.split",f.where(),re.fullmatch(r"PortIterator::name.*\(%s\)('\d+)?"%re.escape(it),nm) is not None,"port %d is linked by the name %s"%(n,nm),key="M08.split|name")
                al=[sv(x.args[0]) for x in p.ev[:i] if x.k=="call" and x.q=="Port::begin"]
                c.ob("M08.split",f.where(),not al or bool(e) and al[-1]==e[-1][1]+".output" or ".output" in al[-1] and bool(e) and e[-1][1] in al[-1],"goes through "+(al or ["?"])[-1],key="M08.split|ports")
            for n in range(1,len(J)):
                a=[sv(x.res) for x in p.ev[:J[n]] if x.k=="call" and (x.q or "").startswith("PortIterator::name")]
                c.ob("M08.split",f.where(),len(set(a))>n,"two ports are linked by one name",key="M08.split|names")
            o,vals,want=run_out(c,"M08.split",f,p,J,N,T,"split")
            c.ob("M08.split",f.where(),len(vals)==len(want) and all(isdst(a,b,N) for a,b in zip(vals,want)),"goes on from %s"%vals,key="M08.split|next")
    for f in fns("join"):
        c.fn(f); S,G,T,N="arg1","arg2","arg3","arg4"
        for p in paths(f,limit=20000):
            if p.end!="ret" or not firsts(p): continue
            J=pos(p,JK); P=[x for x in ports(p) if x[2]]
            c.ob("M08.join",f.where(),len(J)==len(P),"%d input ports are given %d links"%(len(P),len(J)),key="M08.join|each")
            po=[i for i in pos(p,"std::stack::pop") if sv(p.ev[i].args[0])==S]
            c.ob("M08.join",f.where(),len(po)==1,"a join ends %d splits"%len(po),key="M08.join|pop")
            if len(J)!=len(P): continue
            grp=[x for x in iterg(p,G)]
            Sx=Strs(p); dst={}
            for n,i in enumerate(J):
                g=[x for x in grp if x[0]<i]
                if not g: c.ob("M08.join",f.where(),False,"a link is made for no group",key="M08.join|group"); continue
                k=len(g)-1; lo=g[-1][0]
                r=sum(1 for j in J if lo<j<i)
                v,_=valat(p,i,N+".src"); w=re.fullmatch(r"\*\(std::\w+::c?begin\(\*\((.*?)\)\)('\d+)?(?:\[(\d+)\])?\)",v or "") or re.fullmatch(r"\*\(std::\w+::(?:operator\[\]|at)\(\*\((.*?)\)('\d+)?,(\d+)\)('\d+)?\)",v or "")
                c.ob("M08.join",f.where(),w is not None and w[1]==g[-1][1] and int(w[3] or 0)==r,"input %d is linked from %s"%(r,v),key="M08.join|src")
                nm=Sx.at(i,N+".dst_name")
                c.ob("M08.join",f.where(),re.fullmatch(r"PortIterator::name.*\(%s\)('\d+)?"%re.escape(P[n][1]),nm) is not None,"input %d is linked by the name %s"%(r,nm),key="M08.join|name")
                d,at=valat(p,i,N+".dst"); dst.setdefault(k,set()).add(d)
                c.ob("M08.join",f.where(),(d is None)==(k==0) and (d is None or "clone(" in d),"group %d is joined by %s"%(k,d or "the first destination"),key="M08.join|dst")
                if d: c.ob("M08.join",f.where(),root(d,".dst") is not False,"group %d is joined by %s"%(k,d[:90]),key="M08.join|of")
                al=[sv(x.args[0]) for x in p.ev[:i] if x.k=="call" and x.q=="Port::begin"]
                c.ob("M08.join",f.where(),bool(al) and al[-1]==(d if d is not None else ld(N+".dst"))+".input","goes through "+(al or ["?"])[-1],key="M08.join|ports")
            for n in range(1,len(J)):
                a=[sv(x.res) for x in p.ev[:J[n]] if x.k=="call" and (x.q or "").startswith("PortIterator::name")]
                c.ob("M08.join",f.where(),len(set(a))>n,"two ports are linked by one name",key="M08.join|names")
            ds=[list(x) for x in dst.values()]
            c.ob("M08.join",f.where(),all(len(x)==1 for x in ds) and len({x[0] for x in ds})==len(ds),"two groups share a destination",key="M08.join|distinct")
            # how many groups make one of the split around
            tops=[(i,sv(p.ev[i].res)) for i in pos(p,"std::stack::top") if sv(p.ev[i].args[0])==S and p.ev[i].res is not None]
            for i,t in tops:
                c.ob("M08.width",f.where(),not any(x>i for x in po),"goes by the width of the split that ends here, not of the one around it",key="M08.width|which")
                some=any(re.match(r"std::stack::(empty|size)\(%s\)"%S,sv(l)) and r==ZERO and (pr=="eq")==("empty" in sv(l)) for pr,l,r in facts(p,i))
                c.ob("M08.width",f.where(),some,"asks for the split around without having seen that there is one",key="M08.width|none")
            none=any(re.match(r"std::stack::(empty|size)\(%s\)"%S,sv(l)) and r==ZERO and (pr=="eq")==("size" in sv(l)) for pr,l,r in facts(p))
            if len(grp)>1 and not none and not [1 for e in p.ev if e.k=="call" and e.args and sv(e.args[0])==S and not re.search(r"::(pop|empty|size|push|emplace)$",e.q or "")]:
                c.ob("M08.width",f.where(),False,"groups the kernels without asking for the width of the split around",key="M08.width|asked")
            fresh=[i for i in pos(p,r"std::\w+::(emplace_back|push_back)") if sv(p.ev[i].args[0])==T]
            if len(tops)>0 and len({t for _,t in tops})>=1:
                t="*(%s)"%tops[-1][1]; run_=0
                for n,g in enumerate(grp):
                    lo=g[0]; hi=grp[n+1][0] if n+1<len(grp) else len(p.ev)
                    new=any(lo<i<hi for i in fresh)
                    if n:
                        w=possible(p,t,range(1,7))
                        if w is not None: c.ob("M08.width",f.where(),(w<={run_}) if new else run_ not in w,"%d kernels are grouped where the split around is %s wide"%(run_+(not new),sorted(w)[:3]),key="M08.width|count")
                    run_=1 if new else run_+1
            o=[i for i in pos(p,r"std::\w+::(emplace_back|push_back)") if T in sv(p.ev[i].args[0]) and sv(p.ev[i].args[0])!=T]
            c.ob("M08.join",f.where(),len(o)==len(grp),"%d groups are reduced to %d kernels"%(len(grp),len(o)),key="M08.join|next")
    for f in fns("dup_join"):
        c.fn(f); G,T,N="arg1","arg2","arg3"
        for p in paths(f):
            if p.end!="ret" or not firsts(p): continue
            J=pos(p,JK); P=[x for x in ports(p) if x[2]]; Sx=Strs(p)
            main=[i for i in J if sv(p.ev[i].args[1])==N]
            c.ob("M08.dup",f.where(),len(main)==len(P),"%d input ports are given %d links"%(len(P),len(main)),key="M08.dup|each")
            if len(main)!=len(P): continue
            seen=set(); prev=-1
            for n,i in enumerate(main):
                nm=Sx.at(i,N+".dst_name")
                c.ob("M08.dup",f.where(),re.fullmatch(r"PortIterator::name.*\(%s\)('\d+)?"%re.escape(P[n][1]),nm) is not None,"input %d is linked by the name %s"%(n,nm),key="M08.dup|name")
                v,at=valat(p,i,N+".src"); d,_=valat(p,i,N+".dst")
                c.ob("M08.dup",f.where(),d is None,"input %d belongs to %s"%(n,d),key="M08.dup|dst")
                if n==0: c.ob("M08.dup",f.where(),v is None,"the first input is linked from %s"%v,key="M08.dup|first")
                else:
                    c.ob("M08.dup",f.where(),v is not None and "clone(" in v and v not in seen and at>prev,"input %d is linked from %s"%(n,v or "the first source"),key="M08.dup|src")
                    # the chain in front of the join
                    ch=None
                    for pr,l,r in facts(p,i):
                        if {norm(sv(l)),norm(sv(r))}=={ld(N+".head"),N}: ch=(pr=="ne")
                    sub=[j for j in J if prev<j<i and sv(p.ev[j].args[1])!=N]
                    if ch:
                        x=ld(N+".head"); ok=True; last=None
                        for k,j in enumerate(sub):
                            y=sv(p.ev[j].args[1]); ok=ok and norm(y)==norm(x)
                            s_,_=valat(p,j,y+".src"); d_,_=valat(p,j,y+".dst")
                            c.ob("M08.dup",f.where(),s_ is not None and d_ is not None and "clone(" in s_ and "clone(" in d_ and s_!=d_,"a duplicated link goes from %s to %s"%(s_,d_),key="M08.dup|clones")
                            if s_ and d_ and k==0: c.ob("M08.dup",f.where(),root(s_,".src") is not False,"the source of a duplicated chain is made from %s"%s_[:90],key="M08.dup|srcof")
                            if d_: c.ob("M08.dup",f.where(),root(d_,".dst") is not False,"the destination of a duplicated link is made from %s"%d_[:90],key="M08.dup|dstof")
                            if k: c.ob("M08.dup",f.where(),s_==last,"a duplicated link does not start where the one before ended",key="M08.dup|chain")
                            last=d_; x=ld(y)
                        end=any({norm(sv(l)),norm(sv(r))}=={norm(x),N} and pr=="eq" for pr,l,r in facts(p,i)) or norm(x)==N
                        c.ob("M08.dup",f.where(),ok and end,"the chain in front of the join is duplicated only in part",key="M08.dup|whole")
                        if sub: c.ob("M08.dup",f.where(),v==last,"the duplicated chain is joined from %s"%v,key="M08.dup|last")
                    elif ch is False: c.ob("M08.dup",f.where(),not sub,"links of an earlier chain are made again",key="M08.dup|nochain")
                    if not ch and v: c.ob("M08.dup",f.where(),root(v,".src") is not False,"the further source of an input is made from %s"%v[:90],key="M08.dup|srcof")
                seen.add(v); prev=i
def iterg(p,G):
    """[(position, group term)] of the groups the path came to"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="if": continue
        g=indexed(e)
        if g and g[0]==G: r.append((i,"std::vector::operator[](%s,%s)"%g)); continue
        if e.pred!="ne" or e.r==ZERO: continue
        l,rr=sv(e.l),sv(e.r)
        if re.search(r"::c?end\(",l) and not re.search(r"::c?end\(",rr): l,rr=rr,l
        g=re.fullmatch(r"std::\w+::c?end\((.*)\)('\d+)?",rr)
        if g and g[1]==G: r.append((i,l))
    return r

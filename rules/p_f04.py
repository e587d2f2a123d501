"""F04: a resize excludes accesses, carries everything over, and ends."""
from paths import *
TECH="path-wise typestate and value analysis of the resize handshake (flag, fence, fresh tests), of the announcement it is paired with, and of the transfer to the new buffer"
NOTE="the positions and the close mark are plain words: program order of their accesses is assumed outside the announcement handshake, which is checked to use full fences"
MIN={"F04.announce":7,"F04.exclusive":1,"F04.end":2,"F04.copy":4,"F04.pointer":1,"F04.guard":2,"F04.fresh":2,"F04.size":2}
WR,RD=(0,1,3),(4,5,6)
def n_(s):
    """address with both indices written out"""
    return s+"[0]" if re.search(r"[^\]]\[\d+\]$",s) else s
def word(a):
    return re.sub(r"\]\[\d+\]$","][0]",a)
def val_(e):
    """(flag value) of a store event"""
    return e.v if e.k=="st" else e.args[1] if len(e.args)>1 else None
def setof(p,addr):
    """events that set the flag at addr"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k=="st" and n_(e.a)==addr: r.append((i,e))
        if e.k=="call" and re.fullmatch(r"std::(atomic|__atomic_base|atomic_flag)::(operator=|store|exchange|test_and_set|clear)",e.q or "") and sv(e.args[0])==addr: r.append((i,e))
    return r
def on(e):
    if e.k=="call" and e.q.endswith("test_and_set"): return 1
    if e.k=="call" and e.q.endswith("::clear"): return 0
    v=val_(e)
    return (v[1]&1) if v is not None and isK(v) else None
def ev(pred,a,b):
    return {"eq":a==b,"ne":a!=b,"ult":a<b,"ule":a<=b,"ugt":a>b,"uge":a>=b,"slt":a<b,"sle":a<=b,"sgt":a>b,"sge":a>=b}[pred]
def poss(p,k):
    """can the path be taken with arg1 == k"""
    for e in p.conds():
        l,r=e.l,e.r
        if isK(r) and [a for a,_ in l[0]]==["arg1"]:
            if not ev(e.pred,l[0][0][1]*k+l[1],r[1]): return False
        elif isK(l) and [a for a,_ in r[0]]==["arg1"]:
            if not ev(e.pred,l[1],r[0][0][1]*k+r[1]): return False
    return True
def strong(e):
    """a full fence, or an operation that is one"""
    if e.k=="fence": return e.t=="seq_cst"
    if e.k=="call" and e.q=="std::atomic_thread_fence": return isK(e.args[0]) and e.args[0][1]==5
    if e.k=="st" and e.I.op=="atomicrmw": return True
    if e.k=="call" and re.fullmatch(r"std::(atomic|__atomic_base)::(operator=|exchange|operator\+\+|fetch_add|store)",e.q or ""):
        return len(e.args)<3 or not isK(e.args[2]) or e.args[2][1]==5
    return False
def run(c):
    c.rule("F04.announce","an access announces itself in a place of its own, with a full fence before it asks whether a resize is under way, and withdraws the announcement after the access")
    c.rule("F04.fresh","on a new stream no access is announced and no resize is under way")
    c.rule("F04.exclusive","the buffer is replaced only after the flag was raised, a full fence passed, every announcement was read afresh and found withdrawn, and the elements lie contiguously")
    c.rule("F04.swap","the new buffer becomes current after everything was carried over; the old one is released exactly once, after that; a buffer not used is released instead")
    c.rule("F04.end","the flag is lowered on every way out and before every wait; every round asks again whether the stream or the run has ended")
    c.rule("F04.copy","both positions, all elements and all signals are carried over, elements that are not plain bytes one at a time")
    c.rule("F04.pointer","a position made from another keeps its value, with the new capacity")
    c.rule("F04.size","a buffer has as many element slots and signals as its positions count")
    c.rule("F04.guard","only a buffer that the library allocated is resized, to a new buffer of the requested size")
    c.rule("F04.grow","the allocator grows a stream beyond its own capacity, unless its size is fixed, and can be told to stop")
    m=c.load("fifo")
    # ---------------------------------------------------------- announcement
    loc={}; cntv={}
    flag=None
    for f in m.find(rx=r"DataManager::notResizing"):
        c.fn(f)
        for p in Paths(f,fresh=r"arg0\..*").out:
            if p.end!="ret": continue
            t=[(e,re.search(r"(arg0\.[\w.]+)",sv(e.l))) for e in p.conds()]
            t=[(e,g[1]) for e,g in t if g]
            v=p.ev[-1].v
            if t and isK(v):
                e,flag=t[-1]; up=(e.pred=="ne")==(isK(e.r) and e.r[1]==0)
                c.ob("F04.announce",f.where(),(v[1]&1)==(not up),"the answer is %s while the flag is %s"%("go ahead" if v[1]&1 else "wait","up" if up else "down"),key="F04.announce|answer")
            elif not isK(v):
                g=re.search(r"(arg0\.[\w.]+)",sv(v))
                flag=g[1] if g else flag
                c.ob("F04.announce",f.where(),bool(g) and not re.fullmatch(r"(std::atomic::operator bool\(|\*\()[\w.]+\)",sv(v)),"answers %s"%sv(v),key="F04.announce|answer")
    starts=lambda p:any(strong(e) for e in p.ev)
    ask=[Paths(f,fresh=r"arg0\..*").out for f in m.find(rx=r"DataManager::notResizing")]
    asks=bool(ask) and all(starts(p) for o in ask for p in o if p.end=="ret")
    for f in c.need(m.find(rx=r"DataManager::enterBuffer"),"enterBuffer()")[:2]:
        c.fn(f)
        ps=[p for p in Paths(f,fresh=r"arg0\..*").out if p.end=="ret"]
        for k in WR+RD+(7,):
            for p in ps:
                if not poss(p,k): continue
                st=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a.startswith("arg0.") or e.k=="call" and re.fullmatch(r"std::(atomic|__atomic_base)::(operator(=|\+\+|\+=)|store|fetch_add|exchange)",e.q or "") and sv(e.args[0]).startswith("arg0.")]
                ok=len(st)==1
                if ok:
                    i,e=st[0]
                    a=n_((e.a if e.k=="st" else sv(e.args[0])).replace("[arg1]","[%d]"%k))
                    v=e.v if e.k=="st" else (e.args[1] if len(e.args)>1 else K(1))
                    cnt=e.I.op=="atomicrmw" or e.k=="call"
                    ok=(not isK(v) and v[1]>0 if e.I.op=="atomicrmw" else isK(v) and v[1]!=0)
                    if e.I.op=="atomicrmw": cntv[k]=v[1]
                    was=loc.setdefault(k,(a,cnt)); ok=ok and was[0]==a
                    full=asks or any(strong(x) for x in p.ev[i+1:]) or (strong(e) and e.I.op=="atomicrmw")
                    c.ob("F04.announce",f.where(),full,"no full fence between the announcement of access %d and the question whether a resize is under way"%k,key="F04.announce|fence")
                c.ob("F04.announce",f.where(),ok,"access %d is announced by %s"%(k,"; ".join(repr(e) for _,e in st) or "nothing"),key="F04.announce|%d"%k)
    words={re.match(r"arg0\.(\w+)",a)[1] for a,_ in loc.values() if re.match(r"arg0\.(\w+)",a)}|({re.match(r"arg0\.(\w+)",flag)[1]} if flag and re.match(r"arg0\.(\w+)",flag) else set())
    for f in c.need(m.find(q="RingBuffer::RingBuffer"),"constructors of streams",2):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            at={}
            for e in p.ev:
                a,v=(e.a,e.v) if e.k=="st" else (sv(e.args[0]),e.args[1]) if e.k=="call" and len(e.args)>=2 and re.fullmatch(r"std::(atomic|__atomic_base)::(atomic|operator=|store|__atomic_base)",e.q or "") else (None,None)
                g=re.fullmatch(r"arg0\.datamanager\.(\w+)(\[\d+\])*(\.(whole|flag(\[\d+\])*))?",a or "")
                if g and g[1] in words: at[a]=v
            bad=[(a,sv(v)) for a,v in at.items() if isK(v) and v[1]!=0]
            c.ob("F04.fresh",f.where(),not bad,"a new stream starts with %s"%bad,key="F04.fresh")
    for f in c.need(m.find(rx=r"DataManager::exitBuffer"),"exitBuffer()")[:2]:
        c.fn(f)
        ps=[p for p in Paths(f,fresh=r"arg0\..*").out if p.end=="ret"]
        for k in WR+RD+(7,):
            for p in ps:
                if not poss(p,k) or k not in loc: continue
                st=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a.startswith("arg0.") or e.k=="call" and re.fullmatch(r"std::(atomic|__atomic_base)::(operator(=|--|-=)|store|fetch_sub|exchange)",e.q or "") and sv(e.args[0]).startswith("arg0.")]
                ok=len(st)==1
                if ok:
                    i,e=st[0]
                    a=n_((e.a if e.k=="st" else sv(e.args[0])).replace("[arg1]","[%d]"%k)); v=e.v if e.k=="st" else (e.args[1] if len(e.args)>1 else K(1))
                    ok=a==loc[k][0] and (isK(v) and v[1]==0 if not loc[k][1] else (-v[1]==cntv.get(k,1) if e.I.op=="atomicrmw" else "-" in e.q or "sub" in e.q))
                    rel=e.I.op=="atomicrmw" or e.k=="call" or any(x.k=="fence" and x.t in("release","acq_rel","seq_cst") for x in p.ev[:i])
                    c.ob("F04.announce",f.where(),rel,"the access can still be under way when its announcement %d is withdrawn"%k,key="F04.announce|release")
                c.ob("F04.announce",f.where(),ok,"access %d is withdrawn by %s, announced in %s"%(k,"; ".join(repr(e) for _,e in st) or "nothing",loc[k][0]),key="F04.announce|out%d"%k)
    one={}
    for k,(a,cnt) in loc.items(): one.setdefault(a,[]).append((k,cnt))
    for a,ks in one.items(): c.ob("F04.announce",a,len(ks)==1 or all(x for _,x in ks),"accesses %s share one announcement that is not counted"%[k for k,_ in ks],key="F04.announce|shared")
    # ---------------------------------------------------------------- resize
    flag=n_(flag or "arg0.resizing")
    for f in c.need(m.find(rx=r"DataManager::resize"),"DataManager::resize()"):
        c.fn(f)
        P=Paths(f,fresh=r"arg0\.(?!buffer).*|\(?arg2\)?|\(?\*\(arg2.*\)\)?",limit=20000)
        for p in P.out:
            sets=setof(p,flag)
            state=lambda i:([on(e) for j,e in sets if j<i] or [0])[-1]
            cp=[i for i,e in enumerate(p.ev) if e.k=="call" and (e.q.endswith("copyFrom") or (e.q.startswith("*") and len(e.args)==2 and sv(e.args[0])=="arg1" and sv(e.args[1])!="arg1"))]
            waits=[i for i,e in enumerate(p.ev) if e.k=="call" and re.search(r"yield|sleep|pause",e.q or "")]
            for i in waits: c.ob("F04.end",f.where(),state(i)==0,"waits while accesses are refused: nobody can finish",key="F04.end|wait")
            # every round asks afresh
            rounds=[0]+waits
            for a,b in zip(waits,waits[1:]):
                seg=p.ev[a:b]
                if not any(a<j<b and on(x)==1 for j,x in sets): continue
                c.ob("F04.end",f.where(),any(e.k=="ld" and e.a.startswith("(*(") or e.k=="ld" and re.search(r"arg2",e.a) for e in seg) ,"a round of the wait does not look whether the run has ended",key="F04.end|exit")
                c.ob("F04.end",f.where(),any(e.k=="ld" and re.search(r"valid|closed|open",e.a) for e in seg) or any(e.k=="call" and re.search(r"alid",e.q) for e in seg),"a round of the wait does not look whether the stream has ended",key="F04.end|valid")
            dels=[(i,e,"new" if sv(e.args[0])=="arg1" or "(arg1)" in (e.q or "") else "old") for i,e in enumerate(p.ev) if e.k=="call" and (re.search(r"::~Data(Base)?$|^operator delete$",e.q) or (e.q.startswith("*") and len(e.args)==1))]
            cur=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and n_(e.a)=="arg0.buffer"]
            old=r"(DataManager::get\(arg0\)|\*\(arg0\.buffer\))"
            isnull=lambda x:any(e.k=="if" and e.pred=="eq" and re.fullmatch(x,sv(e.l)) and e.r==ZERO for e in p.ev)
            if p.end=="ret":
                c.ob("F04.end",f.where(),state(len(p.ev))==0,"a way out leaves the flag up: every later access waits for ever",key="F04.end|flag")
            if cp:
                i=cp[0]; e=p.ev[i]
                c.ob("F04.swap",f.where(),len(cp)==1 and sv(e.args[0])=="arg1" and re.fullmatch(old,sv(e.args[1])) is not None,"carried over from %s to %s, %d times"%(sv(e.args[1]),sv(e.args[0]),len(cp)),key="F04.swap|from")
                up=[j for j,x in sets if j<i]
                ok=bool(up) and on(p.ev[up[-1]])==1
                c.ob("F04.exclusive",f.where(),ok,"the buffer is replaced with the flag down",key="F04.exclusive|flag")
                if ok:
                    j=up[-1]
                    fe=[x for x in range(j,i) if strong(p.ev[x])]
                    c.ob("F04.exclusive",f.where(),bool(fe),"no full fence between raising the flag and looking for announced accesses",key="F04.exclusive|fence")
                    b=fe[0] if fe else j
                    zero=set()
                    for x in p.ev[b:i]:
                        if x.k=="if" and x.pred=="eq" and x.r==ZERO:
                            for y in p.ev[b:i]:
                                if y.k=="ld" and y.res is not None and sv(y.res) in sv(x.l): zero.add((n_(y.a),y.I.get("ty")))
                            g=re.search(r"std::(?:atomic|__atomic_base)::(?:load|operator \w[\w ]*)\((arg0[\w.\[\]]+)",sv(x.l))
                            if g: zero.add((n_(g[1]),None))
                    for k,(a,_) in sorted(loc.items()):
                        ok=any(z==a or z==word(a) and ty in("i64",None) for z,ty in zero)
                        c.ob("F04.exclusive",f.where(),ok,"access %d announced in %s is not looked for after the flag was raised"%(k,a),key="F04.exclusive|%d"%k)
                    r=w=None; con=False
                    for x in p.ev[b:i]:
                        if x.k!="if": continue
                        l,rr=sv(x.l),sv(x.r); pr=x.pred
                        if "write_pt" in l and "read_pt" in rr: l,rr,pr=rr,l,SWP[pr]
                        if "read_pt" in l and "write_pt" in rr and re.search(old,l) and re.search(old,rr) and pr=="ult" and "wrapInd" not in l: con=True
                    c.ob("F04.exclusive",f.where(),con,"the elements may wrap round the end of the old buffer",key="F04.exclusive|contiguous")
                if p.end=="ret":
                    c.ob("F04.swap",f.where(),len(cur)==1 and cur[0][0]>i and sv(cur[0][1].v)=="arg1","the buffer in use afterwards is %s"%("; ".join(repr(e) for _,e in cur) or "still the old one"),key="F04.swap|current")
                    od=[j for j,_,w in dels if w=="old" and not sv(p.ev[j].args[0]).startswith("alloca")]
                    nw=[j for j,_,w in dels if w=="new"]
                    od2=[j for j in od]
                    c.ob("F04.swap",f.where(),not nw,"the new buffer is released although it is in use",key="F04.swap|new")
                    real=[j for j in od2 if p.ev[j].q!="operator delete" or not any(p.ev[x].q!="operator delete" for x in od2)]
                    c.ob("F04.swap",f.where(),isnull(old) or len(real)==1 and real[0]>i,"the old buffer is released %d times%s"%(len(real),"" if not real or real[0]>i else ", before everything is carried over"),key="F04.swap|old")
                    low=[j for j,x in sets if on(x)==0 and j>i]
                    c.ob("F04.exclusive",f.where(),bool(low) and (not cur or low[0]>cur[-1][0]),"accesses are allowed again before the new buffer is in use",key="F04.exclusive|early")
            elif p.end=="ret":
                c.ob("F04.swap",f.where(),not cur,"the buffer changes although nothing was carried over",key="F04.swap|empty")
                od=[j for j,e,w in dels if w=="old"]; nw=[j for j,_,w in dels if w=="new" and p.ev[j].q!="operator delete"] or [j for j,_,w in dels if w=="new"]
                c.ob("F04.swap",f.where(),not od,"the buffer in use is released without a replacement",key="F04.swap|gone")
                c.ob("F04.swap",f.where(),isnull("arg1") or len(nw)==1,"the buffer that is not used is released %d times"%len(nw),key="F04.swap|leak")
                why=[e for e in p.conds() if re.search(r"arg2|valid|closed|open",sv(e.l))]
                c.ob("F04.end",f.where(),bool(why),"a resize is given up without the stream or the run having ended",key="F04.end|why")
    # -------------------------------------------------------------- transfer
    for f in c.need(m.find(rx=r"Buffer::Data::copyFrom"),"copyFrom()"):
        if "SharedMemory" in f.dem or "Type::RingBufferType)2" in f.dem: continue
        c.fn(f)
        g=re.search(r"copyFrom\(Buffer::DataBase<(.*)>\*\)",f.dem); T=g[1] if g else ""
        plain=T.endswith("*") or "::" not in T or T.startswith("std::") or not any((x.get("q") or "").startswith(T+"::~") for x in m.names.values())
        for p in paths(f):
            if p.end not in("ret","cut"): continue
            for n in("read_pt","write_pt"):
                k=[e for e in p.ev if e.k=="call" and e.q in("Pointer::Pointer","Pointer::operator=") and sv(e.args[0])=="arg0."+n]
                ok=len(k)>=1 and len(k[-1].args)>1 and "arg1."+n in sv(k[-1].args[1]) and (len(k[-1].args)<3 or "arg1" not in sv(k[-1].args[2]) and "max_cap" in sv(k[-1].args[2]))
                if ok and len(k[-1].args)<3: ok=False
                if p.end=="ret" or k: c.ob("F04.copy",f.where(),ok,"%s is set by %s"%(n,"; ".join(map(repr,k)) or "nothing"),key="F04.copy|"+n)
            base=lambda a,n,o:re.match(r"\(?\*\(%s\.%s\)"%(o,n),a) is not None
            for n,ln in(("store","length_store"),("signal","length_signal")):
                mc=[e for e in p.ev if e.k=="call" and e.q in("memcpy","memmove","std::copy","std::copy_n","std::memcpy") and any(base(sv(a),n,"arg0") for a in e.args)]
                whole=[e for e in mc if e.q in("memcpy","memmove") and not re.search(r"\]$",sv(e.args[0]))]
                each=[]
                for e in p.ev:
                    if e.k=="call" and e not in whole and len(e.args)>=2 and re.match(r"\*\(arg0\.%s\).*\["%n,sv(e.args[0])) and e.q not in("memset",): each.append((sv(e.args[0]),sv(e.args[1])))
                    if e.k=="st" and re.match(r"\*\(arg0\.%s\).*\["%n,e.a): each.append((e.a,sv(e.v)))
                if whole:
                    e=whole[-1]
                    ok=base(sv(e.args[0]),n,"arg0") and base(sv(e.args[1]),n,"arg1")
                    L=sv(e.args[2]); ok=ok and ("arg1."+ln in L or re.match(r"\d+\*.*(arg1\.max_cap|write_pt)" if n=="signal" or not T in("bool","char") else r".*(arg1\.max_cap|write_pt)",L) is not None) and not re.search(r"-\d+$|^\d+$|/|udiv",L)
                    c.ob("F04.copy",f.where(),ok,"the %ss are carried over by %r"%(n,e),key="F04.copy|"+n)
                    if n=="store": c.ob("F04.copy",f.where(),plain,"elements of %s are copied byte by byte"%T,key="F04.copy|bytes")
                elif each:
                    ix=lambda t:(re.search(r"\[([^\[\]]*)\]",t) or [0,"?"])[1]
                    for d,s in each:
                        c.ob("F04.copy",f.where(),"arg1."+n in s and ix(d)==ix(s),"%s is made from %s"%(d,s),key="F04.copy|"+n+"each")
                    first=ix(each[0][0])
                    c.ob("F04.copy",f.where(),first=="0" or "read_pt" in first and not re.search(r"[+-]\d+$",first),"the first element carried over is %s"%first,key="F04.copy|first")
                    if p.end=="ret":
                        last=ix(each[-1][0])
                        ok=any(x.k=="if" and re.search(r"write_pt|max_cap|length",sv(x.r)+sv(x.l)) and x.pred in("uge","ule","eq") for x in p.ev)
                        if "write_pt" in " ".join(sv(x.l)+sv(x.r) for x in p.conds()):
                            ok=any(x.k=="if" and re.search(r"\.write_pt\)('\d+)?$",sv(x.r)) and x.pred in("uge","eq") or x.k=="if" and re.search(r"\.write_pt\)('\d+)?$",sv(x.l)) and x.pred in("ule","eq") for x in p.ev)
                        c.ob("F04.copy",f.where(),ok,"the elements carried over end at %s"%last,key="F04.copy|last")
                elif p.end=="ret":
                    none=any(x.k=="if" and "read_pt" in sv(x.l)+sv(x.r) and "write_pt" in sv(x.l)+sv(x.r) and x.pred in("uge","ule","eq") for x in p.ev) or n=="store" and any(x.k=="call" and re.search("copy|move|transfer",x.q) and "arg1" in " ".join(map(sv,x.args)) for x in p.ev)
                    c.ob("F04.copy",f.where(),none,"the %ss are not carried over"%n,key="F04.copy|"+n)
    for prof in("leaf",):
        ml=c.load(prof)
        for f in c.need([x for x in ml.find(rx=r"Pointer::Pointer") if re.search(r"Pointer ?(const)?&, unsigned long",x.dem)],"Pointer( other, capacity )"):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                for n in("a",):
                    v=p.last("arg0."+n); t=sv(v) if v is not None else "nothing"
                    ok=t in("*(arg1.a)","Pointer::val(arg1)") or re.fullmatch(r"urem\((\*\(arg1\.a\)|Pointer::val\(arg1\));arg2\)",t) is not None
                    c.ob("F04.pointer",f.where(),ok,"the position becomes %s"%t,key="F04.pointer|value")
                v=p.last("arg0.max_cap"); dl=[e for e in p.calls(r"Pointer::Pointer") if sv(e.args[0])=="arg0"]
                ok=v is not None and sv(v)=="arg2" or any(len(e.args)>1 and sv(e.args[1])=="arg2" for e in dl)
                c.ob("F04.pointer",f.where(),ok,"the capacity becomes %s"%(sv(v) if v is not None else "; ".join(map(repr,dl))),key="F04.pointer|cap")
                v=p.last("arg0.wrap_a")
                ok=v is not None and (isK(v) or sv(v) in("*(arg1.wrap_a)","Pointer::wrapIndicator(arg1)")) or v is None and any(len(e.args)==2 for e in dl)
                c.ob("F04.pointer",f.where(),ok,"the count of rounds becomes %s"%(sv(v) if v is not None else "unset"),key="F04.pointer|wrap")
    # ------------------------------------------------------------------ size
    for f in c.need(m.find(rx=r"RingBuffer\w*::resize"),"RingBuffer::resize()"):
        if re.search(r"Infinite|SharedMemory|RingBufferType\)[12]",f.dem): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            rs=p.calls(r"DataManager::resize")
            g=[e for e in p.conds() if re.search(r"resizeable|is_resizeable|external_alloc",sv(e.l))]
            if not rs:
                c.ob("F04.guard",f.where(),bool(p.conds()) ,"resize() does nothing",key="F04.guard|none"); continue
            ok=bool(g) and all((e.pred=="ne")!=("external" in sv(e.l)) for e in g if e.r==ZERO)
            c.ob("F04.guard",f.where(),ok,"a buffer supplied by the user is replaced",key="F04.guard|user")
            e=rs[-1]; N=sv(e.args[1])
            c.ob("F04.guard",f.where(),len(rs)==1 and sv(e.args[0])=="arg0.datamanager" and sv(e.args[2])=="arg3","passes on %r"%e,key="F04.guard|args")
            if N.startswith("operator new"):
                cap=p.last(N+".max_cap"); ls=p.last(N+".length_store"); sg=p.last(N+".length_signal")
                c.ob("F04.size",f.where(),cap is not None and sv(cap)=="arg1","the capacity of the new buffer is %s"%(sv(cap) if cap else "?"),key="F04.size|cap")
                for n in("read_pt","write_pt"):
                    k=[x for x in p.calls("Pointer::Pointer") if sv(x.args[0])==N+"."+n and len(x.args)>1]
                    if k: c.ob("F04.size",f.where(),sv(k[-1].args[1])in("arg1","*(%s.max_cap)"%N),"%s counts %s slots"%(n,sv(k[-1].args[1])),key="F04.size|"+n)
                al=p.calls(r"posix_memalign|aligned_alloc|malloc")
                size=lambda t:t.replace("*(%s.length_store)"%N,sv(ls) if ls is not None else "?").replace("*(%s.max_cap)"%N,"arg1").replace("*(%s.length_signal)"%N,sv(sg) if sg is not None else "?")
                if al and ls is not None:
                    t=size(sv(al[0].args[-1]))
                    c.ob("F04.size",f.where(),re.fullmatch(r"(\d+\*)?arg1(\+\d+)?",t) is not None and t==sv(ls),"%s bytes are allocated, %s are carried over"%(t,sv(ls)),key="F04.size|store")
                ca=p.calls("calloc")
                if ca and sg is not None:
                    a,b=size(sv(ca[0].args[0])),size(sv(ca[0].args[1]))
                    tot="%s*%s"%(b,a) if re.fullmatch(r"\d+",b) else "%s*%s"%(a,b) if re.fullmatch(r"\d+",a) else None
                    if a=="1": tot=b
                    if b=="1": tot=a
                    if tot: c.ob("F04.size",f.where(),tot==sv(sg),"%s bytes of signals are allocated, %s are carried over"%(tot,sv(sg)),key="F04.size|signal")
    n=0
    for f in m.find(rx=r"RingBuffer\w*::RingBuffer\w*|DataManager::(set|resize)|RingBuffer\w*::make_new_fifo"):
        if re.search(r"Infinite|SharedMemory|RingBufferType\)[12]",f.dem): continue
        for p in paths(f):
            if p.end!="ret": continue
            for i,e in enumerate(p.ev):
                if e.k!="st" or not re.search(r"\bresizeable$",e.a): continue
                n+=1; c.fn(f)
                ext=None
                if f.q in("DataManager::resize","DataManager::set"):
                    x=[y for y in p.conds() if "arg1.external_alloc" in sv(y.l) and y.r==ZERO]
                    if x: ext=int(x[-1].pred=="ne")
                else:
                    x=[y for y in p.ev[:i] if y.k=="st" and y.a.endswith("external_alloc") and isK(y.v)]
                    if x: ext=x[-1].v[1]&1
                    x=[y for y in p.ev[:i] if y.k=="if" and "external_alloc" in sv(y.l) and y.r==ZERO]
                    if x: ext=int(x[-1].pred=="ne")
                if ext is None and not f.q.startswith("DataManager::"): continue
                if isK(e.v): c.ob("F04.guard",f.where(),ext is not None and (e.v[1]&1)!=ext,"a buffer %s is taken for resizeable: %d"%({0:"of the library",1:"of the user",None:"of any kind"}[ext],e.v[1]&1),key="F04.guard|flag")
                else: c.ob("F04.guard",f.where(),"external_alloc" in sv(e.v) and not re.fullmatch(r"\*\([^()]*external_alloc\)",sv(e.v)),"resizeable becomes %s"%sv(e.v),key="F04.guard|flag")
    # ------------------------------------------------------------------ grow
    ms=c.load("sys")
    strip=lambda t:re.sub(r"'\d+","",t)
    for f in ms.find(rx=r"dynalloc::.*"):
        for p in paths(f):
            for i,e in enumerate(p.ev):
                if e.k!="call" or not re.search(r"::resize\b",e.q or "") or len(e.args)<3 or not re.search("getFIFO|FIFO|virtual",e.q+sv(e.args[0])): continue
                c.fn(f)
                fx=[x for x in p.ev[:i] if x.k=="if" and "fixed_buffer_size" in sv(x.l) and x.pred=="eq" and x.r==ZERO]
                c.ob("F04.grow",f.where(),bool(fx),"a stream of fixed size is resized",key="F04.grow|fixed")
                t=e.args[1]; s=strip(sv(t)); o=strip(sv(e.args[0]))
                ok=len(t[0])==1 and (t[0][0][1]>=2 and t[1]>=0 or t[0][0][1]==1 and (t[1]>0 or s.startswith(("shl(","mul(","umax(","or("))))
                c.ob("F04.grow",f.where(),ok,"the new capacity is %s"%s,key="F04.grow|size")
                c.ob("F04.grow",f.where(),o in s,"%s is resized by the capacity of another stream, %s"%(o,s),key="F04.grow|own")
                ex=sv(e.args[-1])
                c.ob("F04.grow",f.where(),not ex.startswith("alloca"),"the flag that ends the wait is the allocator's own: %s"%ex,key="F04.grow|exit")

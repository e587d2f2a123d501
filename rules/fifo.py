"""Typestate analysis of the stream operations.

One walk per stream operation and specialisation; every finding is tagged
with the property it belongs to, the property modules pick theirs."""
from fifomodel import *
from collections import namedtuple

# operation -> (announcement key on entry, key left open on return, role)
OPS={
 "local_push":      dict(open=None,role="w1"),
 "local_allocate":  dict(open=0,role="w0"),
 "local_allocate_n":dict(open=1,role="w0"),
 "send":            dict(init=0,role="send"),
 "send_range":      dict(init=1,role="sendn"),
 "deallocate":      dict(init=0,role="w0"),
 "local_pop":       dict(open=None,role="r1"),
 "local_peek":      dict(open=6,role="r0"),
 "local_peek_range":dict(open=6,role="r0"),
 "unpeek":          dict(init=6,role="r0"),
 "local_recycle":   dict(open=None,role="rn"),
}
WRITERS={"local_push","local_allocate","local_allocate_n"}
READERS={"local_pop","local_peek","local_peek_range","local_recycle"}

def exc_types(mod):
    """type info symbols of the library errors, from the probes"""
    r={}
    for f in mod.find(rx=r"probe::x_\w+"):
        for I in f.insts():
            t=throw_type(I)
            if t: r[f.q.split("x_")[1]]=t
    return r

KN={0:"allocate",1:"allocate_range",3:"push",4:"recycle",5:"pop",6:"peek",7:"size"}

St=namedtuple("St","key ver calls facts done chk blk nul acs rnd")
# key: announced access or None; ver: seen that no resize runs; calls: calls of the current
# access in order; facts: what branches established; done: effects since the access began;
# chk: allocate_called known; blk: a side was marked blocked in this round; nul: argument known null/non-null
# acs: number of position moves so far (saturating); rnd: data/closed checks of this round

class Op:
    def __init__(s,f,kind,name,exc):
        s.f=f; s.kind=kind; s.name=name; s.exc=exc; s.spec=OPS[name]
        s.out=[]        # (prop, rule, ok, msg, key suffix, path)
        s.T=terms(f); s.ev=events(f); s.W=None
        s.counts={}
        s.seen=set()
    def bad(s,prop,rule,msg,I,sub=""):
        k=(prop,rule,sub,I.id if I is not None else 0)
        if k in s.seen: return
        s.seen.add(k)
        s.out.append((prop,rule,msg,I,sub,s.W.path()+([I.line] if I is not None and I.line else [])))
    def cnt(s,prop,rule,I): s.counts.setdefault((prop,rule),set()).add(I.id if I is not None else 0)

    # ------------------------------------------------------------ facts
    def bound(s,st,atoms):
        facts=set(st.facts); chk=st.chk; nul=st.nul; ver=st.ver; nullobj=False
        for a in atoms:
            if a[0]=="case": continue
            v,I,val=a
            if I is None: continue
            src=I
            while src is not None and src.op in("zext","freeze","trunc"): src=s.f.inst.get(src.a[0].get("v"))
            if src is None: continue
            if src.op in("call","invoke"):
                n=cname(src)
                if n=="notResizing" and src.id in st.calls and val: ver=True
                elif n=="is_invalid":
                    facts.add(("inv" if val else "valid",src.id))
                elif n in("size","space_avail") and src.id in st.calls and val==0:
                    facts.add((n+"0",src.id))
            elif src.op=="load":
                t=s.T.o(src.a[0])
                if t.endswith("producer_data.allocate_called"): chk=bool(val)
                elif t.endswith(".blocked"): facts.add(("blk",bool(val)))
            elif src.op=="icmp":
                p=src["pred"] if val else NEG[src["pred"]]
                l,r=src.a
                for x,y,pp in((l,r,p),(r,l,SWP[p])):
                    if "null" in y or ("c" in y and y["c"]==0):
                        t=s.T.o(x)
                        if t.startswith("*(") and ".store)[" in t and pp=="eq":   # no object: nothing to free
                            nullobj=True
                        if t.startswith("arg") and pp in("eq","ne"): nul=tuple(sorted(set(nul)|{(t,pp=="eq")}))
                        if t.endswith(".blocked)") and pp in("eq","ne"): facts.add(("blk",pp=="ne"))
                        if t.endswith("producer_data.allocate_called)") and pp in("eq","ne"): chk=(pp=="ne")
                        if t.endswith("producer_data.n_allocated)") and pp in("eq","ne","ugt"): facts.add(("none",pp=="eq"))
                    if y.get("c")==1 and pp=="ult" and s.T.o(x).endswith("producer_data.n_allocated)"): facts.add(("none",True))
                A,ca=linear(s.f,l); B,cb=linear(s.f,r)
                D=dict(A)
                for k,c in B.items():
                    D[k]=D.get(k,0)-c
                    if D[k]==0: del D[k]
                c=ca-cb               # l - r = D + c   (p) 0
                for k,co in list(D.items()):
                    if not(isinstance(k,tuple) and k[0]=="v"): continue
                    J=s.f.inst.get(k[1])
                    if J is None or J.op not in("call","invoke") or cname(J) not in("size","space_avail") or J.id not in st.calls: continue
                    if co not in(1,-1): continue
                    pp=p if co==1 else SWP[p]
                    rest={t:-x*co for t,x in D.items() if t!=k}; rc=-c*co
                    n=cname(J)
                    L=(tuple(sorted((str(t),x) for t,x in rest.items())),rc)
                    if pp in("uge","sge","eq"): facts.add((n+">=",J.id,L))
                    if pp in("ugt","sgt"): facts.add((n+">=",J.id,(L[0],rc+1)))
                    if pp=="ne" and not rest and rc==0: facts.add((n+">=",J.id,((),1)))
                    if pp in("ult","slt"):
                        facts.add((n+"<",J.id,L))
                        if not rest and rc==1: facts.add((n+"0",J.id))
                    if pp in("ule","sle"):
                        facts.add((n+"<",J.id,(L[0],rc+1)))
                        if not rest and rc==0: facts.add((n+"0",J.id))
                    if pp=="eq" and not rest and rc==0: facts.add((n+"0",J.id))
        return st._replace(facts=frozenset(facts),chk=chk,nul=nul,ver=ver,done=st.done|{"free"} if nullobj else st.done)
    def has(s,st,what,need):
        """is 'what >= need' established in the current access; need = (atoms,const)"""
        for fct in st.facts:
            if fct[0]==what+">=":
                L=fct[2]
                if L[0]==need[0] and L[1]>=need[1]: return True
                if not need[0] and need[1]<=0: return True
        return False
    def hasany(s,st,what): return any(f[0]==what+">=" for f in st.facts)
    def closed0(s,st):
        """closure seen first, emptiness afterwards"""
        o=list(st.calls)
        for a in st.facts:
            if a[0]!="inv": continue
            for b in st.facts:
                if b[0]=="size0" and a[1] in o and b[1] in o and o.index(a[1])<o.index(b[1]): return True
        return False
    def closedlt(s,st):
        o=list(st.calls)
        for a in st.facts:
            if a[0]!="inv": continue
            for b in st.facts:
                if b[0]=="size<" and a[1] in o and b[1] in o and o.index(a[1])<o.index(b[1]): return True
        return False
    def open_or_data(s,st):
        """this round found the stream open, or data in it after seeing it closed"""
        o=list(st.calls)
        for a in st.facts:
            if a[0]=="valid": return True
        for a in st.facts:
            if a[0]=="inv":
                for b in st.facts:
                    if b[0]=="size>=" and a[1] in o and b[1] in o and o.index(a[1])<o.index(b[1]): return True
                    # size compared with zero on the not-equal side
        return False

    # ------------------------------------------------------------ events
    def step(s,st,I,W):
        for e in s.ev.get(I.id,()):
            st=s.one(st,e,I)
            if st is None: return None
        return st
    def access(s,st,I,what):
        """the buffer is touched"""
        s.cnt("F03","F03.touch",I)
        if st.key is None: s.bad("F03","F03.touch","%s while no access is announced"%what,I,what.split(" ")[0])
        elif not st.ver and s.spec.get("init") is None: s.bad("F03","F03.touch","%s before it was seen that no resize is in progress"%what,I,what.split(" ")[0]+"-unverified")
    def guarded(s,st,I,sd,what):
        """the slot of the given side is usable"""
        s.cnt("F02","F02.guard",I)
        if s.spec.get("init") is not None: return
        w="space_avail" if sd=="write" else "size"
        if sd is None: return
        if not s.hasany(st,w):
            s.bad("F02","F02.guard","%s without having found %s in this access"%(what,"free space" if sd=="write" else "an element"),I,what.split(" ")[0])
    def one(s,st,e,I):
        k=e.kind
        if k=="enter":
            s.cnt("F03","F03.pair",I)
            if st.key is not None: s.bad("F03","F03.pair","access %s announced while %s still is"%(KN.get(e.key,e.key),KN.get(st.key,st.key)),I,"reenter")
            if isinstance(e.key,int) and not 0<=e.key<8: s.bad("F03","F03.pair","announces access %d, for which there is no announcement"%e.key,I,"place")
            inv=tuple(c for c in st.calls if callee(s.f.inst[c]).endswith("is_invalid"))
            fs=frozenset(f for f in st.facts if f[0]=="inv")
            return st._replace(key=e.key,ver=False,calls=inv,facts=fs,done=frozenset(),blk=False,rnd=True)
        if k=="exit":
            s.cnt("F03","F03.pair",I)
            if st.key is None: s.bad("F03","F03.pair","withdraws an access that is not announced",I,"unannounced")
            elif e.key!=st.key: s.bad("F03","F03.pair","withdraws access %s but %s is announced"%(KN.get(e.key,e.key),KN.get(st.key,st.key)),I,"key")
            if s.spec.get("init") is not None and "dest" in s.spec: pass
            return st._replace(key=None)
        if k in("notres","size","space_avail","is_invalid"):
            if k in("size","space_avail") and False: pass
            c=tuple(x for x in st.calls if x!=I.id)+(I.id,)
            fs=frozenset(f for f in st.facts if not(len(f)>1 and f[1]==I.id))
            return st._replace(calls=c,facts=fs)
        if k=="get": return st
        if k.startswith("ptr_"):
            m=k[4:]
            if m in("inc","incBy"):
                sd=e.side
                s.access(st,I,"position moved")
                role=s.spec["role"]
                s.cnt("F01","F01.move",I)
                if role in("w0","r0"): s.bad("F01","F01.move","a reservation or view moves the %s position"%sd,I,"reserve-moves")
                elif role in("w1","send","sendn") and sd!="write" or role in("r1","rn") and sd!="read":
                    s.bad("F01","F01.move","moves the %s position"%sd,I,"side")
                if role in("w1","r1","send") and m=="incBy":
                    a=e.amount
                    if not("c" in a and a["c"]==1): s.bad("F01","F01.move","moves by an amount other than one",I,"amount")
                if role in("w1","r1","send","sendn") and "inc" in st.done: s.bad("F01","F01.move","moves the position twice",I,"twice")
                if role=="rn" and m=="inc" and "inc" in st.done: s.bad("F01","F01.move","moves the position twice in one access",I,"twice")
                # space / elements
                s.cnt("F02","F02.move",I)
                if s.spec.get("init") is None:
                    w="space_avail" if sd=="write" else "size"
                    if m=="inc": need=((),1)
                    else:
                        A,c=linear(s.f,e.amount); need=(tuple(sorted((str(t),x) for t,x in A.items())),c)
                    ok=s.has(st,w,need)
                    if not ok and m=="incBy":
                        ok=s.bounded(st,e.amount,w)
                    if not ok: s.bad("F02","F02.move","moves the %s position by %s without having found that many %s in this access"%(sd,"1" if m=="inc" else "n","free slots" if sd=="write" else "elements"),I)
                # completeness before publishing
                if sd=="write" and role in("w1","send","sendn"):
                    s.cnt("F01","F01.complete",I)
                    if "st_signal" not in st.done and not(role=="sendn" and ("none",True) in st.facts): s.bad("F01","F01.complete","the slot is published before its signal is stored",I,"signal")
                    if role=="w1":
                        isnull=("arg1",True) in st.nul
                        if not isnull and "st_store" not in st.done: s.bad("F01","F01.complete","the slot is published before its value is stored",I,"value")
                if sd=="read" and role=="r1":
                    s.cnt("F01","F01.complete",I)
                    isnull=("arg1",True) in st.nul
                    if not isnull and "rd_store" not in st.done: s.bad("F01","F01.complete","the slot is given back before its value is taken",I,"value")
                    if ("arg2",True) not in st.nul and "rd_signal" not in st.done: s.bad("F01","F01.complete","the slot is given back before its signal is taken",I,"signal")
                if s.kind=="small" and sd=="read" and role in("r1","rn"):
                    s.cnt("F06","F06.destroy",I)
                    if "dtor" not in st.done: s.bad("F06","F06.destroy","an element stored in place leaves the stream without being destroyed",I,"leak")
                if s.kind=="big" and sd=="read" and role=="rn":
                    s.cnt("F06","F06.defer",I)
                    if "defer" not in st.done: s.bad("F06","F06.defer","a skipped out-of-line element is not recorded for collection",I,"leak")
                return st._replace(done=st.done|{"inc"},acs=min(st.acs+1,2))
            if m=="val": s.access(st,I,"position read"); return st
            return st
        if k in("st_store","st_signal"):
            what=k[3:]; sl=e.slot
            s.access(st,I,"%s slot written"%what)
            s.guarded(st,I,sl["side"],"%s slot written"%what)
            s.slotpos(st,sl,I,what,"write")
            if "inc" in st.done: s.bad("F01","F01.after","%s slot written after the position moved past it"%what,I,"after-"+what)
            s.cnt("F01","F01.after",I)
            if what=="signal": s.sigval(st,e,I)
            else: s.stval(st,e,I)
            return st._replace(done=st.done|{k})
        if k in("ld_store","ld_signal"):
            what=k[3:]; sl=e.slot
            s.access(st,I,"%s slot read"%what)
            if s.name in READERS:
                s.guarded(st,I,"read","%s slot read"%what)
                s.slotpos(st,sl,I,what,"read")
                s.cnt("F01","F01.after",I)
                if "inc" in st.done: s.bad("F01","F01.after","%s slot read after it was given back"%what,I,"after-"+what)
            d={"rd_"+what} if what=="signal" or s.kind=="num" else set()
            return st._replace(done=st.done|d)
        if k in("ctor","assign","dtor"):
            return s.obj(st,e,I)
        if k=="st": return s.plain(st,e,I)
        if k=="yield":
            s.cnt("F03","F03.yield",I)
            if st.key is not None: s.bad("F03","F03.yield","yields while access %s is announced"%KN.get(st.key,st.key),I,"yield")
            if s.name in READERS and st.ver:
                s.cnt("F05","F05.wait",I)
                if not s.open_or_data(st): s.bad("F05","F05.wait","waits for another round without having checked whether the stream was closed",I,"wait")
            if s.name in WRITERS:
                s.cnt("F10","F10.blocked",I)
                if not st.blk and ("blk",True) not in st.facts: s.bad("F10","F10.blocked","a writer waits without its side being marked blocked",I,"unmarked")
            return st._replace(ver=False,blk=False,facts=frozenset(f for f in st.facts if f[0]!="blk"))
        if k=="throw":
            s.cnt("F05","F05.throw",I)
            if e.type==s.exc["closed"]:
                if not s.closed0(st): s.bad("F05","F05.throw","reports closure without having seen the stream closed and afterwards empty",I,"closed")
            elif e.type==s.exc["nomore"]:
                if s.name!="local_peek_range": s.bad("F05","F05.throw","reports 'no more data' from a single element operation",I,"nomore-op")
                if not s.closedlt(st): s.bad("F05","F05.throw","reports 'no more data' without having seen the stream closed and afterwards too short",I,"nomore")
            elif e.type: s.bad("F05","F05.throw","throws %s, which is not a closure report"%e.type,I,"type")
            return st
        if k=="delete":
            return s.delete(st,e,I)
        if k=="call": return s.call(st,e,I)
        return st
    def bounded(s,st,o,what):
        """amount is at most a size/space call of the current access: min of it and something"""
        I=s.f.inst.get(o.get("v"))
        if I is None: return False
        if I.op in PASS: return s.bounded(st,I.a[0],what)
        if I.op in("call","invoke"): return cname(I)==what and I.id in st.calls
        if I.op=="load":
            return False
        return False
    def slotpos(s,st,sl,I,what,sd):
        """single element operations use exactly the slot of the current position"""
        if s.name in("local_allocate_n","local_peek_range","send_range"): return
        s.cnt("F07","F07.slot",I)
        want="Pointer::val(%s.%s_pt)"%(sl["buf"],sd)
        if sl["idx"]!=want: s.bad("F07" if what=="signal" else "F01","F07.slot" if what=="signal" else "F01.slot","%s slot used is not the one at the %s position (index %s)"%(what,sd,sl["idx"]),I,what)
    def sigval(s,st,e,I):
        s.cnt("F07","F07.value",I)
        want={"local_push":("*(arg2)",),"send":("arg1",),"send_range":("arg1","0"),"local_allocate_n":("0",)}.get(s.name)
        if want and e.val not in want: s.bad("F07","F07.value","the signal stored with the element is not the one given (%s)"%e.val,I,"value")
    def stval(s,st,e,I):
        if s.name!="local_push": return
        s.cnt("F06","F06.copy",I)
        if s.kind=="num":
            if e.val!="*(arg1)": s.bad("F01","F01.value","the value stored is not the element given (%s)"%e.val,I,"value")
        elif s.kind=="big":
            if "st_store" in st.done: s.bad("F06","F06.copy","the slot is filled twice",I,"twice")
            if e.val=="arg1":
                if ("in_out_peek" not in [f[0] for f in st.facts]) and "forward" not in st.done:
                    s.bad("F06","F06.copy","the caller's own object is put on the stream without being a forwarded one",I,"alias")
            elif not(e.val.startswith("operator new(") and ("ctor",e.val) in st.done):
                s.bad("F06","F06.copy","the slot of an out-of-line element does not get a fresh copy of it (%s)"%e.val,I,"fresh")
        else: s.bad("F06","F06.copy","an in-place class element is stored without its copy constructor",I,"raw")
    def obj(s,st,e,I):
        if not e.cls.startswith("probe::"): return st
        sl=slot(s.f,e.dsto) if e.dsto is not None else None
        ss=slot(s.f,e.srco) if e.srco is not None else None
        done=set(st.done)
        kind=e.kind
        if kind=="ctor" and sl and sl["what"]=="store":
            s.access(st,I,"store slot written"); s.guarded(st,I,sl["side"],"store slot written"); s.slotpos(st,sl,I,"store","write")
            s.cnt("F06","F06.copy",I)
            if "st_store" in st.done: s.bad("F06","F06.copy","the element is constructed twice in its slot",I,"twice")
            if s.name=="local_push" and e.src!="arg1": s.bad("F01","F01.value","the slot is not constructed from the element given (%s)"%e.src,I,"value")
            if "inc" in st.done: s.bad("F01","F01.after","store slot written after the position moved past it",I,"after-store")
            done.add("st_store")
        elif kind=="ctor":
            done.add(("ctor",e.dst)) if e.src=="arg1" else None
            if ss and ss["what"]=="store": done|=s.took(st,e,I,ss)
        elif kind=="assign":
            if sl and sl["what"]=="store":
                s.cnt("F06","F06.copy",I)
                s.bad("F06","F06.copy","a slot that holds no object is assigned to",I,"assign")
                done.add("st_store")
            if ss and ss["what"]=="store": done|=s.took(st,e,I,ss)
            elif s.kind=="big" and e.src and ".store)[" in e.src: done|=s.took(st,e,I,None)
        elif kind=="dtor":
            inplace=sl and sl["what"]=="store"
            ext=(not inplace) and ".store)[" in e.dst and e.dst.startswith("*(")
            if inplace or ext:
                s.cnt("F06","F06.destroy",I)
                side_=sl["side"] if inplace else ("read" if ".read_pt" in e.dst else "write")
                if s.name=="deallocate" and side_!="write": s.bad("F06","F06.destroy","cancelling a reservation destroys an element at the read position, not the reserved one",I,"wrong-slot")
                if s.name in("local_push","send","send_range","local_allocate","local_allocate_n","local_peek","local_peek_range","unpeek"):
                    s.bad("F06","F06.destroy","destroys an element that stays on the stream",I,"live")
                if s.name in READERS and side_!="read": s.bad("F06","F06.destroy","a reader destroys an element at the write position",I,"side")
                if "dtor" in st.done: s.bad("F06","F06.destroy","destroys the element twice",I,"twice")
                if inplace and "inc" in st.done: s.bad("F06","F06.destroy","destroys the element after its slot was given back",I,"late")
                if s.name=="local_pop" and "rd_store" not in st.done and ("arg1",True) not in st.nul: s.bad("F06","F06.destroy","destroys the element before it is copied out",I,"early")
                if inplace: s.access(st,I,"element destroyed")
                done.add("dtor")
                if ext: done.add(("dtor",e.dst))
        return st._replace(done=frozenset(done))
    def took(s,st,e,I,ss):
        if ss: 
            s.access(st,I,"store slot read"); s.guarded(st,I,"read","store slot read"); s.slotpos(st,ss,I,"store","read")
            if "inc" in st.done: s.bad("F01","F01.after","store slot read after it was given back",I,"after-store")
        s.cnt("F06","F06.use",I)
        if "dtor" in st.done: s.bad("F06","F06.use","an element is used after it was destroyed",I,"use-after-destroy")
        if s.name=="local_pop" and e.dst!="arg1": return set()
        return {"rd_store"}
    def delete(s,st,e,I):
        a=e.arg
        if ".store)[" in a and a.startswith("*("):
            s.cnt("F06","F06.free",I)
            done=set(st.done)
            if "free" in done: s.bad("F06","F06.free","frees the element twice",I,"twice")
            if s.kind!="big": s.bad("F06","F06.free","frees an element that is stored in place",I,"inplace")
            if s.name in("local_push","send","local_peek","local_recycle"): s.bad("F06","F06.free","frees an element that stays in use",I,"live")
            done.add("free")
            return st._replace(done=frozenset(done))
        return st
    def call(s,st,e,I):
        n=e.n; a=[s.T.o(x) for x in I.a]
        if s.name=="local_push" and n=="insert" and a and a[0].endswith("producer_data.out)"): return st._replace(done=st.done|{"forward"})
        if n in("insert","emplace","insert_or_assign","try_emplace","emplace_hint") and a and a[0].endswith("consumer_data.in)"): return st._replace(done=st.done|{"defer"})
        return st
    def plain(s,st,e,I):
        a=e.addr
        if a.endswith(".blocked") or re.search(r"\.(blocked)$",a):
            s.cnt("F10","F10.side",I)
            v=e.valo
            if "c" in v and v["c"]==0: return st
            want="write_stats" if s.name in WRITERS|{"send","send_range"} else "read_stats"
            if want not in a: s.bad("F10","F10.side","marks the other side as blocked",I,"side")
            if "inc" in st.done: s.bad("F10","F10.side","marks a side blocked although the operation went through",I,"done")
            return st._replace(blk=True)
        if a.endswith(".count"):
            s.cnt("F10","F10.count",I)
            side_="write" if "write_stats" in a else "read" if "read_stats" in a else "?"
            role=s.spec["role"]
            if (role in("w1","send","sendn"))!=(side_=="write") or role in("w0","r0"):
                s.bad("F10","F10.count","counts a transfer on the wrong side or in an operation that transfers nothing",I,"side")
            A,c=linear(s.f,e.valo)
            ok=False
            if role=="sendn":
                ts=[s.tatom(t) for t in A]
                ok=c==0 and len(A)==2 and all(x==1 for x in A.values()) and any(t.endswith(".count)") for t in ts) and any("n_allocated" in t for t in ts)
            else:
                ok=c==1 and len(A)==1 and list(A.values())==[1] and s.tatom(list(A)[0])=="*(%s)"%a
            if not ok: s.bad("F10","F10.count","the transfer count is not increased by the number of elements transferred",I,"amount")
            if "count" in st.done: s.bad("F10","F10.count","counts one transfer twice",I,"twice")
            return st._replace(done=st.done|{"count"})
        if a.endswith("producer_data.allocate_called"):
            s.cnt("F08","F08.flag",I)
            v=e.valo.get("c")
            return st._replace(done=st.done|{("flag",bool(v) if v is not None else None)})
        if a.endswith("producer_data.n_allocated"):
            z=e.valo.get("c")
            return st._replace(done=st.done|{("nalloc","0" if z==0 else e.val)})
        if a.startswith("arg") and s.name in("local_pop","local_peek"):
            if a=="arg2":
                s.cnt("F07","F07.read",I)
                m=re.match(r"^\*\(\*\((.*)\.signal\)\[Pointer::val\((.*)\.read_pt\)\](\.\w+)?\)$",e.val)
                if not m: s.bad("F07","F07.read","the signal handed to the reader is not the one stored with the element (%s)"%e.val[:120],I,"value")
                return st._replace(done=st.done|{"out_signal"})
            if a=="arg1" and s.name=="local_pop" and s.kind=="num":
                s.cnt("F01","F01.out",I)
                if not re.match(r"^\*\(\*\((.*)\.store\)\[Pointer::val\((.*)\.read_pt\)\]\)$",e.val): s.bad("F01","F01.value","the value handed to the reader is not the element at the read position (%s)"%e.val[:100],I,"value")
                return st._replace(done=st.done|{"out_value"})
        if a=="arg1" and s.name in("local_peek","local_allocate"):
            s.cnt("F02","F02.view",I)
            sd="read" if s.name=="local_peek" else "write"
            if not re.match(r"^\*\((.*)\.store\)\[Pointer::val\((.*)\.%s_pt\)\]$"%sd,e.val): s.bad("F01","F01.slot","the slot handed out is not the one at the %s position (%s)"%(sd,e.val[:100]),I,"handout")
            s.access(st,I,"slot handed out"); s.guarded(st,I,sd,"slot handed out")
            return st._replace(done=st.done|{"handout"})
        return st
    # ------------------------------------------------------------ ends
    def ret(s,st,I,W):
        want=s.spec.get("open")
        opened=want is not None
        s.cnt("F03","F03.end",I)
        if s.name in("send","send_range"):
            if st.chk is False:
                if "inc" in st.done or st.acs or any(isinstance(d,str) and d.startswith("st_") for d in st.done): s.bad("F08","F08.noreserve","sending without a reservation changes the stream",I,"effect")
                s.cnt("F08","F08.noreserve",I)
                if st.key is None: s.bad("F03","F03.end","withdraws an access although nothing was reserved",I,"noreserve-exit")
                return
            s.cnt("F08","F08.once",I)
            if st.chk is None and s.spec.get("init") is not None: s.bad("F08","F08.noreserve","does not find out whether anything was reserved",I,"unchecked")
            if "inc" not in st.done: s.bad("F08","F08.once","a reserved element is not published",I,"unsent")
            if ("flag",False) not in st.done: s.bad("F08","F08.once","the reservation is not marked as used up",I,"flag")
            if s.name=="send_range" and ("nalloc","0") not in st.done: s.bad("F08","F08.once","the number of reserved elements is not reset",I,"n")
            if "count" not in st.done: s.bad("F10","F10.counted","a transferred element is not counted",I,"uncounted")
            s.cnt("F10","F10.counted",I)
        if s.name=="deallocate":
            s.cnt("F08","F08.once",I)
            if ("flag",False) not in st.done: s.bad("F08","F08.once","a cancelled reservation stays marked as open",I,"flag")
            if s.kind=="small":
                s.cnt("F06","F06.cancel",I)
                if "dtor" not in st.done: s.bad("F06","F06.cancel","a cancelled reservation does not destroy the reserved element",I,"leak")
        if s.name in("local_allocate","local_allocate_n"):
            s.cnt("F08","F08.once",I)
            if ("flag",True) not in st.done: s.bad("F08","F08.once","a reservation is not recorded, so that sending it has no effect",I,"unrecorded")
            if s.name=="local_allocate_n" and ("nalloc","arg2") not in st.done: s.bad("F11","F11.reserve","a range reservation does not record how many elements it handed out",I,"n")
            s.cnt("F11","F11.reserve",I) if s.name=="local_allocate_n" else None
        if opened:
            if st.key is None: s.bad("F03","F03.end","a reserving operation returns with its access withdrawn",I,"closed")
            elif st.key!=want: s.bad("F03","F03.end","returns with access %s announced instead of %s, which the release operation withdraws"%(KN.get(st.key,st.key),KN.get(want)),I,"wrongkey")
            if st.key is not None and not st.ver: s.bad("F03","F03.end","a reservation is granted without having seen that no resize is in progress",I,"unverified")
            w="space_avail" if s.name in WRITERS else "size"
            s.cnt("F02","F02.grant",I)
            need=((),1)
            if s.name in("local_allocate_n","local_peek_range"):
                k=2 if s.name=="local_allocate_n" else 3
                need=((( str(("v",s.f.args[k]["i"])),1),),0)
            if not s.has(st,w,need): s.bad("F02","F02.grant","the reservation is granted without having found enough %s in this access"%("free space" if w!="size" else "elements"),I,"grant")
            if s.name in("local_peek","local_allocate"):
                if "handout" not in st.done: s.bad("F02","F02.view","no slot is handed out",I,"nohandout")
            if s.name=="local_peek" and "out_signal" not in st.done and ("arg2",True) not in st.nul: s.bad("F07","F07.read","the signal of the element is not handed to the reader",I,"missing")
        else:
            if st.key is not None: s.bad("F03","F03.end","returns with access %s still announced"%KN.get(st.key,st.key),I,"open")
        role=s.spec["role"]
        if role in("w1","r1"):
            s.cnt("F01","F01.once",I)
            if "inc" not in st.done: s.bad("F01","F01.once","returns without having moved the position",I,"nomove")
            null=("arg1",True) in st.nul
            s.cnt("F10","F10.counted",I)
            if "count" not in st.done and not null: s.bad("F10","F10.counted","a transferred element is not counted",I,"uncounted")
        if s.name=="local_pop":
            if s.kind=="num" and "out_value" not in st.done and ("arg1",True) not in st.nul: s.bad("F01","F01.once","the element is not handed to the reader",I,"novalue")
            if s.kind!="num" and "rd_store" not in st.done and ("arg1",True) not in st.nul: s.bad("F01","F01.once","the element is not handed to the reader",I,"novalue")
            if "out_signal" not in st.done and ("arg2",True) not in st.nul: s.bad("F07","F07.read","the signal of the element is not handed to the reader",I,"missing")
            s.cnt("F07","F07.read",I)
            if s.kind=="big":
                s.cnt("F06","F06.free",I)
                if "free" not in st.done: s.bad("F06","F06.free","the memory of an out-of-line element is not freed after it was copied out",I,"leak")
        if s.name=="deallocate" and s.kind=="big":
            s.cnt("F06","F06.free",I)
        if role=="rn" and "inc" not in st.done:
            # early return: nothing asked for, or closed and empty
            s.cnt("F05","F05.skip",I)
            if not(s.closed0(st) or s.zero(st)): s.bad("F05","F05.skip","skipping ends early although the stream was not seen closed and afterwards empty",I,"early")
    def tatom(s,t): return s.T.v(t[1]) if isinstance(t,tuple) else t
    def zero(s,st): return ("arg1",True) in st.nul
    def resume(s,st,I,W):
        s.cnt("F03","F03.throw",I)
        if st.key is not None: s.bad("F03","F03.throw","an exception leaves access %s announced"%KN.get(st.key,st.key),I,"throw")
    def excedge(s,st,I,W):
        if throw_type(I) is not None or (I.fn=="__cxa_throw"):
            return s.one_throw(st,I)
        return None
    def one_throw(s,st,I):
        for e in s.ev.get(I.id,()): st=s.one(st,e,I)
        # an uncaught throw leaves the function here if there is no landing pad
        return st
    def run(s):
        init=s.spec.get("init")
        st=St(init,init is not None,(),frozenset(),frozenset(),None,False,(),0,False)
        W=Walker(s.f); s.W=W
        W.run(st,s.step,edge=lambda st,a,I,W: s.bound(st,a),ret=s.ret,exc=s.excedge,resume=s.resume)
        return s

def kind_of(f):
    d=f.dem
    for n,k in(("probe::Big","big"),("probe::Small","small"),("<long","num"),("<bool","num")):
        if n in d.split("(")[0]+d: return k
    return None

_cache={}
def analyse(mod):
    if id(mod) in _cache: return _cache[id(mod)]
    exc=exc_types(mod)
    if "closed" not in exc or "nomore" not in exc: raise RuntimeError("exception probes missing")
    res=[]
    for name in OPS:
        for f in mod.find(q="RingBufferBase::"+name):
            if "Infinite" in f.dem or "SharedMemory" in f.dem: continue
            k=kind_of(f)
            if k is None: continue
            res.append(Op(f,k,name,exc).run())
    _cache[id(mod)]=res
    return res

TEXT={
"F01.slot":"an element is written into the slot at the write position, and read from the slot at the read position",
"F01.complete":"value and signal are stored before the write position moves, and taken out before the read position moves",
"F01.value":"the element stored is the one given",
"F01.out":"the element delivered is the one in the slot",
"F01.move":"an operation moves the position of its own side, by the number of its elements",
"F01.once":"each element moves the position exactly once",
"F01.after":"nothing is written to a slot after it was published, nothing read from it after it was given back",
"F02.guard":"a position moves, and a slot is read, only after enough elements or enough free slots were found in the same protected access",
"F02.grant":"a reservation is granted only after enough free slots were found",
"F02.move":"a position never moves by more than what was found",
"F02.view":"a view of stored elements is handed out only after they were found present",
"F05.skip":"skipping on a closed empty stream returns",
"F05.throw":"the closed-port error is raised only for a stream seen closed and then found empty",
"F05.wait":"a waiting reader tests whether the stream is closed on every round",
"F06.copy":"an element put on a stream is constructed in its slot exactly once",
"F06.destroy":"exactly one party destroys an element that is read, skipped or cancelled",
"F06.free":"out-of-line elements that are read are freed",
"F06.defer":"skipped out-of-line elements are recorded for deferred collection",
"F06.cancel":"cancelling a reservation destroys the reserved element",
"F06.use":"an element is not used after it was destroyed",
"F07.slot":"the signal is stored into, and read from, the slot of its element",
"F07.value":"the signal stored is the one given, and none for all but the last of several",
"F07.read":"the signal delivered is the one stored with the element; reading it changes nothing",
"F08.flag":"a reservation is recorded when made and cleared when sent or cancelled",
"F08.noreserve":"sending or cancelling without a reservation has no effect",
"F08.once":"a reserved element is published exactly once",
"F10.count":"each element adds one to the count of its side, a range its length",
"F10.counted":"every element moved is counted",
"F10.side":"only the own side's statistics are changed",
"F10.blocked":"a side is marked blocked only after having waited",
"F11.reserve":"a range reservation records its length",
}
def report(c,prop,rules):
    if prop in("F01","F02","F06","F07","F08","F11"):
        import fifoapi
        c.rule(prop+".api","each typed operation and scoped handle asks the stream for exactly the operations it stands for, with the caller's element, signal and count")
        fifoapi.run(c,prop,prop+".api")
    """obligations of one property from the walk"""
    mod=c.load("fifo")
    ops=analyse(mod)
    for r,t in list(TEXT.items())+list(rules.items()):
        if r.startswith(prop): c.rule(r,t)
    per={}
    for o in ops:
        c.fn(o.f)
        per.setdefault(o.name,set()).add(o.kind)
        bad={}
        for(p,r,msg,I,sub,path) in o.out:
            if p==prop: bad.setdefault(r,[]).append((msg,I,sub,path))
        badids={(r,I.id) for r,l in bad.items() for(_,I,_,_) in l}
        for(p,r),ids in o.counts.items():
            if p!=prop: continue
            for i in sorted(ids):
                if (r,i) in badids: continue
                I=o.f.inst.get(i)
                c.ob(r,"%s %s"%(short(o.f),I.where() if I is not None else ""),True)
        for r,l in bad.items():
            for(msg,I,sub,path) in l:
                c.ob(r,"%s %s"%(short(o.f),I.where()),False,msg,key="%s|%s|%s|%s"%(r,o.name,o.kind,sub),path=path)
    for n in OPS:
        for k in("num","small","big"):
            if k not in per.get(n,()): raise_missing(n,k)

def raise_missing(n,k):
    from build import AnalysisError
    raise AnalysisError("operation %s for %s elements not found"%(n,k))

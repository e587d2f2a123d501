"""S04: deferred collection frees exactly the elements that were not passed on."""
from sysm import *
TECH="facts along all paths of the collection, of its registration and of the worker loop; path-wise values of the bookkeeping in the out-of-line stream"
NOTE="every path, loops followed three times; look-ups recognised as find, count or contains; sound for the stated rules"
MIN={"S04.free":2,"S04.clear":3,"S04.reg":4,"S04.loop":3,"S04.field":4,"S04.book":3}
def run(c):
    c.rule("S04.free","an element removed from an input is freed exactly when it is not among those sent on, once, by its own function")
    c.rule("S04.clear","after the collection all three records are empty, and they are emptied only after they were used")
    c.rule("S04.reg","each input of a kernel gets the record of removed elements and the peek record, each output the record of sent elements and the same peek record, before the kernel runs")
    c.rule("S04.loop","a worker collects after every run of its kernel, with the records that were registered, before the next run and before it ends")
    c.rule("S04.field","registering a record stores it where the stream looks for it")
    c.rule("S04.book","removing an element records it with its address; sending on a peeked element records it as sent; peeking records it as peeked")
    m=c.load("sys")
    for f in c.need(m.find(q="Schedule::fifo_gc"),"fifo_gc"):
        c.fn(f); frees=0; clears={}
        for p in paths(f):
            it=iterfacts(p)
            F=[(i,e) for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"std::function::operator\(\)",e.q or "")]
            frees+=len(F); M=membership(p,r"^\*?\(?arg1")
            loop=[(i,end) for i,end in it]
            # iterations: split at advances of the iterator over the removed elements
            adv=[i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"std::_Rb_tree\w*iterator::operator\*|std::_Rb_tree\w*iterator::operator->",e.q or "")]
            for i,e in F:
                fn=sv(e.args[0]); el=re.sub(r"\.second$","",fn)
                arg=content(p,i,sv(e.args[1])) if sv(e.args[1]).startswith("alloca#") else sv(e.args[1])
                c.ob("S04.free",f.where(),fn.endswith(".second") and el in arg and ".first" in arg,"frees %s with the function of %s"%(arg[:60],el[:60]),key="S04.free|which")
                b=[x for x in M if x[0]<i and el in x[2]]
                c.ob("S04.free",f.where(),bool(b) and b[-1][3] is not True,"frees an element that was sent on, or without a look",key="S04.free|sent")
                if b and b[-1][3] is None: pass
                c.ob("S04.free",f.where(),len([1 for j,g in F if sv(g.args[0])==fn])==1,"frees an element twice",key="S04.free|twice")
            for i,cont,key,out in M:
                c.ob("S04.free",f.where(),".first" in key,"looks for %s among the elements sent on"%key[:60],key="S04.free|key")
                el=re.match(r"\*?\(?(.*)\.first",key)
                if out is False and el: c.ob("S04.free",f.where(),any(el[1] in sv(g.args[0]) for _,g in F),"an element that was not sent on is not freed",key="S04.free|leak")
            if p.end=="ret":
                for a in("arg0","arg1","arg2"):
                    C=[i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"std::(map|set|unordered_map|unordered_set)::(clear|swap|erase|operator=)",e.q or "") and a in[sv(x) for x in e.args]]
                    c.ob("S04.clear",f.where(),bool(C),"record %s is not emptied"%a,key="S04.clear|"+a)
                    use=[x for x in adv]+[x[0] for x in M]+[i for i,_ in F]
                    if C and use and a!="arg2": c.ob("S04.clear",f.where(),min(C)>max(use),"record %s is emptied before its last use"%a,key="S04.clear|early|"+a)
                if it: c.ob("S04.free",f.where(),any(end for _,end in it),"stops before the last element",key="S04.free|all")
        c.ob("S04.free",f.where(),frees>0,"nothing is ever freed",key="S04.free|any")
    WANT={"setPtrMap":("arg0.input","arg1"),"setInPeekSet":("arg0.input","arg3"),"setPtrSet":("arg0.output","arg2"),"setOutPeekSet":("arg0.output","arg3")}
    for f in c.need(m.find(q="Schedule::setPtrSets"),"setPtrSets"):
        c.fn(f); seen=set(); both=set(); pend=[]
        for p in paths(f):
            V={k:vcalls(p,k) for k in WANT}
            for k,(sd,a) in WANT.items():
                for i,o,t in V[k]:
                    x=side(p,i,o); seen.add(k)
                    if x: c.ob("S04.reg",f.where(),x.startswith(sd),"%s for ports of %s"%(k,x),key="S04.reg|side|"+k)
                    c.ob("S04.reg",f.where(),sv(p.ev[i].args[1])==a,"%s registers %s"%(k,sv(p.ev[i].args[1])),key="S04.reg|what|"+k)
            it=iterfacts(p)
            for n,(i,end) in enumerate(it):
                if end or n+1>=len(it): continue
                here=[(k,o,x[0]) for k in WANT for x in V[k] for o in[x[1]] if i<x[0]<it[n+1][0]]
                sd={side(p,j,o) for _,o,j in here}
                ks=sorted(k for k,_,_ in here)
                pair=ks in(["setInPeekSet","setPtrMap"],["setOutPeekSet","setPtrSet"])
                if pair: both.add(ks[0])
                c.ob("S04.reg",f.where(),pair or len(ks)==1,"a port gets %s"%(ks or "no record"),key="S04.reg|each")
                if len(ks)==1: pend.append({"setPtrMap":"setInPeekSet","setPtrSet":"setOutPeekSet"}.get(ks[0],ks[0]))
            if p.end=="ret" and it: c.ob("S04.reg",f.where(),it[-1][1],"stops before the last port",key="S04.reg|all")
        for k in pend: c.ob("S04.reg",f.where(),k not in both,"a port gets one of its two records only",key="S04.reg|half")
        for k in WANT: c.ob("S04.reg",f.where(),k in seen,"%s is never called"%k,key="S04.reg|any|"+k)
    for f in c.need(m.find(q="simple_schedule::simple_run"),"simple_run"):
        c.fn(f)
        for p in paths(f):
            S=pos(p,"Schedule::setPtrSets"); R=pos(p,"Schedule::kernelRun"); G=pos(p,"Schedule::fifo_gc")
            if R: c.ob("S04.loop",f.where(),bool(S) and S[0]<R[0],"runs the kernel before its records are registered",key="S04.loop|reg")
            for i,r in enumerate(R):
                nxt=R[i+1] if i+1<len(R) else None
                if nxt is None and p.end!="ret": continue
                g=[x for x in G if r<x and (nxt is None or x<nxt)]
                c.ob("S04.loop",f.where(),bool(g),"no collection after a run of the kernel",key="S04.loop|"+("each" if nxt else "last"))
            for g in G:
                a=[sv(x) for x in p.ev[g].args]
                if S: c.ob("S04.loop",f.where(),a==[sv(x) for x in p.ev[S[0]].args][1:],"collects with %s, registered are %s"%(a,[sv(x) for x in p.ev[S[0]].args][1:]),key="S04.loop|same")
            for s in S: 
                a=[sv(x) for x in p.ev[s].args]
                c.ob("S04.loop",f.where(),len(set(a[1:]))==3,"the records are not distinct",key="S04.loop|distinct")
                k=[sv(p.ev[r].args[0]) for r in R]
                c.ob("S04.loop",f.where(),all(x==a[0] for x in k),"registers for %s and runs %s"%(a[0],k),key="S04.loop|kernel")
    d=c.load("fifo")
    FLD={"setPtrMap":"consumer_data.in","setPtrSet":"producer_data.out","setInPeekSet":"consumer_data.in_peek","setOutPeekSet":"producer_data.out_peek"}
    for k,w in FLD.items():
        for f in c.need(d.find(rx=r"RingBuffer\w*::"+k),k):
            if re.search("Infinite|Shared",f.dem): continue
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                st=[e for e in p.ev if e.k=="st" and not e.a.startswith("alloca")]
                c.ob("S04.field",f.where(),len(st)==1 and st[0].a=="arg0."+w and sv(st[0].v)=="arg1","%s stores %s"%(k,[(e.a,sv(e.v)) for e in st]),key="S04.field|"+k)
    SLOT=r"\*\(DataManager::get\(arg0\.datamanager\)('\d+)?\.store\)\[.*read_pt\)('\d+)?\]"
    INS=r"std::(map|set|unordered_map|unordered_set)::(insert|emplace|try_emplace|insert_or_assign|emplace_hint)"
    for f in c.need([f for f in d.find(rx=r"RingBufferBase::(local_push|local_recycle|local_peek)") if "probe::Big" in f.dem],"out-of-line operations"):
        if re.search("Infinite|Shared",f.dem): continue
        c.fn(f); n=f.q.rsplit("::",1)[1]
        for p in paths(f):
            def ins(w,upto=None,frm=0):
                r=[]
                for i in range(frm,len(p.ev) if upto is None else upto):
                    e=p.ev[i]
                    if e.k=="call" and re.fullmatch(INS,e.q or "") and sv(e.args[0])=="*(arg0.%s)"%w:
                        x=sv(e.args[1]); r.append((i,content(p,i,x+".first") if any(g.k=="st" and g.a==x+".first" for g in p.ev[:i]) else content(p,i,x)))
                return r
            if n=="local_recycle":
                last=0
                for i in pos(p,"Pointer::inc"):
                    if not sv(p.ev[i].args[0]).endswith(".read_pt"): continue
                    x=ins("consumer_data.in",i,last); last=i+1
                    c.ob("S04.book",f.where(),len(x)==1,"removes an element and records %d"%len(x),key="S04.book|recycle")
                    for _,v in x: c.ob("S04.book",f.where(),re.fullmatch(r"\*\(+\*?\(?"+SLOT.replace(r"\*\(DataM",r"\*?\(?\*\(DataM",1)+r"\)*",v) is not None or re.search(r"\.store\)\[Pointer::val\(.*read_pt\)('\d+)?\]\)",v) is not None,"records %s instead of the element removed"%v[:80],key="S04.book|recycle|which")
            elif n=="local_peek" and p.end=="ret":
                x=ins("consumer_data.in_peek")
                if not any(e.k=="st" and e.a=="arg1" for e in p.ev): continue
                c.ob("S04.book",f.where(),len(x)>=1 and all(re.search(r"\.store\)\[Pointer::val\(.*read_pt\)('\d+)?\]\)",v) for _,v in x),"hands out an element and records %s"%[v[:60] for _,v in x],key="S04.book|peek")
            elif n=="local_push" and p.end=="ret":
                if null(p,"arg1") is not False: continue
                M=[x for x in membership(p,r"producer_data\.out_peek") if x[2]=="arg1"]
                x=ins("producer_data.out")
                st=[sv(e.v) for e in p.ev if e.k=="st" and re.search(r"\.store\)\[.*write_pt",e.a)]
                same_=st and st[-1]=="arg1"
                if M and M[-1][3] is not None: c.ob("S04.book",f.where(),bool(same_)==M[-1][3],"an element %s is %s"%("peeked before" if M[-1][3] else "of the caller","sent on itself" if same_ else "copied"),key="S04.book|push|which")
                c.ob("S04.book",f.where(),bool(x)==bool(same_),"an element %s and it is %srecorded as sent"%("is sent on itself" if same_ else "is copied","" if x else "not "),key="S04.book|push")
                for _,v in x: c.ob("S04.book",f.where(),v=="arg1","records %s as sent"%v[:60],key="S04.book|push|what")

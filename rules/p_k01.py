"""K01: splitting and joining streams conserves the elements."""
from sysm import *
TECH="what is taken, sent on and removed along all paths of the split and join kernels and their distribution method"
NOTE="every path, loops followed twice; counts are compared for up to three elements; a form of transfer the rules do not know is not judged"
MIN={"K01.split":2,"K01.join":2,"K01.send":4,"K01.get":2,"K01.select":2,"K01.ports":3}
SEL=r"(virtual::(\{[^}]*\bselect_fifo\b[^}]*\}|select_fifo)|\w+::select_fifo)"
def selcalls(p):
    return [(i,[sv(x) for x in e.args],sv(e.res)) for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(SEL,e.q or "") and len(e.args)>2]
def below(p,i,n,upto):
    """is 'i < n' established by the comparisons on the path (directly or through one term known not to exceed n)?"""
    ub={n}
    for _ in range(2):
        for e in p.ev[:upto]:
            if e.k!="if": continue
            l,r=sv(e.l),sv(e.r)
            if r in ub and e.pred in("ult","ule","slt","sle","eq"): ub.add(l)
            if l in ub and e.pred in("ugt","uge","sgt","sge","eq"): ub.add(r)
    for e in p.ev[:upto]:
        if e.k!="if": continue
        for a,b,fl in((e.l,e.r,0),(e.r,e.l,1)):
            if b is not None and not b[0] and sv(a) in ub:
                k=b[1]; pr=e.pred
                if fl: pr={"ult":"ugt","ugt":"ult","ule":"uge","uge":"ule","slt":"sgt","sgt":"slt","sle":"sge","sge":"sle"}.get(pr,pr)
                if pr in("ugt","sgt") and k>=i: return True
                if pr in("uge","sge") and k>i: return True
                if pr=="ne" and k==i and (i==0): return True
                if pr=="eq" and k>i: return True
                if pr=="ne" and k==i and all(below(p,j,n,upto) for j in range(i)): return True
    return False
def told(c,f,p,tgt,rule):
    """an answer computed at run time says no more than whether a stream was selected"""
    v=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None][-1:]
    x=re.fullmatch(r"cmp\((.*) (\w+) (.*)\)",v[0]) if v else None
    if x: c.ob(rule,f.where(),x[2]=="ne" and {x[1],x[3]}&tgt and "0" in(x[1],x[3]),"whether an element was passed on is answered by %s"%v[0][:120],key=rule+"|said")
def run(c):
    c.rule("K01.split","a split kernel removes from its input exactly what was sent, in one piece, from the stream the view was taken of")
    c.rule("K01.join","a join kernel publishes the slot it reserved, with the signal received, exactly when an element was put into it, and gives it up otherwise")
    c.rule("K01.send","sending a batch pushes its first elements once each, each with its own signal, to the stream selected, and returns how many")
    c.rule("K01.get","taking an element pops one, with its signal, from the stream selected, exactly when it says so")
    c.rule("K01.select","a stream is selected among the ports given, for sending only with space, for taking only with data")
    c.rule("K01.ports","split and join have one port on the common side and one more on the other for each asked for, all named differently")
    c.rule("K01.maker","a port makes split kernels when asked for a split and join kernels when asked for a join, of its own element type")
    m=c.load("sys")
    for k,f,T in factories(m):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v,cl=made(p)
            if not cl: continue
            x=re.match(r"_ZTVN4raft\d+(split|join)I(.*)",cl); w=re.match(r"raft::(split|join)::",cl)
            if x:
                c.ob("K01.maker",f.where(),x[1]==k,"asked for a %s it makes a %s"%(k,x[1]),key="K01.maker|%s|kind"%k)
                if T and not re.search(r"S\d*_",x[2]): c.ob("K01.maker",f.where(),T.startswith(re.sub(r"(10roundrobin|\d+\w+)EE.*$","",x[2])),"makes a %s of another element type"%x[1],key="K01.maker|%s|type"%k)
            elif w: c.ob("K01.maker",f.where(),w[1]==k,"asked for a %s it makes a %s"%(k,w[1]),key="K01.maker|%s|kind"%k)
    types={"send":set(),"get":set()}
    for f in c.need(m.find(q="splitmethod::send"),"splitmethod::send"):
        c.fn(f); single=f.dem.startswith("bool "); LS="arg3" if single else "arg2"
        c.ob("K01.send",f.where(),any(e.k=="call" and re.fullmatch(r"FIFO::(push|insert)|"+virt("push|insert|send"),e.q or "") for p in paths(f) for e in p.ev),"never sends an element on",key="K01.send|never")
        for p in paths(f):
            if p.end not in("ret","cut"): continue
            sl=selcalls(p); ps=[(i,e) for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(r"FIFO::(push|insert)",e.q or "")]
            for _,a,_ in sl:
                c.ob("K01.send",f.where(),a[0]=="arg0" and a[1]==LS,"selects a stream among %s"%a[1],key="K01.send|ports")
                if a[2].isdigit(): types["send"].add(int(a[2]))
            tgt={r for _,_,r in sl}
            idxs=[]
            for i,e in ps:
                a=[sv(x) for x in e.args]
                if e.q.endswith("insert"): idxs.append(None); continue
                c.ob("K01.send",f.where(),a[0] in tgt,"pushes to %s, which was not selected"%a[0][:60],key="K01.send|target")
                if a[0] in tgt: c.ob("K01.send",f.where(),null(p,a[0],i) is not True,"pushes although no stream was selected",key="K01.send|null")
                if single:
                    c.ob("K01.send",f.where(),a[1]=="arg1" and len(a)>2 and a[2]=="arg2","pushes %s with signal %s"%(a[1][:50],(a+["none"])[2][:50]),key="K01.send|item")
                    idxs.append(0); continue
                ix=[re.search(r"autorelease::operator\[\]\(arg1,(.*?)\)('\d+)?\)",x) for x in a[1:3]]
                if len(a)<3 or (len(ix)>1 and ix[0] and not ix[1]):
                    c.ob("K01.send",f.where(),False,"an element is pushed without its own signal",key="K01.send|signal")
                if ix and ix[0]:
                    if len(ix)>1 and ix[1]: c.ob("K01.send",f.where(),ix[0][1]==ix[1][1],"element %s travels with the signal of element %s"%(ix[0][1][:40],ix[1][1][:40]),key="K01.send|signal")
                    idxs.append(int(ix[0][1]) if ix[0][1].isdigit() else None)
                else: idxs.append(None)
            if p.end!="ret": continue
            if single:
                v=retval(p)
                if v is not None: c.ob("K01.send",f.where(),len(ps)==(1 if v else 0),"says %s after pushing %d elements"%("sent" if v else "not sent",len(ps)),key="K01.send|said")
                else: told(c,f,p,tgt,"K01.send")
                continue
            if None in idxs: continue
            c.ob("K01.send",f.where(),sorted(idxs)==list(range(len(idxs))),"pushes elements %s"%idxs,key="K01.send|first")
            for k in idxs:
                t=[sv(e.res) for e in p.ev if e.k=="call" and re.fullmatch(r"FIFO::autorelease::size",e.q or "") and e.res is not None]
                if t: c.ob("K01.send",f.where(),any(below(p,k,x,len(p.ev)) for x in t),"pushes element %d of a batch that may be shorter"%k,key="K01.send|beyond")
            rv=[e.v for e in p.ev if e.k=="ret"]
            rv=rv[-1] if rv else None
            if rv is None: continue
            if not rv[0]: c.ob("K01.send",f.where(),rv[1]==len(idxs),"says %d after pushing %d"%(rv[1],len(idxs)),key="K01.send|count")
            else:
                s=possible(p,sv(rv),range(0,5))
                if s is None: c.ob("K01.send",f.where(),False,"says %s after pushing %d"%(sv(rv)[:60],len(idxs)),key="K01.send|count")
                else: c.ob("K01.send",f.where(),s=={len(idxs)} or not s,"may say %s after pushing %d"%(sorted(s)[:3],len(idxs)),key="K01.send|count")
    for f in c.need(m.find(q="splitmethod::get"),"splitmethod::get"):
        c.fn(f)
        c.ob("K01.get",f.where(),any(e.k=="call" and re.fullmatch(r"FIFO::(pop|pop_s|pop_range|peek|recycle)|"+virt("pop|pop_s|recycle"),e.q or "") for p in paths(f) for e in p.ev),"never takes an element",key="K01.get|never")
        for p in paths(f):
            if p.end!="ret": continue
            sl=selcalls(p); pp=[(i,[sv(x) for x in e.args]) for i,e in enumerate(p.ev) if e.k=="call" and (e.q=="FIFO::pop" or re.fullmatch(virt("pop"),e.q or ""))]
            for _,a,_ in sl:
                c.ob("K01.get",f.where(),a[0]=="arg0" and a[1]=="arg3","selects a stream among %s"%a[1],key="K01.get|ports")
                if a[2].isdigit(): types["get"].add(int(a[2]))
            tgt={r for _,_,r in sl}
            for i,a in pp:
                c.ob("K01.get",f.where(),a[0] in tgt and null(p,a[0],i) is not True,"pops from %s"%a[0][:60],key="K01.get|target")
                c.ob("K01.get",f.where(),a[1]=="arg1" and len(a)>2 and a[2]=="arg2","pops into %s with signal to %s"%(a[1][:40],(a+["none"])[2][:40]),key="K01.get|into")
            v=retval(p)
            if v is None: told(c,f,p,tgt,"K01.get")
            else: c.ob("K01.get",f.where(),len(pp)==(1 if v else 0),"says %s after taking %d elements"%("taken" if v else "none",len(pp)),key="K01.get|said")
    S,G=types["send"],types["get"]
    for f in c.need([f for f in m.find(rx=r".*::select_fifo") if not f.q.startswith("splitmethod::")],"select_fifo of a distribution method"):
        c.fn(f)
        if S and G: c.ob("K01.select",f.where(),not S&G,"sending and taking select in the same way",key="K01.select|kind")
        one={}; seen=set()
        for p in paths(f):
            if p.end!="ret": continue
            rv=[e.v for e in p.ev if e.k=="ret"]
            if not rv or rv[-1] is None or not rv[-1][0]: continue
            r=sv(rv[-1]); n=len(p.ev)
            m_=re.match(r"PortIterator::operator(\*|->)\(",r)
            if m_:
                s=side(p,n,r)
                if s: c.ob("K01.select",f.where(),s=="arg1","selects a port of %s"%s,key="K01.select|ports")
            ty=possible(p,"arg2",S|G); ty=S|G if ty is None else ty
            for want,nm,what in((S,"space_avail","space"),(G,"size","data")):
                if not ty&want: continue
                lk=[possible(p,t,(0,1,2)) for i,o,t in vcalls(p,nm) if o==r]
                ot=[x for x in vcalls(p,r"(space_avail|size)")]
                if lk or m_: c.ob("K01.select",f.where(),any(x is not None and 0 not in x for x in lk),"selects a stream that may have no %s"%what,key="K01.select|%s"%what)
                seen.add(what); one[what]=one.get(what,False) or not lk or any(x is None or 1 in x for x in lk)
        for p in paths(f):
            # what is left in a stream is taken also after its writer has closed it
            r=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
            ty=possible(p,"arg2",S|G); ty=S|G if ty is None else ty
            if not ty&G or ty&S: continue
            for i,o,t in vcalls(p,"is_invalid"):
                if o in r or possible(p,t,(0,1),len(p.ev),i) not in({1},[1],(1,)): continue
                full=[possible(p,t2,(0,1,2)) for j,o2,t2 in vcalls(p,"size") if o2==o]
                kept=any(e.k=="st" and sv(e.v)==o for e in p.ev)
                c.ob("K01.select",f.where(),kept or any(x is not None and 0 in x for x in full),"passes over a stream that has data because it is closed",key="K01.select|closed")
        if S and G:
            for what in("space","data"):
                c.ob("K01.select",f.where(),what in seen,"never selects a stream with %s"%what,key="K01.select|never|"+what)
                if what in seen: c.ob("K01.select",f.where(),one[what],"never selects a stream with %s for or of one element"%what,key="K01.select|one|"+what)
    for f in c.need(m.find(q="raft::split::run"),"split::run"):
        c.fn(f)
        c.ob("K01.split",f.where(),any(pos(p,r"splitmethod::send|FIFO::(push|insert)|"+virt("push|insert|send")) for p in paths(f)),"never sends an element on",key="K01.split|never")
        for p in paths(f):
            if p.end!="ret": continue
            S_=Strs(p); n=len(p.ev)
            sends=[(i,[sv(x) for x in p.ev[i].args],sv(p.ev[i].res)) for i in pos(p,"splitmethod::send")]
            views={}
            for i in pos(p,"FIFO::peek_range"):
                a=[sv(x) for x in p.ev[i].args]; views[a[0]]=(a[1],a[2] if len(a)>2 else None)
            rec=[(i,o,[sv(x) for x in p.ev[i].args]) for i,o,_ in [(i,sv(p.ev[i].args[0]),0) for i in pos(p,virt("recycle"))]]
            pops=[i for i in pos(p,"FIFO::(pop|pop_s|pop_range)|"+virt("pop"))]
            for _,a,_ in sends: c.ob("K01.split",f.where(),a[0].startswith("arg0.") and a[-1]=="arg0.output","distributes over %s"%a[-1][:40],key="K01.split|outputs")
            ins=[(i,sv(e.args[0])) for i,e in enumerate(p.ev) if e.k=="call" and e.q=="Port::operator[]"]
            for i,a in ins: c.ob("K01.split",f.where(),a=="arg0.input","takes from %s"%a,key="K01.split|input")
            for i,e in enumerate(p.ev):
                if e.k=="call" and e.q=="Port::operator[]":
                    k=S_.at(i,e.args[1])
                    if k.startswith("str:"): c.ob("K01.split",f.where(),k=="str:'0'","takes from port %s"%k,key="K01.split|port")
            if pops or len(sends)!=1 or sends[0][1][1] not in views:
                if not pops and rec: c.ob("K01.split",f.where(),any(sends),"removes elements that were not sent",key="K01.split|unsent")
                continue
            i,a,res=sends[0]; port=views[a[1]][0]
            for _,o,_ in rec: c.ob("K01.split",f.where(),o==port,"removes from %s"%o[:60],key="K01.split|stream")
            z=possible(p,res,(0,1,2)); may0=z is None or 0 in z; mayn=z is None or z&{1,2}
            amount=[x[1] if len(x)>1 else "1" for _,_,x in rec]
            if mayn:
                c.ob("K01.split",f.where(),len(rec)==1,"sends elements on and removes %d times"%len(rec),key="K01.split|once")
                for t in amount: c.ob("K01.split",f.where(),t==res or (t.isdigit() and z=={int(t)}),"removes %s elements, which is not what was sent"%t[:60],key="K01.split|amount")
            elif rec:
                for t in amount: c.ob("K01.split",f.where(),t==res or t=="0","removes %s elements although nothing was sent"%t[:60],key="K01.split|amount")
            for k,_,_ in rec: c.ob("K01.split",f.where(),k>i,"removes elements before they are sent on",key="K01.split|order")
    for f in c.need(m.find(q="raft::join::run"),"join::run"):
        c.fn(f)
        c.ob("K01.join",f.where(),any(pos(p,r"FIFO::(push|insert)|"+virt("push|insert|send")) for p in paths(f)),"never publishes an element",key="K01.join|never")
        for p in paths(f):
            if p.end!="ret": continue
            S_=Strs(p)
            for i,e in enumerate(p.ev):
                if e.k=="call" and e.q=="Port::operator[]":
                    c.ob("K01.join",f.where(),sv(e.args[0])=="arg0.output","writes to %s"%sv(e.args[0]),key="K01.join|output")
                    k=S_.at(i,e.args[1])
                    if k.startswith("str:"): c.ob("K01.join",f.where(),k=="str:'0'","writes to port %s"%k,key="K01.join|port")
            gets=[(i,[sv(x) for x in p.ev[i].args],sv(p.ev[i].res)) for i in pos(p,"splitmethod::get")]
            if len(gets)!=1: continue
            i,a,res=gets[0]
            c.ob("K01.join",f.where(),a[-1]=="arg0.input","takes from %s"%a[-1][:40],key="K01.join|inputs")
            al={sv(p.ev[k].res):sv(p.ev[k].args[0]) for k in pos(p,"FIFO::allocate") if p.ev[k].res is not None}
            snd=[(k,[sv(x) for x in p.ev[k].args]) for k in pos(p,virt("send"))]
            dea=[(k,[sv(x) for x in p.ev[k].args]) for k in pos(p,virt("deallocate"))]
            psh=[(k,[sv(x) for x in p.ev[k].args]) for k in pos(p,"FIFO::push")]
            z=possible(p,res,(0,1))
            if a[1] not in al:
                # element taken into a local and pushed
                if psh and not al:
                    if z is None or 1 in z: c.ob("K01.join",f.where(),len(psh)==1,"pushes an element %d times"%len(psh),key="K01.join|once")
                    elif z=={0}: c.ob("K01.join",f.where(),not psh,"pushes an element that was not taken",key="K01.join|none")
                    for k,x in psh:
                        c.ob("K01.join",f.where(),k>i and x[1]==a[1],"pushes %s"%x[1][:40],key="K01.join|item")
                        c.ob("K01.join",f.where(),len(x)>2 and x[2] in("*(%s)"%a[2],content(p,k,a[2])),"sends another signal on",key="K01.join|signal")
                elif al: c.ob("K01.join",f.where(),False,"takes into %s, not into the slot reserved"%a[1][:40],key="K01.join|slot")
                continue
            port=al[a[1]]
            for k,x in snd+dea: c.ob("K01.join",f.where(),x[0]==port and k>i,"publishes or gives up on another stream, or before the element is taken",key="K01.join|stream")
            if z is None or 1 in z:
                c.ob("K01.join",f.where(),len(snd)==1 and not dea,"an element taken is published %d times and given up %d times"%(len(snd),len(dea)),key="K01.join|once")
            if z is not None and z=={0} or z is None:
                c.ob("K01.join",f.where(),not snd and len(dea)==1,"without an element the slot is published %d times and given up %d times"%(len(snd),len(dea)),key="K01.join|none")
            for k,x in snd:
                c.ob("K01.join",f.where(),len(x)>1 and x[1] in("*(%s)"%a[2],content(p,k,a[2])),"publishes with signal %s"%(x+["none"])[1][:40],key="K01.join|signal")
    for q,common,other in(("raft::split::split","arg0.input","arg0.output"),("raft::join::join","arg0.output","arg0.input")):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                ap=[(i,[sv(x) for x in p.ev[i].args]) for i in pos(p,"Port::addPort")]
                own=[a for _,a in ap if a[0]==common]
                c.ob("K01.ports",f.where(),len(own)==1 and (not own[0][1].startswith("str:") or own[0][1]=="str:'0'"),"has %d ports %s on the common side"%(len(own),[a[1] for a in own][:2]),key="K01.ports|common")
                more=len(pos(p,r"raft::(split|join)::addPort|raft::parallel_k::addPortTo|virtual::.*addPort.*"))+sum(1 for _,a in ap if a[0]==other)
                s=possible(p,"arg1",range(0,6))
                if s: c.ob("K01.ports",f.where(),s=={more},"asked for %s ports, adds %d"%(sorted(s)[:3],more),key="K01.ports|count")
    for f in c.need(m.find(rx=r"raft::(split|join)::addPort"),"addPort of split and join"):
        c.fn(f); side_="arg0.output" if "split" in f.q else "arg0.input"
        for p in paths(f):
            if p.end!="ret": continue
            x=[[sv(y) for y in p.ev[i].args] for i in pos(p,"raft::parallel_k::addPortTo")]
            if x: c.ob("K01.ports",f.where(),len(x)==1 and x[0][1]==side_,"adds a port to %s"%x[0][1],key="K01.ports|side")
    for f in c.need(m.find(q="raft::parallel_k::addPortTo"),"addPortTo"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            S_=Strs(p)
            ap=[(i,[sv(x) for x in p.ev[i].args]) for i in pos(p,"Port::addPort")]
            c.ob("K01.ports",f.where(),len(ap)==1 and ap[0][1][0]=="arg1","adds %d ports"%len(ap),key="K01.ports|one")
            ix=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a=="arg0.port_name_index"]
            names=[(sv(p.ev[i].args[0]),sv(p.ev[i].args[1])) for i in pos(p,r"std::(__cxx11::)?to_string")]
            c.ob("K01.ports",f.where(),bool(ix),"the next port would get the same name",key="K01.ports|next")
            if ix and names:
                c.ob("K01.ports",f.where(),sv(ix[-1][1].v)!="*(arg0.port_name_index)","the next port would get the same name",key="K01.ports|next")
                c.ob("K01.ports",f.where(),any("*(arg0.port_name_index)" in n for _,n in names),"names the port %s"%names[0][1][:40],key="K01.ports|name")
    for f in c.need([m.func(k) for k in m.raw if re.fullmatch(r"raft::(parallel_k::parallel_k|split::split|join::join)",m.func(k).q)],"constructors of split and join"):
        for p in paths(f):
            if p.end!="ret": continue
            st=[(i,e) for i,e in enumerate(p.ev) if e.k=="st" and e.a=="arg0.port_name_index"]
            if st:
                c.fn(f); ad=pos(p,r"Port::addPort|raft::(split|join)::addPort|raft::parallel_k::addPortTo|virtual::.*addPort.*")
                first=[e for i,e in st if not ad or i<ad[0]][-1:]
                for e in first:
                    if isK(e.v): c.ob("K01.ports",f.where(),e.v[1]==0,"the first port of the side that fans out is named %d, not the 0 it is looked up by"%e.v[1],key="K01.ports|start")

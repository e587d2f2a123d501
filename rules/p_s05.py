"""S05: system signals reach their handler exactly once."""
from sysm import *
from flow import callee
TECH="facts and values along all paths of the signal check, the handler table and the quit handler"
NOTE="every path, loops followed three times; the class of a signal is enumerated for the values around the limits; sound for the stated rules"
MIN={"S05.pending":2,"S05.range":4,"S05.call":2,"S05.status":3,"S05.table":3,"S05.quit":2}
def run(c):
    c.rule("S05.pending","only the signal at the head of an input that holds data is looked at, for every input")
    c.rule("S05.range","a signal is consumed and handled exactly when it is a pending system signal, once")
    c.rule("S05.call","the handler gets the signal, the stream it came from, the kernel and the data")
    c.rule("S05.status","a stop request from any handler is returned, and stop is not returned without one")
    c.rule("S05.table","the handler called is the one registered last for the signal; a signal without one is an error")
    c.rule("S05.quit","the quit signal has the quit handler, which closes the stream and stops the kernel")
    m=c.load("sys")
    STOP,GO,QUIT,MAX=[const(m,x) for x in("stop","proceed","quit","max_system")]
    VAL=(0,1,2,QUIT,MAX-1,MAX,MAX+1,0x7fffffff)
    for f in c.need(m.find(q="Schedule::checkSystemSignal"),"checkSystemSignal"):
        c.fn(f)
        for p in paths(f):
            it=iterfacts(p); PK=vcalls(p,"signal_peek"); PP=vcalls(p,"signal_pop"); SZ=vcalls(p,"size")
            H=[(i,p.ev[i]) for i in pos(p,"SystemSignalHandler::callHandler")]
            for i,o,t in PK:
                z=[possible(p,r,(0,1,2),i) for j,x,r in SZ if j<i and x==o]
                c.ob("S05.pending",f.where(),any(s is not None and 0 not in s for s in z),"looks at the signal of a stream that may be empty",key="S05.pending|empty")
                x=side(p,i,o)
                if x: c.ob("S05.pending",f.where(),x.startswith("arg0.input"),"looks at the signals of %s"%x,key="S05.pending|side")
            for k,(i,end) in enumerate(it):
                if end: continue
                j=it[k+1][0] if k+1<len(it) else None
                if j is None: continue
                pk=[x for x in PK if i<x[0]<j]; pp=[x for x in PP if i<x[0]<j]; h=[x for x in H if i<x[0]<j]; sz=[x for x in SZ if i<x[0]<j]
                if not pk:
                    zz=[possible(p,r,(0,1,2)) for _,_,r in sz]
                    c.ob("S05.pending",f.where(),any(s is not None and s=={0} for s in zz),"an input that may hold a signal is passed over",key="S05.pending|skip")
                    c.ob("S05.range",f.where(),not pp and not h,"consumes a signal it has not looked at",key="S05.range|blind"); continue
                s=possible(p,pk[0][2],VAL,j)
                s=set(VAL) if s is None else s
                sysv=[v for v in s if 0<v<MAX]; oth=[v for v in s if not 0<v<MAX]
                if pp or h:
                    c.ob("S05.range",f.where(),not oth,"consumes signal %s, which is no system signal"%oth[:1],key="S05.range|other")
                    c.ob("S05.range",f.where(),len(pp)==1 and len(h)==1,"a system signal is consumed %d times and handled %d times"%(len(pp),len(h)),key="S05.range|once")
                else: c.ob("S05.range",f.where(),not sysv,"system signal %s is left alone"%sysv[:1],key="S05.range|missed")
                for _,o,_ in pp: c.ob("S05.range",f.where(),o==pk[0][1],"consumes the signal of another stream",key="S05.range|stream")
                for _,e in h:
                    a=[sv(x) for x in e.args]
                    if len(a)<5: continue
                    c.ob("S05.call",f.where(),a[1]==pk[0][2] or (pp and a[1]==pp[0][2]),"handles %s"%a[1][:60],key="S05.call|signal")
                    c.ob("S05.call",f.where(),a[2]==pk[0][1],"hands over the stream %s"%a[2][:60],key="S05.call|stream")
                    c.ob("S05.call",f.where(),a[3]=="arg0" and a[4]=="arg1","hands over %s and %s"%(a[3],a[4]),key="S05.call|rest")
                    c.ob("S05.call",f.where(),a[0].startswith("arg2"),"asks the handlers %s"%a[0],key="S05.call|table")
            if p.end=="ret":
                if it: c.ob("S05.pending",f.where(),it[-1][1],"stops before the last input",key="S05.pending|all")
                v=retval(p)
                hs=[possible(p,sv(e.res),(STOP,GO)) for _,e in H]
                r=[e for e in p.ev if e.k=="ret"]
                if v is None:
                    # the answer of one handler is returned as it is: no other may have asked to stop
                    t=sv(r[-1].v) if r and r[-1].v is not None else None
                    same=[j for j,(_,e) in enumerate(H) if sv(e.res)==t]
                    if same: c.ob("S05.status",f.where(),any(hs[j]=={STOP} for j in same) or all(j in same or (s is not None and STOP not in s) for j,s in enumerate(hs)),"returns the answer of one handler although another may have asked to stop",key="S05.status|one")
                    continue
                if v==STOP: c.ob("S05.status",f.where(),any(s is None or STOP in s for s in hs),"stops although no handler asked for it",key="S05.status|stop")
                else: c.ob("S05.status",f.where(),all(s is not None and STOP not in s for s in hs),"goes on although a handler asked to stop",key="S05.status|go")
    for f in c.need(m.find(q="SystemSignalHandler::callHandler"),"callHandler"):
        c.fn(f)
        for p in paths(f):
            M=membership(p,r"arg0\.handlers"); out=M[-1][3] if M else None
            for i,cont,key,_ in M: c.ob("S05.table",f.where(),key=="arg1","looks for the handler of %s"%key,key="S05.table|key")
            t=thrown(p)
            AT=pos(p,r"std::(map|unordered_map)::at")
            if t: 
                c.ob("S05.table",f.where(),out is not True,"fails although there is a handler",key="S05.table|throw")
                c.ob("S05.table",f.where(),"NoSignalHandlerFound" in t,"fails with %s"%t,key="S05.table|type")
            if p.end!="ret": continue
            c.ob("S05.table",f.where(),out is True or bool(AT),"goes on without having found a handler",key="S05.table|found")
            calls=[e for e in p.ev if e.k=="call" and len(e.args)==4 and [sv(x) for x in e.args]==["arg2","arg3","arg1","arg4"]]
            c.ob("S05.table",f.where(),len(calls)==1,"%d calls of the handler with stream, kernel, signal and data"%len(calls),key="S05.table|call")
            r=[e for e in p.ev if e.k=="ret"]
            if calls and r and r[-1].v is not None: c.ob("S05.table",f.where(),sv(r[-1].v)==sv(calls[0].res),"does not return what the handler returned",key="S05.table|ret")
    for f in c.need(m.find(q="SystemSignalHandler::addHandler"),"addHandler"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            ok=None
            for i,e in enumerate(p.ev):
                if e.k=="st" and re.match(r"std::(map|unordered_map)::operator\[\]\(arg0\.handlers",e.a):
                    ix=[content(p,j,sv(g.args[1])) for j,g in enumerate(p.ev[:i]) if g.k=="call" and re.search(r"::operator\[\]$",g.q or "")]
                    ok=sv(e.v)=="arg2" and ix and ix[-1]=="arg1"
                if e.k=="call" and re.search(r"::insert_or_assign$",e.q or "") and sv(e.args[0])=="arg0.handlers":
                    ok=content(p,i,sv(e.args[1]))=="arg1" and "arg2" in(content(p,i,sv(e.args[2])),sv(e.args[2]))
                if e.k=="call" and re.search(r"::(insert|emplace|try_emplace)$",e.q or "") and sv(e.args[0])=="arg0.handlers" and not pos(p,r"std::(map|unordered_map)::(erase|find|count|clear)"): ok=False
            if ok is not None or not pos(p,r"std::(map|unordered_map)::.*"): c.ob("S05.table",f.where(),bool(ok),"the handler given last does not become the one for its signal",key="S05.table|add")
    for f in c.need(m.find(q="Schedule::quitHandler"),"quitHandler"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            V=[o for _,o,_ in vcalls(p,"invalidate")]
            c.ob("S05.quit",f.where(),bool(V) and set(V)=={"arg0"},"closes %s"%(V or "nothing"),key="S05.quit|close")
            v=retval(p)
            if v is not None: c.ob("S05.quit",f.where(),v==STOP,"does not stop the kernel",key="S05.quit|stop")
    for f in c.need(m.find(q="Schedule::Schedule"),"Schedule"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            A=[[sv(x) for x in p.ev[i].args] for i in pos(p,"SystemSignalHandler::addHandler")]
            c.ob("S05.quit",f.where(),any(a[1]==str(QUIT) and "quitHandler" in a[2] and a[0]=="arg0.handlers" for a in A),"the quit signal has no quit handler: %s"%A,key="S05.quit|reg")

"""M05: graph traversal reaches every link and kernel exactly once."""
from sysm import *
TECH="facts and calls along all paths of the traversal functions, judged per visited kernel and per port"
NOTE="every path, loops followed three times; the step from one visit to the whole graph is the usual invariant of breadth-first search: every kernel in the visited set has been queued exactly once"
MIN={"M05.seed":3,"M05.edge":10,"M05.vertex":10,"M05.visit":10,"M05.round":10}
Q=r"std::(queue|deque|list|vector|stack|priority_queue)::"
PUSH=Q+r"(push|push_back|emplace|emplace_back)"; TAKE=Q+r"(front|top|back)"; POP=Q+r"(pop|pop_front|pop_back)"
SETI=r"std::(set|unordered_set)::(insert|emplace)"
def val(p,i,x):
    x=sv(x)
    return slots(p,i,"*(%s)"%x)
def arg(p,i,n=-1):
    """the element handed over by reference"""
    return val(p,i,p.ev[i].args[n])
def seen(p,lo,hi,vis,x):
    """was x found in the visited set between lo and hi: (True visited / False new / None, position)"""
    loc={}
    for i,e in enumerate(p.ev[:hi]):
        if e.k=="st" and re.match(r"alloca#",e.a): loc[e.a.split(".")[0]]=sv(e.v)
        if i<lo or e.k!="if": continue
        l=sv(e.l)
        if e.r==ZERO:
            g=re.match(r"std::operator(==|!=)\((alloca#\d+),(alloca#\d+)\)",l)
            if g:
                v=[loc.get(g[2],""),loc.get(g[3],"")]
                if any("::find(" in y for y in v):
                    f=[y for y in v if "::find(" in y][0]
                    if x not in(content(p,i,y) for y in re.findall(r"[^(,]+::find\(.*?,(.*)\)(?:'\d+)?$",f)): 
                        if x.strip("*()") not in f: continue
                    eqend=(e.pred!="eq")==(g[1]=="==")
                    return (not eqend,i)
            g=re.match(r"std::(set|unordered_set)::(count|contains)\(",l)
            if g: return (e.pred!="eq",i)
            g=re.match(r"extractvalue\(std::(set|unordered_set)::(insert|emplace)\(",l)
            if g: return (e.pred=="eq",i)
    return (None,-1)
def run(c):
    c.rule("M05.seed","each given kernel is queued once and marked as visited, and all of them are, before the traversal starts")
    c.rule("M05.round","each round takes one kernel off the queue, and the traversal ends only when none is left")
    c.rule("M05.edge","for each output port of the kernel taken, the edge function is called once with that port and the input port it is linked to, and not at all for a port without link")
    c.rule("M05.vertex","the vertex function is called once for the kernel taken")
    c.rule("M05.visit","the kernel behind a link is queued and marked as visited exactly when it was not marked before")
    c.rule("M05.ports","the output ports of the kernel taken are gone through from first to last")
    m=c.load("sys")
    core=[f for f in m.find(q="GraphTools::__BFS")]
    edge=[f for f in core if "PortInfo" in f.dem]; vert=[f for f in core if "PortInfo" not in f.dem]
    c.need(edge,"edge traversal"); c.need(vert,"vertex traversal")
    for f in c.need(m.find(q="GraphTools::BFS"),"GraphTools::BFS",3):
        c.fn(f)
        uniq="std::set" in f.dem.split(",")[0]
        for p in paths(f):
            go=pos(p,"GraphTools::__BFS")
            if p.end=="ret":
                c.ob("M05.seed",f.where(),len(go)==1,"starts %d traversals"%len(go),key="M05.seed|go")
            if len(go)!=1: continue
            g=go[0]; q,vis=sv(p.ev[g].args[0]),sv(p.ev[g].args[1])
            fn=[sv(e.args[1]) for e in p.ev[:g] if e.k=="call" and e.q=="std::function::function" and sv(e.args[0])==sv(p.ev[g].args[2])]
            c.ob("M05.seed",f.where(),not fn or fn[-1]=="arg1","traverses with another function",key="M05.seed|func")
            c.ob("M05.seed",f.where(),sv(p.ev[g].args[3])=="arg2","traverses with other data",key="M05.seed|data")
            it=[x for x in iterfacts(p) if x[0]<g]
            # the visited set taken over whole
            whole=[j for j in pos(p,r"std::(set|unordered_set)::(set|unordered_set|operator=|insert|swap|merge)") if j<g and sv(p.ev[j].args[0])==vis and any("arg0" in sv(x) for x in p.ev[j].args[1:]) and (len(p.ev[j].args)==2 and sv(p.ev[j].args[1])=="arg0" or len(p.ev[j].args)==3)]
            whole=[j for j in whole if not any(j<k<g and sv(p.ev[k].args[0])==vis for k in pos(p,r"std::(set|unordered_set)::(clear|erase|swap)"))]
            if it: c.ob("M05.seed",f.where(),it[-1][1],"starts before the last given kernel",key="M05.seed|all")
            if it: c.ob("M05.seed",f.where(),not [j for j in range(it[0][0]) if re.search(r"::operator(--|\+\+|\+=|-=)$",p.ev[j].q or "")],"the range of kernels it starts from is not the given one",key="M05.seed|range")
            for n,(i,end) in enumerate(it):
                if end: continue
                hi=it[n+1][0] if n+1<len(it) else g
                pu=[j for j in pos(p,PUSH) if i<j<hi and sv(p.ev[j].args[0])==q]
                ins=[j for j in pos(p,SETI) if i<j<hi and sv(p.ev[j].args[0])==vis]
                s,_=seen(p,i,hi,vis,"")
                if s is True: c.ob("M05.seed",f.where(),not pu,"queues a given kernel that is queued already",key="M05.seed|twice"); continue
                if s is None and not uniq:
                    c.ob("M05.seed",f.where(),False,"a kernel given twice is queued twice",key="M05.seed|dup")
                c.ob("M05.seed",f.where(),len(pu)==1,"queues a given kernel %d times"%len(pu),key="M05.seed|queue")
                c.ob("M05.seed",f.where(),len(ins)>=1 or bool(whole),"does not mark a given kernel as visited",key="M05.seed|mark")
                for j in pu+ins:
                    x=arg(p,j); c.ob("M05.seed",f.where(),"arg0" in x or "operator*" in x,"takes over "+x[:60],key="M05.seed|what")
    for f in core:
        c.fn(f); isedge=f in edge
        for p in paths(f,limit=20000):
            tk=[i for i in pos(p,TAKE) if sv(p.ev[i].args[0])=="arg0"]
            if p.end=="ret":
                last=[(e.pred,sv(e.l)) for e in p.conds() if re.match(Q+r"(size|empty)\(arg0",sv(e.l))]
                kn=[null(p,"*(%s)"%sv(p.ev[i].res)) for i in tk]
                ok=bool(last) and ((last[-1][0]=="eq")==("size" in last[-1][1].split("(")[0]))
                c.ob("M05.round",f.where(),ok or (kn and kn[-1] is True),"ends although kernels are queued",key="M05.round|end")
            for n,i in enumerate(tk):
                hi=tk[n+1] if n+1<len(tk) else len(p.ev)
                done=n+1<len(tk) or p.end=="ret"
                k="*(%s)"%sv(p.ev[i].res)
                ask=[e for e in p.ev[tk[n-1] if n else 0:i] if e.k=="if" and re.match(Q+r"(size|empty)\(arg0",sv(e.l))]
                if not any(re.search(Q+r"(size|empty)\(arg0",sv(e.l)+sv(e.r)) for e in p.ev[tk[n-1] if n else 0:i] if e.k=="if"):
                    c.ob("M05.round",f.where(),False,"takes a kernel off the queue without looking whether there is one",key="M05.round|asked")
                if ask: c.ob("M05.round",f.where(),(ask[-1].pred=="eq")!=("size" in sv(ask[-1].l).split("(")[0]),"takes a kernel off an empty queue",key="M05.round|empty")
                if null(p,k) is True: continue
                if done: 
                    pp=[j for j in pos(p,POP) if i<j<hi]
                    c.ob("M05.round",f.where(),len(pp)==1,"takes a kernel off the queue %d times"%len(pp),key="M05.round|pop")
                calls=[j for j in pos(p,r"std::function::operator\(\)") if i<j<hi]
                if not isedge and done:
                    c.ob("M05.vertex",f.where(),len(calls)==1 and sv(p.ev[calls[0]].args[1])==k and sv(p.ev[calls[0]].args[0])=="arg2" and sv(p.ev[calls[0]].args[2])=="arg3","the vertex function is called %d times%s"%(len(calls)," with "+sv(p.ev[calls[0]].args[1])[:60] if calls else ""),key="M05.vertex")
                # the ports
                loc={}; its=[]
                for j,e in enumerate(p.ev[:hi]):
                    if e.k=="st" and e.a.startswith("alloca#"): loc[e.a.split(".")[0]]=sv(e.v)
                    if j>i and e.k=="if" and e.r==ZERO:
                        g=re.match(r"std::operator(==|!=)\((alloca#\d+),(alloca#\d+)\)",sv(e.l))
                        if g and not any("::find(" in loc.get(y,"") for y in(g[2],g[3])): its.append((j,(e.pred!="eq")==(g[1]=="==")))
                bg=[j for j in pos(p,r"std::(map|unordered_map)::c?begin") if i<j<hi]
                if done:
                    c.ob("M05.ports",f.where(),len(bg)>=1 and any(k+".output." in sv(p.ev[j].args[-1]) for j in bg),"does not go through the output ports of the kernel taken",key="M05.ports|which")
                    c.ob("M05.ports",f.where(),not its or its[-1][1],"stops before the last output port",key="M05.ports|end")
                for q,(j,end) in enumerate(its):
                    if end: continue
                    if q+1>=len(its) and not done: continue
                    h=its[q+1][0] if q+1<len(its) else hi
                    ports={re.sub(r"\.other_kernel\)$","",sv(e.l))[2:] for e in p.ev[j:h] if e.k=="if" and e.r==ZERO and sv(e.l).endswith(".other_kernel)")}
                    if len(ports)!=1:
                        c.ob("M05.edge",f.where(),len(ports)==1,"whether the port is linked is not looked at",key="M05.edge|linked"); continue
                    P=ports.pop(); ok_="*(%s.other_kernel)"%P
                    un=null(p,ok_)
                    cs=[x for x in calls if j<x<h] if isedge else []
                    pu=[x for x in pos(p,PUSH) if j<x<h and sv(p.ev[x].args[0])=="arg0"]
                    ins=[x for x in pos(p,SETI) if j<x<h and sv(p.ev[x].args[0])=="arg1"]
                    if un is True:
                        c.ob("M05.edge",f.where(),not cs and not pu,"follows a port that is not linked",key="M05.edge|unlinked"); continue
                    if isedge:
                        c.ob("M05.edge",f.where(),len(cs)==1,"the edge function is called %d times for a link"%len(cs),key="M05.edge|count")
                        for x in cs:
                            a=[sv(y) for y in p.ev[x].args]
                            c.ob("M05.edge",f.where(),a[0]=="arg2" and a[1]==P,"the edge function gets %s as source port"%a[1][:80],key="M05.edge|src")
                            gp=[y for y in pos(p,"Port::getPortInfoFor") if y<x and sv(p.ev[y].res)==a[2]]
                            ok=bool(gp) and sv(p.ev[gp[-1]].args[0])==ok_+".input" and Strs(p).at(gp[-1],p.ev[gp[-1]].args[1])==P+".other_name"
                            c.ob("M05.edge",f.where(),ok,"the edge function gets %s as destination port"%a[2][:100],key="M05.edge|dst")
                            c.ob("M05.edge",f.where(),a[3]=="arg3","the edge function gets other data",key="M05.edge|data")
                    s,at=seen(p,j,h,"arg1",ok_)
                    if s is None:
                        c.ob("M05.visit",f.where(),not pu,"queues a kernel without looking whether it has been visited",key="M05.visit|unasked")
                        if not pu: c.ob("M05.visit",f.where(),False,"a linked kernel is neither queued nor looked up",key="M05.visit|lost")
                    elif s is True:
                        c.ob("M05.visit",f.where(),not pu,"queues a kernel again",key="M05.visit|again")
                    else:
                        c.ob("M05.visit",f.where(),len(pu)==1,"a kernel not visited yet is queued %d times"%len(pu),key="M05.visit|queue")
                        c.ob("M05.visit",f.where(),len(ins)>=1,"a queued kernel is not marked as visited",key="M05.visit|mark")
                        for x in pu+ins: c.ob("M05.visit",f.where(),arg(p,x)==ok_,"queues or marks "+arg(p,x)[:80],key="M05.visit|what")
    ranges(c,c.load("sys"),"M05.range",r"GraphTools::.*")

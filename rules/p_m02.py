"""M02: a graph with an unconnected port is rejected before anything runs."""
from sysm import *
TECH="facts along all paths of the checking functions and of the run function, with throwing callees"
NOTE="every path, loops followed three times; sound for the stated rules"
MIN={"M02.all":3,"M02.port":4,"M02.throw":1,"M02.first":3,"M02.sub":2}
START=r"std::thread::thread|(dynalloc|stdalloc)::\1|simple_schedule::simple_schedule|pool_schedule::pool_schedule|Schedule::\w+|Allocate::\w+|partition_\w+::partition|(basic_parallel|no_parallel)::\w+|raft::kernel::run"
def run(c):
    c.rule("M02.all","the check asks every registered kernel and returns only at the end of the set")
    c.rule("M02.port","a kernel passes the check only after each of its inputs and each of its outputs has been found connected")
    c.rule("M02.throw","a port found unconnected ends the check with the unconnected-port error, which nobody swallows or replaces")
    c.rule("M02.first","a run checks all ports before it places kernels, allocates streams or starts a thread, and a failed check ends it")
    c.rule("M02.sub","the kernels of the sub-maps are registered before the check")
    m=c.load("sys")
    AC="raft::kernel::allConnected"
    for f in c.need(m.find(q="raft::map::checkEdges"),"map::checkEdges"):
        c.fn(f); asked=0
        for p in paths(f):
            ask=pos(p,AC); asked+=len(ask)
            it=iterfacts(p)
            for n,(i,end) in enumerate(it):
                if end: continue
                hi=it[n+1][0] if n+1<len(it) else len(p.ev)
                if p.end!="ret": continue
                k=[j for j in ask if i<j<hi]
                # set aside in a local list that is gone through afterwards
                put=[sv(p.ev[j].args[0]) for j in pos(p,r"std::\w+::(push_back|emplace_back)") if i<j<hi]
                if not k and any(x.startswith("alloca") and any(j>=hi and sv(p.ev[j].args[0])==x for j in pos(p,r"std::\w+::c?begin")) for x in put): continue
                c.ob("M02.all",f.where(),len(k)>=1,"a registered kernel is passed over",key="M02.all|skip")
            if p.end=="ret":
                c.ob("M02.all",f.where(),not it or it[-1][1],"returns before the end of the set",key="M02.all|end")
                a=[mem(sv(p.ev[i].args[0])) for i in pos(p,"keeper::acquire")]
                c.ob("M02.all",f.where(),not a or "all_kernels" in a,"checks the kernels of %s"%a,key="M02.all|set")
        c.ob("M02.all",f.where(),asked>0,"no kernel is asked",key="M02.all|any")
        for p in paths(f,unwind=AC):
            t=[e.t for e in p.ev if e.k=="throw"]
            if not t: continue
            c.ob("M02.throw",f.where(),p.end!="ret","swallows the error of a kernel",key="M02.throw|swallow")
            c.ob("M02.throw",f.where(),all(x in("__cxa_rethrow","?"+AC) for x in t),"replaces the error of a kernel by %s"%t[-1],key="M02.throw|replace")
    for f in c.need(m.find(q=AC),"kernel::allConnected"):
        c.fn(f); th=0
        for p in paths(f):
            S=Strs(p)
            if p.end in("throw","resume"):
                n=exname(thrown(p)) if thrown(p) else None
                if n:
                    th+=1
                    c.ob("M02.throw",f.where(),n=="PortUnconnected","a port that is not connected is reported as "+n,key="M02.throw|kind")
                continue
            if p.end!="ret": continue
            its=iterfacts(p); bg=pos(p,r"Port::c?begin")
            if not bg: continue
            for D in("input","output"):
                b=[i for i in bg if sv(p.ev[i].args[-1])=="arg0."+D]
                c.ob("M02.port",f.where(),bool(b),"passes without looking at its %s ports"%D,key="M02.port|"+D)
                for n,i in enumerate(b):
                    hi=min([j for j in bg if j>i]+[len(p.ev)])
                    seg=[x for x in its if i<x[0]<hi]
                    c.ob("M02.port",f.where(),bool(seg) and seg[-1][1],"passes before the last %s port"%D,key="M02.port|end|"+D)
                    for q,(j,end) in enumerate(seg):
                        if end: continue
                        k=seg[q+1][0] if q+1<len(seg) else hi
                        ok=any(e.k=="if" and sv(e.l).endswith(".other_kernel)") and e.pred in("ne","ugt") and e.r==ZERO for e in p.ev[j:k])
                        c.ob("M02.port",f.where(),ok,"an %s port is passed over without having been found connected"%D,key="M02.port|each|"+D)
                        for g in pos(p,"Port::getPortInfoFor"):
                            if not j<g<k: continue
                            c.ob("M02.port",f.where(),sv(p.ev[g].args[0])=="arg0."+D,"looks %s ports up in %s"%(D,sv(p.ev[g].args[0])),key="M02.port|side|"+D)
                            nm=S.at(g,p.ev[g].args[1])
                            mm=re.match(r"PortIterator::name[^(]*\((alloca#\d+)",nm)
                            if mm:
                                o=[sv(e.v) for e in p.ev[:g] if e.k=="st" and e.a.startswith(mm[1]) and "Port::" in sv(e.v)]
                                c.ob("M02.port",f.where(),not o or "arg0."+D in o[-1],"looks up the name of another port",key="M02.port|name|"+D)
        c.ob("M02.throw",f.where(),th>0,"an unconnected port is never reported",key="M02.throw|any")
    CE="raft::map::checkEdges"
    for f in c.need(m.find(q="raft::map::exe"),"map::exe",2):
        c.fn(f)
        for p in paths(f):
            ce=[i for i in pos(p,CE) if sv(p.ev[i].args[0])=="arg0"]
            st=pos(p,START)
            if st: c.ob("M02.first",f.where(),bool(ce) and ce[0]<st[0],"%s before the check"%p.ev[st[0]].q,key="M02.first|order")
            if p.end=="ret": c.ob("M02.first",f.where(),bool(ce),"runs without the check",key="M02.first|any")
            if ce:
                both=[x for x in iterfacts(p) if x[0]<ce[0]]+[(i,e.pred not in("ne","ugt" if "sub_maps" in sv(e.l) else "ult")) for i,e in enumerate(p.ev[:ce[0]]) if e.k=="if" and re.search(r"std::vector::size\(arg0\.sub_maps\)",sv(e.l)+sv(e.r))]
                both=sorted(set(both)); out=lambda i: "sub_maps" in sv(p.ev[i].l)+sv(p.ev[i].r) and "all_kernels" not in sv(p.ev[i].l)+sv(p.ev[i].r)
                it=[x for x in both if out(x[0])] if any(out(x[0]) for x in both) else both
                inner=[x for x in both if x not in it]
                for which in(it,inner):
                    for n,(i,end) in enumerate(which):
                        if end: continue
                        hi=min([x[0] for x in both if x[0]>i and (which is inner or x in it)]+[ce[0]])
                        ins=[j for j in pos(p,r"std::set::(insert|emplace|merge)|keeper::operator\+=") if i<j<hi]
                        ok=which is it and any(i<x[0]<hi for x in inner)
                        for j in ins:
                            a=[slots(p,j,sv(x)) for x in p.ev[j].args]
                            ok=ok or "arg0.all_kernels" in a[0] and (which is inner or any(".all_kernels" in x and "arg0.all_kernels" not in x for x in a[1:]))
                        c.ob("M02.sub",f.where(),ok,"the kernels of a sub-map are not registered before the check",key="M02.sub|skip")
                subs=any("sub_maps" in sv(x) for e in p.ev[:ce[0]] if e.k=="call" for x in e.args)
                c.ob("M02.sub",f.where(),subs,"the sub-maps are not looked at before the check",key="M02.sub|any")
                if it: c.ob("M02.sub",f.where(),it[-1][1],"stops before the last sub-map",key="M02.sub|end")
        for p in paths(f,unwind=CE):
            k=[i for i,e in enumerate(p.ev) if e.k=="throw" and e.t=="?"+CE]
            if not k: continue
            c.ob("M02.first",f.where(),p.end!="ret" and not [i for i in pos(p,START) if i>k[0]],"goes on after a failed check",key="M02.first|fail")
            c.ob("M02.throw",f.where(),all(e.t in("__cxa_rethrow","?"+CE) for e in p.ev if e.k=="throw"),"replaces the error of the check",key="M02.throw|exe")
    ranges(c,c.load("sys"),"M02.range",r"raft::kernel::allConnected|raft::map::checkEdges")

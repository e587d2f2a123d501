"""M01: linking two kernels checks the ports and records a symmetric connection."""
from sysm import *
TECH="values along all paths of the joining, inserting and linking functions"
NOTE="every path of join, insert and both instantiations of link; sound for the stated rules"
MIN={"M01.check":3,"M01.record":4,"M01.fail":2,"M01.link":4,"M01.both":2,"M01.insert":2}
def noname(p,x):
    """was the port name x found empty on the path: True, False, None when nothing was asked of it, '?' when something else was"""
    r=same(p,r"\(%s,|,%s\)"%(x,x))
    if r is not None: return r
    for pr,l,rr in facts(p):
        for a,b in((l,rr),(rr,l)):
            g=re.match(r"std::(?:__cxx11::)?basic_string::(\w+)\(%s\b"%x,sv(a))
            if not g or b!=ZERO: continue
            if g[1]=="empty": return pr!="eq"
            if g[1] in("size","length","compare"): return pr=="eq"
    return "?" if any(re.search(r"\b%s\b"%x,sv(l)+" "+sv(rr)) for _,l,rr in facts(p)) else None
def onlythrows(m,I):
    """names of the exceptions of a function that never returns, else nothing"""
    fn=I.d.get("fn") or getattr(I,"fn",None)
    if not fn or fn not in m.raw: return None
    ps=paths(m.func(fn))
    if not ps or any(p.end=="ret" for p in ps): return None
    return {exname(thrown(p)) for p in ps if thrown(p)} or None
def run(c):
    c.rule("M01.check","a join that returns has found the element types of both ports equal and both ports unlinked")
    c.rule("M01.error","a join of ports of different type throws the type-mismatch error, one of a linked port the double-initialisation error")
    c.rule("M01.fail","a join that throws has changed neither port")
    c.rule("M01.link","a link joins the named ports, an output of the source with an input of the destination, or the only ones where no name was given")
    c.rule("M01.ambiguous","a link without port name of a kernel that has not exactly one such port fails with the ambiguity error and joins nothing")
    c.rule("M01.both","the requested buffer size and ordering are recorded at both ports after the join")
    c.rule("M01.insert","inserting a kernel joins the former source with its input and its output with the former destination, after taking the former link apart")
    c.rule("M01.record","a join that returns has recorded each side's kernel and port name at the other side; a copy of a record carries them")
    m=c.load("sys")
    carried(c,m,"M01.record",("other_kernel","my_kernel"))
    for f in [f for f in m.find(q="PortInfo::PortInfo") if re.search(r"\(PortInfo( const)?&\)",f.dem)]:
        for p in paths(f):
            if p.end!="ret": continue
            for x in("other_name","my_name"):
                k=[e for e in p.ev if e.k=="call" and re.search(r"basic_string::(basic_string|operator=|assign|_M_assign)$",e.q or "") and len(e.args)>=2 and sv(e.args[0])=="arg0."+x]
                st=[sv(e.args[1]) for e in k]
                if st and (len(st)>1 or not st[0].startswith("alloca")): c.ob("M01.record",f.where(),st[-1]=="arg1."+x,"a copy has %s = %s"%(x,st[-1][:60]),key="M01.record|copy|"+x)
    for f in c.need(m.find(q="MapBase::join"),"MapBase::join"):
        c.fn(f)
        A_,AN,AI,B_,BN,BI="arg0","arg1","arg2","arg3","arg4","arg5"
        ok_=("*(%s.other_kernel)"%AI,"*(%s.other_kernel)"%BI)
        for p in paths(f):
            ty=same(p,r"arg2\.type.*arg5\.type|arg5\.type.*arg2\.type")
            na,nb=null(p,ok_[0]),null(p,ok_[1])
            wr=[e for e in p.ev if (e.k=="st" and re.match(r"arg[25]\b",e.a)) or (e.k=="call" and re.fullmatch(STR+r"(operator=|assign|swap|append)",e.q or "") and re.match(r"arg[25]\.",sv(e.args[0])))]
            if p.end=="ret":
                c.ob("M01.check",f.where(),ty is True,"returns without having found the element types equal",key="M01.check|type",path=None)
                c.ob("M01.check",f.where(),na is True,"returns without having found the source port unlinked",key="M01.check|src")
                c.ob("M01.check",f.where(),nb is True,"returns without having found the destination port unlinked",key="M01.check|dst")
                S=Strs(p)
                for i,k,o,on in((AI,B_,"destination",BN),(BI,A_,"source",AN)):
                    v=p.last(i+".other_kernel"); s=S.at(len(p.ev),i+".other_name")
                    c.ob("M01.record",f.where(),v is not None and sv(v)==k,"the other kernel recorded for the %s is %s"%(o,"not written" if v is None else sv(v)),key="M01.record|kernel|"+o)
                    own="arg2" if on==AN else "arg5"
                    c.ob("M01.record",f.where(),s==on or s==own+".my_name","the other port's name recorded for the %s is %s"%(o,s),key="M01.record|name|"+o)
            elif p.end in("throw","resume") and thrown(p):
                t=thrown(p)
                n=exname(t)
                if n.startswith("Port"):
                    c.ob("M01.fail",f.where(),not wr,"throws %s after writing to a port: %s"%(n,wr[:1]),key="M01.fail|"+n)
                if ty is False and not(na is False or nb is False):
                    c.ob("M01.error",f.where(),n=="PortTypeMismatch","ports of different type: throws "+n,key="M01.error|type")
                if (na is False or nb is False) and ty is not False:
                    c.ob("M01.error",f.where(),n=="PortDoubleInitialize","a linked port: throws "+n,key="M01.error|double")
    # insert(a, a_out, b, b_in, i)
    for f in c.need(m.find(q="MapBase::insert"),"MapBase::insert"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            S=Strs(p)
            js=pos(p,"MapBase::join")
            got=[]
            for j in js:
                a=[sv(x) for x in p.ev[j].args]
                got.append((a[0],S.at(j,a[1]),a[2],a[3],S.at(j,a[4]),a[5],j))
            want=[("arg0","arg1","in"),("out","arg2","arg3")]
            def isin(x): return re.match(r"Port::getPortInfo(For)?\(.*\barg4\.input\b",x) is not None
            def isout(x): return re.match(r"Port::getPortInfo(For)?\(.*\barg4\.output\b",x) is not None
            first=[g for g in got if g[0]=="arg0" and g[2]=="arg1" and g[3]=="arg4" and isin(g[5])]
            second=[g for g in got if g[0]=="arg4" and isout(g[2]) and g[3]=="arg2" and g[5]=="arg3"]
            c.ob("M01.insert",f.where(),len(got)==2 and len(first)==1,"the former source is not joined with the input of the inserted kernel: %s"%[g[:6] for g in got],key="M01.insert|first")
            c.ob("M01.insert",f.where(),len(got)==2 and len(second)==1,"the output of the inserted kernel is not joined with the former destination",key="M01.insert|second")
            for g in first+second:
                c.ob("M01.insert",f.where(),g[1]==g[2]+".my_name" and g[4]==g[5]+".my_name","joined under names %s, %s"%(g[1],g[4]),key="M01.insert|names")
            for port in("arg1","arg3"):
                for g in first+second:
                    if port not in(g[2],g[5]): continue
                    st=[e for e in p.ev[:g[6]] if e.k=="st" and e.a==port+".other_kernel" and e.v==ZERO]
                    c.ob("M01.insert",f.where(),bool(st),"the former link of the port is not taken apart before it is joined again",key="M01.insert|reset|"+port)
    links=[f for f in m.find(q="MapBase::link")]
    for f in c.need(links,"MapBase::link",2):
        c.fn(f)
        om=re.search(r"link<\(raft::order::spec\)(\d)>",f.dem)
        order=int(om[1]) if om else None
        # sret arg0, this arg1, a arg2, a_port arg3, b arg4, b_port arg5, size arg6
        for p in paths(f):
            if p.end!="ret": continue
            S=Strs(p)
            js=pos(p,"MapBase::join")
            c.ob("M01.link",f.where(),len(js)==1,"%d joins on a path that returns"%len(js),key="M01.link|one")
            if len(js)!=1: continue
            j=js[0]; raw=[sv(x) for x in p.ev[j].args]; a=[slots(p,j,x) for x in raw]
            for side,k,info,name,karg,parg,dir_ in(("source",a[0],a[2],S.at(j,raw[1]),"arg2","arg3","output"),("destination",a[3],a[5],S.at(j,raw[4]),"arg4","arg5","input")):
                c.ob("M01.link",f.where(),k==karg,"the %s joined is %s"%(side,k),key="M01.link|kernel|"+side)
                g=re.fullmatch(r"Port::getPortInfo(For)?\((\w+)\.(input|output)(?:,(alloca#\d+|arg\d))?\)",info.replace("*(%s)"%karg,karg))
                if not g:
                    c.ob("M01.link",f.where(),not re.match(r"Port::|0$",info),"the %s port is %s"%(side,info[:80]),key="M01.link|port|"+side); continue
                c.ob("M01.link",f.where(),g[2]==karg and g[3]==dir_,"the %s port is looked up in %s.%s"%(side,g[2],g[3]),key="M01.link|port|"+side)
                wasnull=noname(p,parg)
                if g[1]:
                    gi=[i for i in pos(p,"Port::getPortInfoFor") if slots(p,i,sv(p.ev[i].res)) == info] if 0 else pos(p,"Port::getPortInfoFor")
                    nm=[S.at(i,p.ev[i].args[1]) for i in gi if dir_ in sv(p.ev[i].args[0])]
                    c.ob("M01.link",f.where(),nm==[parg],"the %s port is looked up by the name %s"%(side,nm),key="M01.link|name|"+side)
                    c.ob("M01.link",f.where(),wasnull is not True,"looks up the empty %s port name"%side,key="M01.link|null|"+side)
                    c.ob("M01.link",f.where(),wasnull is not None,"looks up the %s port by a name without asking whether one was given"%side,key="M01.link|asked|"+side)
                else:
                    c.ob("M01.link",f.where(),wasnull in(True,"?"),"uses the only %s port although a name was given"%side,key="M01.link|only|"+side)
                nm=slots(p,j,name)
                c.ob("M01.link",f.where(),nm in(parg,) or nm==info+".my_name" or re.sub(r"\*\((alloca#\d+)\)",r"\1",name)==name and name.endswith(".my_name") and dir_ in name,"the %s port is joined under the name %s"%(side,nm[:80]),key="M01.link|joinname|"+side)
                rawinfo=raw[2] if side=="source" else raw[5]
                v=p.last(rawinfo+".fixed_buffer_size")
                at=[i for i,e in enumerate(p.ev) if e.k=="st" and e.a==rawinfo+".fixed_buffer_size"]
                c.ob("M01.both",f.where(),v is not None and sv(v)=="arg6","buffer size recorded at the %s port: %s"%(side,"none" if v is None else sv(v)),key="M01.both|size|"+side)
                c.ob("M01.both",f.where(),all(i>j for i in at),"the buffer size of the %s port changes before the join can fail"%side,key="M01.both|late|"+side)
                v=p.last(rawinfo+".out_of_order")
                c.ob("M01.both",f.where(),v is not None and (order is None or v==K(order)),"ordering recorded at the %s port: %s"%(side,"none" if v is None else sv(v)),key="M01.both|order|"+side)
            for i in pos(p,"kernel_pair_t::kernel_pair_t"):
                x=[slots(p,i,sv(y)) for y in p.ev[i].args[1:]]
                c.ob("M01.link",f.where(),x==["arg2","arg4"],"the pair returned holds %s"%x,key="M01.link|pair")
        # a kernel that has not exactly one port to choose
        for p in paths(f,unwind=r"Port::getPortInfo"):
            u=[i for i,e in enumerate(p.ev) if e.k=="throw" and str(e.t).startswith("?")]
            if not u: continue
            # functions called here that only throw
            for i in range(u[0]+1,len(p.ev)):
                if p.ev[i].k=="call" and (ex:=onlythrows(m,p.ev[i].I)):
                    for n in ex: c.ob("M01.ambiguous",f.where(),"Ambiguous" in n or "NotFound" in n,"a choice that cannot be made throws "+n,key="M01.ambiguous|kind")
                    break
            else: ex=None
            if ex:
                c.ob("M01.ambiguous",f.where(),not [j for j in pos(p,"MapBase::join") if u[0]<j<i],"ports are joined although the kernel has not exactly one to choose",key="M01.ambiguous|join")
                continue
            c.ob("M01.ambiguous",f.where(),p.end!="ret","a link is accepted although the kernel has not exactly one port to choose",key="M01.ambiguous|ret")
            c.ob("M01.ambiguous",f.where(),not [i for i in pos(p,"MapBase::join") if i>u[0]],"ports are joined although the kernel has not exactly one to choose",key="M01.ambiguous|join")
            t=[e.t for e in p.ev[u[0]+1:] if e.k=="throw" and not str(e.t).startswith("?") and e.t!="__cxa_rethrow"]
            if t: t=t[-1]
            if t: c.ob("M01.ambiguous",f.where(),"Ambiguous" in exname(t) or "NotFound" in exname(t),"a choice that cannot be made throws "+exname(t),key="M01.ambiguous|kind")
    for f in m.find(q="MapBase::portNotFound"):
        if not re.search("Ambiguous|PortExceptionBase<3>",f.dem): continue
        c.fn(f)
        for p in paths(f):
            t=exname(thrown(p))
            if p.end=="ret" or t: c.ob("M01.ambiguous",f.where(),"Ambiguous" in t,"a choice among several ports fails with %s"%(t or "no error"),key="M01.ambiguous|several")
    # what a link means that says nothing of order and size
    for f in c.need(m.find(q="probe::u_link_default"),"the plain form of link"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for i in pos(p,"MapBase::link"):
                e=p.ev[i]; om=re.search(r"link<\(raft::order::spec\)(\d)>",m.dem(e.I.fn))
                c.ob("M01.both","raftinc/mapbase.hpp (MapBase::link)",not om or om[1]=="0","a link that does not ask for an order is not kept in order",key="M01.both|defaultorder")
                c.ob("M01.both","raftinc/mapbase.hpp (MapBase::link)",not re.fullmatch(r"-?[1-9]\d*",sv(e.args[-1])),"a link that does not ask for a size gets the fixed size "+sv(e.args[-1]),key="M01.both|defaultsize")

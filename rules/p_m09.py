"""M09: port look-ups return the named port or fail with the right error."""
from sysm import *
TECH="values, facts and thrown types along all paths of the look-up, adding and iterating functions"
NOTE="every path, loops followed three times; sizes compared with constants are evaluated for 0, 1, 2 and 3 ports; sound for the stated rules"
MIN={"M09.find":8,"M09.sole":3,"M09.add":4,"M09.inplace":6,"M09.iter":5,"M09.copy":10}
IT=r"std::_Rb_tree\w*iterator::operator(?:\*|->)"
def origin(p,i,t,depth=0):
    """what the iterator t was made from at event i"""
    if depth>6: return t
    for j in range(i-1,-1,-1):
        e=p.ev[j]
        if e.k=="st" and e.a in(t,t+"._M_node"):
            x=sv(e.v); m=re.fullmatch(r"\*\((alloca#\d+|arg\d[\w.]*?)(\._M_node)?\)",x)
            return origin(p,j,m[1],depth+1) if m else x
        if e.k=="call" and e.args and sv(e.args[0])==t and re.fullmatch(r"std::_Rb_tree\w*iterator::_Rb_tree\w*iterator",e.q or "") and len(e.args)>1:
            x=sv(e.args[1]); return origin(p,j,x,depth+1) if re.match(r"alloca#",x) else x
    return t
def split2(t):
    """top-level arguments of 'f(a,b)'"""
    d=0; out=[""]; 
    for ch in t:
        if ch=="," and d==0: out.append(""); continue
        d+=ch in "([{"; d-=ch in ")]}"; out[-1]+=ch
    return out
def found(p,mp):
    """(result, key) of the look-up in map mp the path made: True found, False not, None not tested; key as text at the event"""
    S=Strs(p); keys=[]
    for i,e in enumerate(p.ev):
        if e.k=="call" and re.fullmatch(r"std::(unordered_)?map::(find|count|at|contains)",e.q or "") and sv(e.args[0])==mp: keys.append((i,e.q.rsplit("::",1)[1],S.at(i,e.args[1])))
    r=None
    for i,e in enumerate(p.ev):
        if e.k!="if": continue
        for a,b in((e.l,e.r),(e.r,e.l)):
            t=sv(a)
            if b!=ZERO and not re.match(r"(std::(unordered_)?map::(c?end|find))\(",t): continue
            m=re.fullmatch(r"std::operator(==|!=)\((.*)\)('\d+)?",t)
            if m:
                xs=[origin(p,i,x) for x in split2(m[2])]
                if any(x.startswith("std::map::find(%s"%mp) for x in xs) and any(re.match(r"std::map::c?end\(%s"%re.escape(mp),x) for x in xs):
                    v=(e.pred!="eq")==(m[1]=="=="); r=not v
            m=re.match(r"std::(unordered_)?map::(count|contains)\(%s,"%re.escape(mp),t)
            if m: r=e.pred!="eq" if e.pred in("eq","ne") else True if e.pred in("ugt","sgt") else r
    return r,keys
def compared(p):
    """the path found some name equal to the one asked for"""
    for pr,l,r in facts(p):
        if r==ZERO and re.match(r".*operator==",sv(l)) and "basic_string" in sv(l)+"" or r==ZERO and re.search(r"operator==.*\.first,arg1|operator==.*arg1,.*\.first",sv(l)):
            if pr!="eq": return True
        if r==ZERO and re.search(r"(operator!=|compare).*\.first,arg1|(operator!=|compare).*arg1,.*\.first",sv(l)) and pr=="eq": return True
    return False
def delegated(p):
    """(event, name) of a look-up left to another function of the port"""
    for i,e in enumerate(p.ev):
        if e.k=="call" and (e.q or "") in("Port::getPortInfoFor","Port::operator[]") and sv(e.args[0])=="arg0": return i,e.args[-1]
FLIP={"ult":"ugt","ugt":"ult","ule":"uge","uge":"ule","slt":"sgt","sgt":"slt","sle":"sge","sge":"sle","eq":"eq","ne":"ne"}
def holds(pr,a,b): return {"eq":a==b,"ne":a!=b,"ult":a<b,"slt":a<b,"ugt":a>b,"sgt":a>b,"ule":a<=b,"sle":a<=b,"uge":a>=b,"sge":a>=b}[pr]
def feasible(p,mp,n):
    """can the path be taken when map mp has n entries?"""
    for pr,l,r in facts(p):
        if not r[0]==() and not r[0]==[] and len(r[0])>0: l,r,pr=r,l,FLIP[pr]
        if r[0]: continue
        t=sv(l)
        if re.fullmatch(r"std::(unordered_)?map::size\(%s\)('\d+)?|Port::count\(arg0\)('\d+)?|std::(__)?distance\(.*\)('\d+)?"%re.escape(mp),t):
            if not holds(pr,n,r[1]): return False
        elif re.fullmatch(r"std::(unordered_)?map::empty\(%s\)('\d+)?"%re.escape(mp),t) and r[1]==0:
            if (pr=="eq")==(n==0): return False
    return True
def retv(p):
    r=[e for e in p.ev if e.k=="ret"]
    return r[-1].v if r else None
INS=r"std::(unordered_)?map::(insert|emplace|try_emplace)"
def record(c,f,p,i,rule):
    """the record entered by event i: (name, local of the port record)"""
    S=Strs(p); e=p.ev[i]; a=[sv(x) for x in e.args[1:]]
    if len(a)==1:
        nm=S.at(i,a[0])
        if nm==a[0]:
            st=[sv(x.v) for x in p.ev[:i] if x.k=="st" and x.a in(a[0],a[0]+".first")]
            nm=st[-1] if st else nm
        nm=re.sub(r"\[0\]$","",nm); src=a[0]+".second"
    else: nm=S.at(i,a[0]); src=a[1]
    # back through copies of the record
    for j in range(i-1,-1,-1):
        x=p.ev[j]
        if x.k=="call" and x.q=="PortInfo::PortInfo" and sv(x.args[0])==src and len(x.args)==2 and sv(x.args[1]).startswith("alloca#"): src=sv(x.args[1])
    return nm,src
def first_targ(dem):
    """the first template argument of a function"""
    x=re.search(r"Port::\w+<",dem); o=""; d=0
    if not x: return None
    for ch in dem[x.end():]:
        if ch in ",>" and d==0: break
        d+=ch in "<("; d-=ch in ">)"; o+=ch
    return o.strip()
def fields(c,f,p,i,src,nm,rule):
    S=Strs(p)
    # the last construction of the local before the insertion
    b=max([j for j in range(i) if p.ev[j].k=="call" and p.ev[j].q=="PortInfo::PortInfo" and sv(p.ev[j].args[0])==src],default=None)
    c.ob(rule,f.where(),b is not None,"the record entered is %s"%src,key=rule+"|record|"+f.dem)
    if b is None: return None
    k=[sv(e.v) for e in p.ev[b:i] if e.k=="st" and e.a==src+".my_kernel"]
    c.ob(rule,f.where(),bool(k) and k[-1]=="*(arg0.kernel)","the port's kernel is %s"%(k[-1] if k else "not set"),key=rule+"|kernel|"+f.dem)
    nn=re.sub(r"\[0\]$","",S.at(i,src+".my_name"))
    c.ob(rule,f.where(),nn==nm,"the port is called %s and entered as %s"%(nn,nm),key=rule+"|name|"+f.dem)
    t=re.fullmatch(r"g:(_ZTI\w+)",sv(p.ev[b].args[1])) if len(p.ev[b].args)>1 else None
    el=re.match(r"_ZN4Port(\d+)",f.m)
    if el: el=re.compile("I").match(f.m,el.end()+int(el[1]))
    if t and el and not re.search(r"S\d*_",t[1]):
        c.ob(rule,f.where(),f.m[el.end():].startswith(t[1][4:]),"a port of %s is recorded as one of %s"%(first_targ(f.dem),t[1][4:]),key=rule+"|type|"+f.dem)
    for what in("initializeConstMap",):
        c.ob(rule,f.where(),any(e.k=="call" and (e.q or "")=="Port::"+what and sv(e.args[1])==src for e in p.ev[b:i]) or any(e.k=="call" and src+".const_map" in sv(e.args[0]) for e in p.ev[b:i] if e.k=="call" and e.args and re.search(r"insert|emplace|operator\[\]",e.q or "")),"the record knows no streams",key=rule+"|streams|"+f.dem)
    for what,fld in(("initializeSplit","split_func"),("initializeJoin","join_func")):
        ok=any(e.k=="call" and ((e.q or "")=="Port::"+what and sv(e.args[1])==src or any(sv(x)==src+"."+fld for x in e.args)) or e.k=="st" and e.a.startswith(src+"."+fld) for e in p.ev[b:i])
        c.ob(rule,f.where(),ok,"a port is entered without its %s"%fld,key=rule+"|%s|"%fld+f.dem)
    return p.ev[b]
def extr(p,i):
    """did the insertion at event i enter something? None: not looked at"""
    for e in p.ev[i:]:
        if e.k!="if": continue
        for a,b in((e.l,e.r),(e.r,e.l)):
            if b==ZERO and re.match(r"extractvalue\(std::(unordered_)?map::(insert|emplace|try_emplace)\(",sv(a)): return e.pred!="eq"
    return None
def inplace(c,m,R):
    """in-place ports cut the memory given into consecutive segments that cover it"""
    MP="arg0.portmap.map"
    for f in c.need(m.find(q="Port::addInPlacePorts"),"Port::addInPlacePorts"):
        c.fn(f)
        for p in paths(f):
            ins=[i for i in pos(p,INS) if sv(p.ev[i].args[0])==MP]
            for k,i in enumerate(ins):
                nm,src=record(c,f,p,i,R)
                tn=[e for e in p.ev[:i] if e.k=="call" and re.search(r"to_string$",e.q or "") and e.args and sv(e.args[0])==nm]
                lst=[e for e in tn][-1:] 
                c.ob(R,f.where(),bool(lst) and sv(lst[0].args[1])==str(k),"port %d is entered as %s"%(k,sv(lst[0].args[1]) if lst else nm),key=R+"|name|"+f.dem)
                b=fields(c,f,p,i,src,nm,R)
                if b is None: continue
                if len(b.args)<5:
                    c.ob(R,f.where(),False,"the record is made without its memory",key=R+"|memory|"+f.dem); continue
                ptr,n,st=b.args[2],b.args[3],b.args[4]
                A=[t for t,_ in n[0] if t.startswith("udiv(")]+[t for t,_ in st[0] if t.startswith("udiv(")]
                lastf=None
                for pr,l,r in facts(p,p.ev.index(b)):
                    for a,bb in((l,r),(r,l)):
                        d={sv(a),sv(bb)}
                        if d=={str(k),"arg1-1"} or d=={str(k+1),"arg1"}:
                            if pr in("eq","ne"): lastf=(pr=="eq")
                c.ob(R,f.where(),st[1]==0 and (k==0 and not st[0] or len(st[0])==1 and st[0][0][0].startswith("udiv(") and st[0][0][0].endswith(";arg1)") and st[0][0][1]==k),"segment %d starts at %s"%(k,sv(st)),key=R+"|start|"+f.dem)
                ty=re.search(r"<(.*)>",f.dem); w={"long":8,"int":4,"short":2,}.get(ty[1] if ty else "")
                lw=re.search(r"udiv\(\*\(arg0\.alloc_ptr_length\);(\d+)\)",sv(st)+sv(n))
                if w is None and lw: w=int(lw[1])
                # how far one step of an index goes: an element, or a byte when the memory is taken for bytes
                step={q["sz"] for I in f.insts() if I.op=="getelementptr" for q in I["path"] if q["k"]=="idx" and "sz" in q and "v" in (q["v"] if isinstance(q["v"],dict) else {})}
                want={"*(arg0.alloc_ptr)" if k==0 else "*(arg0.alloc_ptr)[%s]"%sv(st)} if w is None or not step or w in step else set()
                if w and 1 in step: want|={"*(arg0.alloc_ptr)" if not st[0] else "*(arg0.alloc_ptr)[%s]"%sv((tuple((a,x*w) for a,x in st[0]),st[1]*w))}
                c.ob(R,f.where(),sv(ptr) in want,"segment %d begins at %s, index %s"%(k,sv(ptr),sv(st)),key=R+"|pointer|"+f.dem)
                full=[x for x in n[0] if x[0].startswith("udiv(") and x[0].endswith(";arg1)") and x[1]==1]
                rem=[x for x in n[0] if x[0].startswith("urem(") and x[0].endswith(";arg1)") and x[1]==1]
                if lastf is True:
                    ok=n[1]==0 and (len(n[0])==2 and full and rem or sv(n).count("udiv(")>=1 and len(n[0])==1+(k>0) and any(x[0].startswith("udiv(*(arg0.alloc_ptr_length)") and x[1]==1 for x in n[0]) and (k==0 or any(x[0].endswith(";arg1)") and x[1]==-k for x in n[0])))
                    c.ob(R,f.where(),bool(ok),"the last segment has %s elements"%sv(n)[:120],key=R+"|last|"+f.dem)
                elif lastf is False:
                    c.ob(R,f.where(),n[1]==0 and len(n[0])==1 and bool(full),"segment %d has %s elements"%(k,sv(n)[:120]),key=R+"|length|"+f.dem)
                else: c.ob(R,f.where(),bool(rem) is False and not(n[1]==0 and len(n[0])==1 and full) ,"the last segment gets no remainder",key=R+"|unseen|"+f.dem)
                ty=re.search(r"<(.*)>",f.dem); w={"long":8,"int":4,"short":2,}.get(ty[1] if ty else "")
                if w: c.ob(R,f.where(),all("udiv(*(arg0.alloc_ptr_length);%d)"%w in x[0] for x in st[0]+n[0] if x[0].startswith("u") and "alloc_ptr_length" in x[0]),"elements of %d bytes are counted as %s"%(w,sv(n)[:80]),key=R+"|size|"+f.dem)
                dv=[x[0] for x in st[0]+n[0] if x[0].startswith("udiv(") and x[0].endswith(";arg1)")]
                c.ob(R,f.where(),all("*(arg0.alloc_ptr_length)" in x for x in dv),"segments are cut from "+str(dv)[:90],key=R+"|cut|"+f.dem)
            if p.end=="ret":
                fs=[(pr,l,r) for pr,l,r in facts(p)]
                n=len(ins)
                # the facts of a returning path fix the number of ports asked for
                done=any(not l[0] and sv(r)=="arg1" and l[1]==n and pr in("uge","eq","sge") or sv(l)=="arg1" and not r[0] and r[1]==n and pr in("ule","eq","sle") for pr,l,r in fs)
                look=any("arg1"==sv(x) for pr,l,r in fs for x in(l,r))
                if look: c.ob(R,f.where(),done,"makes %d ports of another number"%n,key=R+"|number|"+f.dem)
            if p.end in("ret","resume","throw") and ins:
                for j,i in enumerate(ins):
                    hi=ins[j+1] if j+1<len(ins) else len(p.ev)
                    new=None
                    for e in p.ev[i:hi]:
                        if e.k=="if" and re.match(r"extractvalue\(std::(unordered_)?map::(insert|emplace|try_emplace)\(",sv(e.l)) and e.r==ZERO: new=e.pred!="eq"
                    if new is None: c.ob(R,f.where(),False,"does not notice a name that is taken",key=R+"|taken|"+f.dem)
                    elif new is False: c.ob(R,f.where(),exname(thrown(p))=="PortAlreadyExists","name taken: %s"%(exname(thrown(p)) or "goes on"),key=R+"|taken|"+f.dem)
                    elif j==len(ins)-1: c.ob(R,f.where(),thrown(p) is None,"name free: throws %s"%thrown(p),key=R+"|free|"+f.dem)
def run(c):
    c.rule("M09.find","a look-up by name searches the port map for that name, fails with the not-found error iff it is not there, and otherwise yields the entry found")
    c.rule("M09.sole","the sole port is the only entry; none is a not-found error, several an ambiguity error")
    c.rule("M09.count","the count and the has-ports predicate tell the size of the port map")
    c.rule("M09.add","adding a port fails with the already-exists error iff the name is taken, replaces nothing, and enters a record with the kernel, the name and the type")
    c.rule("M09.inplace","in-place ports are named by their index and cut the given memory into consecutive segments that cover it")
    c.rule("M09.iter","iteration starts at the first port, ends after the last, advances by one, and shows name and stream of the current one")
    c.rule("M09.copy","a copied port record keeps every field that describes the port")
    m=c.load("sys"); MP="arg0.portmap.map"
    for q,suf in(("Port::operator[]","fifo"),("Port::getPortType",".type"),("Port::getPortInfoFor","")):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            c.ob("M09.find",f.where(),any(p.end=="ret" for p in paths(f)),"yields no port whatever the name",key="M09.find|never|"+f.dem)
            for p in paths(f):
                fd,keys=found(p,MP)
                for i,n,k in keys: c.ob("M09.find",f.where(),k=="arg1","searches for %s"%k,key="M09.find|key|"+f.dem)
                if p.end not in("ret","throw","resume"): continue
                t=exname(thrown(p)) or None
                if fd is False: c.ob("M09.find",f.where(),t=="PortNotFound","name not there: %s"%(t or "returns"),key="M09.find|absent|"+f.dem)
                elif fd is True:
                    c.ob("M09.find",f.where(),t is None,"name there: throws %s"%t,key="M09.find|present|"+f.dem)
                elif t is None and not compared(p) and not delegated(p): c.ob("M09.find",f.where(),any(n=="at" for _,n,_ in keys),"returns without knowing whether the name is there",key="M09.find|unseen|"+f.dem)
                dg=delegated(p)
                if dg: c.ob("M09.find",f.where(),Strs(p).at(*dg)=="arg1","searches for %s"%Strs(p).at(*dg),key="M09.find|key|"+f.dem)
                if p.end=="ret" and t is None:
                    v=sv(retv(p)); v0=v
                    if suf=="fifo":
                        x=re.fullmatch(r"PortInfo::getFIFO\((.*)\)('\d+)?",v)
                        if x: v=x[1]
                        else:
                            x=re.fullmatch(r"\*\((.*)\.fifo_[ab]\)",v); v=x[1] if x else None
                    elif suf and v.endswith(suf): v=v[:-len(suf)]
                    elif suf: v=None
                    ok=False
                    if v is not None:
                        x=re.fullmatch(IT+r"\((.*?)\)('\d+)?\.second",v)
                        if x: ok=origin(p,len(p.ev),x[1]).startswith("std::map::find(%s,"%MP) or compared(p)
                        elif re.match(r"Port::(getPortInfoFor|operator\[\])\(arg0,",v): ok=True
                        elif x is None and compared(p): ok=True
                        elif re.match(r"std::map::at\(%s,"%re.escape(MP),v): ok=True
                    c.ob("M09.find",f.where(),ok,"yields %s"%v0[:100],key="M09.find|value|"+f.dem)
    for f in c.need(m.find(q="Port::getPortInfo"),"Port::getPortInfo"):
        c.fn(f); ps=list(paths(f))
        for n in range(4):
            fs=[p for p in ps if feasible(p,MP,n) and p.end in("ret","throw","resume")]
            for p in fs:
                t=exname(thrown(p)) or None; want={0:"PortNotFound",1:None}.get(n,"AmbiguousPortAssignment")
                c.ob("M09.sole",f.where(),t==want,"%d ports: %s"%(n,t or "returns a port"),key="M09.sole|%d"%n)
                if n==1 and p.end=="ret":
                    v=sv(retv(p)); x=re.fullmatch(IT+r"\((.*?)\)('\d+)?\.second",v)
                    o=origin(p,len(p.ev),x[1]) if x else ""
                    c.ob("M09.sole",f.where(),re.match(r"std::map::c?begin\(%s\)"%re.escape(MP),o) is not None,"yields "+v[:90],key="M09.sole|value")
    for f in c.need(m.find(q="Port::count"),"Port::count"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret":
                v=sv(retv(p)); c.ob("M09.count",f.where(),re.fullmatch(r"std::map::size\(%s\)('\d+)?|phi.*|std::distance.*"%re.escape(MP),v) is not None,"counts "+v[:80],key="M09.count|count")
    for f in c.need(m.find(q="Port::hasPorts"),"Port::hasPorts"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=retv(p)
            c.ob("M09.count",f.where(),not re.search(r"\*\(arg0\.(?!portmap)",sv(v)),"looks at %s instead of the ports"%sv(v)[:80],key="M09.count|else")
            for n in range(4):
                if feasible(p,MP,n) and not v[0]: c.ob("M09.count",f.where(),(v[1]!=0)==(n>0),"%d ports: %s"%(n,v[1]),key="M09.count|has|%d"%n)
    # adding
    for f in c.need(m.find(q="Port::add_port"),"Port::add_port"):
        c.fn(f)
        for p in paths(f):
            if p.end not in("ret","throw","resume"): continue
            fd,_=found(p,MP); ins=pos(p,INS); t=exname(thrown(p)) or None
            for i,e in enumerate(p.ev):
                if e.k=="call" and e.args and sv(e.args[0])==MP and re.fullmatch(r"std::(unordered_)?map::(insert_or_assign|erase|clear|extract|operator=|operator\[\])",e.q or ""):
                    c.ob("M09.add",f.where(),fd is False and not e.q.endswith(("erase","clear","extract","operator=")),"may replace a port (%s)"%e.q,key="M09.add|replace|"+f.dem)
            ins=[i for i in ins if sv(p.ev[i].args[0])==MP]
            new=extr(p,ins[-1]) if ins else None
            if fd is False and new is False or fd is True and new is True: continue    # contradictory: one thread adds ports
            taken=(fd is True) or (new is False)
            free=(fd is False) or (new is True)
            if taken and not free: c.ob("M09.add",f.where(),t=="PortAlreadyExists","name taken: %s"%(t or "returns"),key="M09.add|taken|"+f.dem)
            elif free: c.ob("M09.add",f.where(),t is None and len(ins)==1,"name free: %s, %d entries made"%(t or "returns",len(ins)),key="M09.add|free|"+f.dem)
            else: c.ob("M09.add",f.where(),False,"does not notice a name that is taken",key="M09.add|unseen|"+f.dem)
            for i in ins:
                nm,src=record(c,f,p,i,"M09.add")
                c.ob("M09.add",f.where(),nm=="arg1","enters the port as %s"%nm,key="M09.add|key|"+f.dem)
                fields(c,f,p,i,src,nm,"M09.add")
    for f in c.need(m.find(q="Port::addPort"),"Port::addPort"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            a=sorted(sv(p.ev[i].args[1]) for i in pos(p,"Port::add_port"))
            want=["arg%d"%k for k in range(1,len(f.args))]
            c.ob("M09.add",f.where(),a==want,"adds %s of %s"%(a,want),key="M09.add|each|"+f.dem)
    inplace(c,m,"M09.inplace")
    # iteration
    for f in c.need(m.find(q="Port::begin"),"Port::begin"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            k=[e for e in p.ev if e.k=="call" and e.q=="PortIterator::PortIterator"]
            c.ob("M09.iter",f.where(),len(k)==1 and sv(k[0].args[1])=="arg0.portmap" and (len(k[0].args)==2 or sv(k[0].args[2])=="0"),"begins at %s"%[repr(e) for e in k],key="M09.iter|begin")
    for f in c.need(m.find(q="Port::end"),"Port::end"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            k=[e for e in p.ev if e.k=="call" and e.q=="PortIterator::PortIterator"]
            c.ob("M09.iter",f.where(),len(k)==1 and sv(k[0].args[1])=="arg0.portmap" and len(k[0].args)==3 and re.fullmatch(r"std::map::size\(arg0.portmap.map\)('\d+)?|Port::count\(arg0\)('\d+)?",sv(k[0].args[2])) is not None,"ends at %s"%[repr(e) for e in k],key="M09.iter|end")
    for f in c.need(m.find(q="PortIterator::PortIterator"),"PortIterator constructors",2):
        if not f.dem.count("portmap_t"): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            o=origin(p,len(p.ev),"arg0.map_iterator")
            inc=len(pos(p,r"std::_Rb_tree\w*iterator::operator\+\+")); dec=len(pos(p,r"std::_Rb_tree\w*iterator::operator--"))
            if dec: continue
            two=len(f.args)>2
            if not two: c.ob("M09.iter",f.where(),re.match(r"std::map::c?begin\(arg1\.map\)",o) is not None and inc==0,"starts at "+o[:80],key="M09.iter|first"); continue
            size=None; val=None
            for pr,l,r in facts(p):
                if pr not in("eq","ne"): continue
                for a,b in((l,r),(r,l)):
                    if sv(a)=="arg2" and re.match(r"std::map::size\(arg1\.map\)",sv(b)): size=pr=="eq"
                if pr=="eq":
                    d=dict(l[0]); 
                    if d=={"arg2":1} and not r[0]: val=r[1]-l[1]
            if re.match(r"std::map::c?end\(arg1\.map\)",o): c.ob("M09.iter",f.where(),size is True and inc==0,"is at the end for another index than the size",key="M09.iter|index|end")
            elif re.match(r"std::map::c?begin\(arg1\.map\)",o):
                if val is not None: c.ob("M09.iter",f.where(),val==inc,"is at port %d for index %d"%(inc,val),key="M09.iter|index|advance")
            else: c.ob("M09.iter",f.where(),False,"starts at "+o[:80],key="M09.iter|index|where")
    for f in c.need(m.find(q="PortIterator::operator++"),"PortIterator::operator++"):
        c.fn(f)
        for p in paths(f):
            if p.end=="ret":
                k=[sv(e.args[0]) for e in p.ev if e.k=="call" and re.fullmatch(r"std::_Rb_tree\w*iterator::operator(\+\+|--)",e.q or "") and e.q.endswith("++")]
                k2=pos(p,r"std::_Rb_tree\w*iterator::operator--")
                nx=any(e.k=="st" and e.a.startswith("arg0.map_iterator") for e in p.ev)
                if not nx: c.ob("M09.iter",f.where(),k==["arg0.map_iterator"] and not k2,"advances %s"%k,key="M09.iter|advance")
                else: c.ob("M09.iter",f.where(),len(k)==1 and not k2,"advances %d times"%len(k),key="M09.iter|advance")
    for q,neg in(("PortIterator::operator==","=="),("PortIterator::operator!=","!=")):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                v=sv(retv(p)); x=re.fullmatch(r"std::operator(==|!=)\((.*)\)('\d+)?",v)
                same=None
                dr=[sv(e.args[0]) for e in p.ev if e.k=="call" and re.search(r"iterator::operator(\*|->)$",e.q or "")]
                c.ob("M09.iter",f.where(),not dr,"comparing looks at the port %s stands at, which may be behind the last one"%dr,key="M09.iter|deref|"+neg)
                if x and set(split2(x[2]))=={"arg0.map_iterator","arg1.map_iterator"}: same=x[1]
                if x: c.ob("M09.iter",f.where(),same==neg,"compares as "+v[:80],key="M09.iter|"+neg)
                elif not retv(p)[0]:
                    for pr,l,r in facts(p):
                        y=re.fullmatch(r"(?:std|PortIterator)::operator(==|!=)\((.*)\)('\d+)?",sv(l))
                        if y and r==ZERO:
                            eq=(pr!="eq")==(y[1]=="==")
                            c.ob("M09.iter",f.where(),(retv(p)[1]!=0)==(eq==(neg=="==")),"compares wrongly",key="M09.iter|"+neg)
    for rx,suf in((r"PortIterator::name(\[abi:cxx11\])?",".first"),(r"PortIterator::operator\*",".second")):
        for f in c.need(m.find(rx=rx),rx):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret" or retv(p) is None: continue
                v=sv(retv(p)); v0=v
                x=re.fullmatch(r"PortInfo::getFIFO\((.*)\)('\d+)?",v); v=x[1] if x else v
                x=re.fullmatch(IT+r"\(arg0\.map_iterator\)('\d+)?"+re.escape(suf)+(r"(\..*)?" if suf==".second" else ""),v)
                c.ob("M09.iter",f.where(),x is not None,"shows "+v0[:90],key="M09.iter|show"+suf)
    # copies of a record
    F=["fifo_a","fifo_b","type","const_map","split_func","join_func","my_kernel","my_name","other_kernel","other_name","out_of_order","existing_buffer","nitems","start_index","fixed_buffer_size"]
    for f in c.need([f for f in m.find(q="PortInfo::PortInfo") if re.search(r"\(PortInfo const&\)|\(PortInfo&&\)",f.dem)],"PortInfo copy constructor"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            big=any(e.k=="call" and re.match(r"mem(cpy|move)",e.q or "") and (e.args[2][0] or e.args[2][1]>8) for e in p.ev)
            for n in F:
                ok=None
                for e in p.ev:
                    if e.k=="st" and e.a in("arg0."+n,"arg0.%s._M_target"%n): ok=sv(e.v) in("*(arg1.%s)"%n,"*(arg1.%s._M_target)"%n)
                    elif e.k=="call" and e.args and sv(e.args[0])=="arg0."+n and not re.search(r"~",e.q or ""): ok=len(e.args)>1 and sv(e.args[1])=="arg1."+n
                c.ob("M09.copy",f.where(),ok or (ok is None and big),"the copy's %s is not the original's"%n,key="M09.copy|"+n)

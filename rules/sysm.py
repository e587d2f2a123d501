"""Helpers for rules on the map, ports and schedulers."""
from paths import *
EXC=r"_ZTI17PortExceptionBaseILi%dEE"
def exc(n): return re.compile(EXC%n)
def exname(t):
    m=re.match(r"_ZTI17PortExceptionBaseILi(\d)EE",t or "")
    return ["PortNotFound","PortDoubleInitialize","PortTypeMismatch","AmbiguousPortAssignment","ClosedPortAccess","NoMoreData","PortAlreadyExists","PortUnconnected"][int(m[1])] if m else (t or "")
def thrown(p):
    """type thrown at the end of the path, None when it returns"""
    t=None
    if p.end in("throw","resume"):
        for e in p.ev:
            if e.k=="throw": t=e.t
    return t
STR=r"std::(__cxx11::)?basic_string::"
class Strs:
    """what every string object on the path was copied from: at(i,x) just before event i"""
    def __init__(s,p):
        s.p=p; s.log=[]; cur={}
        for i,e in enumerate(p.ev):
            s.log.append(dict(cur))
            if e.k!="call": continue
            q=e.q or ""
            if re.fullmatch(STR+r"(basic_string|operator=|assign)",q) and len(e.args)>=2:
                x=sv(e.args[1]); cur[sv(e.args[0])]=cur.get(x,x)
        s.log.append(cur)
    def at(s,i,x):
        t=sv(x) if not isinstance(x,str) else x
        return s.log[i].get(t,t)
def slots(p,i,t):
    """origin of the content of a local at event i: '*(alloca#7)' -> what was stored there last, calls aside"""
    def sub(m):
        a=m[1]; r=None
        for e in p.ev[:i]:
            if e.k=="st" and e.a==a: r=sv(e.v)
        return r if r is not None else m[0]
    return re.sub(r"\*\((alloca#\d+)\)",sub,t)
def idx(p,e): return p.ev.index(e)
def pos(p,rx,k=None):
    """positions of the calls matching rx"""
    return [i for i,e in enumerate(p.ev) if e.k=="call" and re.fullmatch(rx,e.q or "")]
def facts(p,upto=None):
    return [(e.pred,e.l,e.r) for e in p.ev[:upto] if e.k=="if"]
def null(p,x,upto=None):
    """True: the path found x null, False: non-null, None: it did not look"""
    for pr,l,r in facts(p,upto):
        for a,b in((l,r),(r,l)):
            if sv(a)==x and b==ZERO:
                if pr=="eq": return True
                if pr in("ne","ugt"): return False
    return None
def same(p,rx,upto=None):
    """outcome of an equality test by a call whose rendering matches rx: True equal, False different, None untested"""
    for pr,l,r in facts(p,upto):
        for a,b in((l,r),(r,l)):
            t=sv(a)
            m=re.fullmatch(r"(.*operator(==|!=).*?)\((.*)\)",t)
            if not m or b!=ZERO or not re.search(rx,t): continue
            v=(pr!="eq")
            return v if m[2]=="==" else not v
    return None
def mem(x):
    """last member name of an address: '*(arg0.kernel_set)' -> kernel_set"""
    m=re.search(r"\.(\w+)\)*$",x); return m[1] if m else x
def kept(p):
    """[(position, set name, kernel)] of the additions to kernel sets on the path"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="call": continue
        if re.fullmatch(r"keeper::(operator\+=|unsafeAdd)",e.q or ""): r.append((i,mem(sv(e.args[0])),slots(p,i,sv(e.args[1]))))
        elif re.fullmatch(r"std::set::(emplace|insert|emplace_hint)",e.q or "") and re.match(r"keeper::acquire\(",sv(e.args[0])):
            x=slots(p,i,"*(%s)"%sv(e.args[-1])) if sv(e.args[-1]).startswith("alloca#") else sv(e.args[-1])
            r.append((i,mem(re.sub(r"('\d+)$","",sv(e.args[0]))[:-1]),x))
    return r
def callok(p,rx,arg,upto=None):
    """outcome of the predicate call rx(arg): True non-zero, False zero, None untested"""
    for pr,l,r in facts(p,upto):
        for a,b in((l,r),(r,l)):
            if b==ZERO and re.fullmatch(r"(%s)\(%s\)('\d+)?"%(rx,re.escape(arg)),sv(a)):
                return pr!="eq"
    return None
END=[("std::operator!=",r"std::operator!=\(.*\)('\d+)?$",False),("std::operator==",r"std::operator==\(.*\)('\d+)?$",True),
     ("PortIterator::operator!=",r"PortIterator::operator!=\(.*\)('\d+)?$",False),("PortIterator::operator==",r"PortIterator::operator==\(.*\)('\d+)?$",True)]
def iterfacts(p):
    """[(position, at end?)] of the comparisons of an iterator with the end, those that ask how a look-up went aside"""
    r=[]; loc={}
    for i,e in enumerate(p.ev):
        if e.k=="st" and e.a.startswith("alloca#"): loc[e.a.split(".")[0]]=sv(e.v)
        if e.k!="if": continue
        if any("::find(" in loc.get(y,"") for y in re.findall(r"alloca#\d+",sv(e.l)) if re.match(r"std::operator[!=]=\(",sv(e.l))): continue
        l,rr=sv(e.l),sv(e.r)
        if e.r==ZERO:
            for n,rx,eqend in END:
                if l.startswith(n+"(") and "basic_string" not in l and "str:" not in l and "g:" not in l and re.match(rx,l):
                    r.append((i,(e.pred!="eq")==eqend)); break
        elif re.search(r"::(c?begin|c?end|iterator)",l+rr) and e.pred in("eq","ne"): r.append((i,e.pred=="eq"))
    return r
def const(m,name):
    """value of a library enumerator, from the probes in frontend/inst.cpp"""
    for f in m.find(rx=r".*probe_const_%s(\(\))?"%name):
        for p in paths(f):
            for e in p.ev:
                if e.k=="ret" and e.v is not None and not e.v[0]: return e.v[1]
    return None
RELOP={"eq":lambda a,b:a==b,"ne":lambda a,b:a!=b,"ult":lambda a,b:a<b,"slt":lambda a,b:a<b,"ugt":lambda a,b:a>b,"sgt":lambda a,b:a>b,"ule":lambda a,b:a<=b,"sle":lambda a,b:a<=b,"uge":lambda a,b:a>=b,"sge":lambda a,b:a>=b}
def possible(p,t,vals,upto=None,frm=0):
    """values among vals that the rendered term t may have on the path, by its comparisons with constants; None when it is never compared"""
    r=set(vals); seen=False
    for e in p.ev[frm:upto]:
        if e.k!="if" or e.pred not in RELOP: continue
        for a,b,fl in((e.l,e.r,0),(e.r,e.l,1)):
            if a is None or b is None or b[0] or not a[0]: continue
            k=0
            if sv(a)!=t:
                k=a[1]
                if not k or sv((a[0],0))!=t: continue
            seen=True; w=(1<<64)-1 if e.pred[0]=="u" or k and e.pred[0]!="s" else -1
            r={v for v in r if (RELOP[e.pred]((v+k)&w,b[1]&w) if not fl else RELOP[e.pred](b[1]&w,(v+k)&w))}
    return r if seen else None
def virt(rx): return r"(virtual::(\{[^}]*?\b(%s)\b[^}]*\}|(%s))|FIFO::(%s))"%(rx,rx,rx)
def vcalls(p,rx,upto=None):
    """[(position, object, rendered result)] of calls of a member function of streams, virtual or not"""
    r=[]
    for i,e in enumerate(p.ev[:upto]):
        if e.k=="call" and e.args and re.fullmatch(virt(rx),e.q or ""): r.append((i,sv(e.args[0]),sv(e.res) if e.res is not None else None))
    return r
def side(p,i,x):
    """which ports the element x comes from: last member named where its iterator began, None when unknown"""
    for a in re.findall(r"alloca#\d+",x):
        for e in reversed(p.ev[:i]):
            if e.k=="st" and (e.a==a or e.a.startswith(a+".")):
                m=re.fullmatch(r"(?:Port|std::\w+)::c?begin\((.*)\)('\d+)?",sv(e.v))
                if m: return m[1]
    return None
def retval(p):
    """constant returned, None when not constant"""
    for e in reversed(p.ev):
        if e.k=="ret": return e.v[1] if e.v is not None and not e.v[0] else None
    return None
def oneway(p):
    """False: two looks at one iterator, which was not moved in between, contradict each other (a path of one loop only)"""
    it=iterfacts(p)
    for (i,a),(j,b) in zip(it,it[1:]):
        if a!=b and not any(e.k=="call" and re.search(r"operator(\+\+|--)|::begin$|std::(next|advance|__advance)$",e.q or "") for e in p.ev[i:j]): return False
    return True
def content(p,i,x):
    """content of the object x at event i: what was stored in a local last, '*(x)' otherwise"""
    m=re.fullmatch(r"alloca#\d+(\.\w+)*",x)
    if m:
        for e in reversed(p.ev[:i]):
            if e.k=="st" and e.a==x: return sv(e.v)
    return "*(%s)"%x
def membership(p,rx):
    """[(position, container, key, True|False|None)] of the look-ups by find/count/contains in containers matching rx"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="call" or not re.fullmatch(r"std::(_Rb_tree|set|map|unordered_set|unordered_map|multiset)::(find|count|contains)",e.q or "") or len(e.args)<2: continue
        cont=sv(e.args[0])
        if not re.search(rx,cont): continue
        key=content(p,i,sv(e.args[1])); res=sv(e.res) if e.res is not None else None; out=None
        if e.q.endswith("find"):
            # the iterator lives in a local or is compared directly
            names={res}
            for k in range(i+1,min(i+4,len(p.ev))):
                g=p.ev[k]
                if g.k=="st" and sv(g.v)==res: names.add(re.sub(r"\._M_node$","",g.a))
            for g in p.ev[i+1:]:
                if g.k=="call" and g.q==e.q and sv(g.args[0])==cont: break      # next look-up
                if g.k!="if": continue
                l=sv(g.l)
                m=re.fullmatch(r"std::operator(==|!=)\((.*)\)('\d+)?",l)
                if m and g.r==ZERO:
                    a=re.split(r",",m[2]) 
                    if any(n and (n in a or m[2].startswith(n+",") or m[2].endswith(","+n)) for n in names):
                        v=(g.pred!="eq"); out=(not v) if m[1]=="==" else v; break
                elif g.pred in("eq","ne") and (sv(g.l) in names or sv(g.r) in names):
                    out=(g.pred=="ne"); break
        else:
            s=possible(p,res,(0,1))
            out=None if s is None else True if s=={1} else False if s=={0} else None
        r.append((i,cont,key,out))
    return r
def container(p,i,t):
    """the container an iterator term stands in"""
    for _ in range(6):
        t=re.sub(r"'\d+$","",t if isinstance(t,str) else sv(t))
        g=re.match(r"alloca#\d+$",t)
        if g:
            s=[e for e in p.ev[:i] if e.k=="st" and e.a.split(".")[0]==t]
            if not s: return None
            t=sv(s[-1].v); continue
        g=re.match(r"(?:[\w:~]|\[abi:cxx11\])+::(?:c?r?begin|c?r?end|find|lower_bound|upper_bound)\((.*)\)$",t)
        if g:
            a=csplit(g[1]); return a[0]
        return None
def csplit(s):
    r=[];d=0;c=""
    for x in s:
        if x in"([<": d+=1
        if x in")]>": d-=1
        if x=="," and d==0: r.append(c); c=""
        else: c+=x
    return r+[c]
def mixed(p):
    """comparisons of two iterators and the containers they stand in"""
    for i,e in enumerate(p.ev):
        if e.k=="call" and re.match(r"(PortIterator|std|__gnu_cxx)::operator(==|!=)$",e.q) and len(e.args)>=2:
            a,b=container(p,i,e.args[0]),container(p,i,e.args[1])
            if a and b: yield i,a,b,a==b
def skipped(p):
    """positions taken at the begin of a container and moved on before anything was done with them: (event, container)"""
    for i,e in enumerate(p.ev):
        if e.k!="call" or not e.args or not re.search(r"::operator\+\+$",e.q or "") or len(e.args)>1 or (e.I is not None and e.I.fn and e.I.fn.endswith("Ei")): continue
        x=sv(e.args[0])
        if not x.startswith("alloca"): continue
        for j in range(i-1,-1,-1):
            y=p.ev[j]
            if y.k=="st" and (y.a==x or y.a.startswith(x+".")):
                g=re.fullmatch(r".*\bc?begin\((.*)\)('\d+)?",sv(y.v))
                if g and not any(q.k=="call" and q.args and re.search(r"::(c?begin|front|operator\[\]|at)$",q.q or "") and sv(q.args[0])==g[1] for q in p.ev[:j-1]): yield i,g[1]
                break
            if y.k=="call" and any(re.search(re.escape(x)+r"\b",sv(a)) for a in y.args if a is not None): break
            if y.k=="if" and re.search(re.escape(x)+r"\b",sv(y.l)+sv(y.r)): break
def ranges(c,m,rule,rx):
    """loops compare an iterator with the end of the container it stands in"""
    c.rule(rule,"a loop over a container ends at the end of that very container, and not after a number of rounds fixed in the program")
    counted(c,m,rule,rx)
    for f in m.find(rx=rx):
        for p in paths(f):
            for i,a in skipped(p): c.ob(rule,f.where(),False,"goes through %s without its first element"%a[:70],key=rule+"|first")
            for i,a,b,ok in mixed(p): c.ob(rule,f.where(),ok,"compares a position in %s with one in %s"%(a[:70],b[:70]),key=rule)
def counted(c,m,rule,rx,lim=4,only=None):
    """no loop of the functions matching rx is left because a counter from a constant in constant steps has reached a constant: what is gone through is not bounded by the program text"""
    import loops
    for f in m.find(rx=rx):
        c.fn(f)
        for h,body in loops.natural(f):
            iv=loops.ivs(f,h,body)
            if not iv or (only and not any(re.search(only,callee(I) or "") for b in body for I in f.blocks[b])): continue
            for t,_,_ in loops.exits(f,h,body):
                st=[t.d["cond"]] if t.op=="br" and "cond" in t.d else []; seen=set()
                while st:
                    o=st.pop()
                    if "v" not in o or o["v"] in seen: continue
                    seen.add(o["v"]); I=f.inst.get(o["v"])
                    if I is None: continue
                    if I.op in("and","or","xor","select","zext","trunc","freeze"): st+=I.a; continue
                    if I.op!="icmp": continue
                    for x,y in((I.a[0],I.a[1]),(I.a[1],I.a[0])):
                        if "c" not in y: continue
                        for k,(init,s) in iv.items():
                            if s and "c" in init and loops.step(f,x,k) is not None and abs(y["c"]-init["c"])>lim*abs(s):
                                c.ob(rule,t.where() if hasattr(t,"where") else f.where(),False,"a loop of %s ends after a fixed number of rounds"%f.q,key="%s|%s"%(rule,f.q))
def factories(m):
    """(kind, maker, mangled element type) of the functions a port record is given to make its split or join kernel"""
    got={}
    for q in("Port::add_port","Port::addInPlacePorts"):
        for f in m.find(q=q):
            x=re.match(r"_ZN4Port(\d+)",f.m); i=x.end()+int(x[1]) if x else 0
            T=f.m[i+1:] if x and f.m[i:i+1]=="I" else None
            for p in paths(f):
                for e in p.ev:
                    if e.k!="call" or not re.match(r"std::function::operator=",e.q or "") or not e.args: continue
                    k=re.search(r"\.(split|join)_func$",sv(e.args[0]))
                    if not k: continue
                    d=re.search(r"_Callable<(.*?'lambda\d*'\(\)|[\w:]+), ",m.dem(e.I.fn) or "")
                    if not d: continue
                    for g in m.find(rx=".*operator\\(\\)"):
                        if g.dem.startswith(d[1]+"::operator()"): got[(k[1],g.m)]=(k[1],g,T)
                break
    return list(got.values())
def made(p):
    """the object a path returns, and the class it was made as (None: not made on this path)"""
    v=next((sv(e.v) for e in reversed(p.ev) if e.k=="ret" and e.v is not None),"")
    if not re.match(r"operator new\(",v): return v,None
    t=[sv(e.v) for e in p.ev if e.k=="st" and e.a==v and sv(e.v).startswith("g:_ZTV")]
    k=[e.q for e in p.ev if e.k=="call" and e.args and sv(e.args[0])==v and re.fullmatch(r"raft::(split|join)::\1",e.q or "")]
    return v,(t[-1][2:] if t else "") or (k[-1] if k else "")

def carried(c,m,rule,flds,funcs=()):
    """a copy of a port record has these fields of its original"""
    for f in c.need([f for f in m.find(q="PortInfo::PortInfo") if re.search(r"\(PortInfo( const)?&\)",f.dem)],"copy of a port record"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            for x in flds:
                v=p.last("arg0."+x); c.ob(rule,f.where(),v is not None and sv(v)=="*(arg1.%s)"%x,"a copy has %s = %s"%(x,"nothing" if v is None else sv(v)),key=rule+"|copy|"+x)
            for x in funcs:
                k=[e for e in p.ev if e.k=="call" and re.fullmatch(r"std::function::(function|operator=)",e.q or "") and len(e.args)>=2 and sv(e.args[0])=="arg0."+x]
                c.ob(rule,f.where(),bool(k) and sv(k[-1].args[1]).startswith("arg1."+x),"a copy has %s of %s"%(x,sv(k[-1].args[1]) if k else "nothing"),key=rule+"|copy|"+x)

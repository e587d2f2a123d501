"""Values along paths: enumerates the paths of a small function and names
every value by its origin.

A value is a linear form (atoms, constant) over named atoms: 'arg0',
'*(addr)' for what memory held on entry, 'urem(x;y)', call results, ...
Stores are forwarded to later loads of the same address on the path.  Every
undecided condition (branch, select, widened comparison) splits the path and
is recorded as a fact of it, so a path is a conjunction of comparisons plus
the effects in order.  Loops are followed a bounded number of times; only
per-path facts are judged, never how often a loop runs."""
import re
from flow import callee, cname, throw_type, NEG, SWP, PASS, is_virtual

ZERO=((),0)
def K(c): return ((),c)
def A(a): return (((a,1),),0)
def ladd(x,y,k=1):
    d=dict(x[0])
    for a,c in y[0]:
        d[a]=d.get(a,0)+k*c
        if d[a]==0: del d[a]
    return (tuple(sorted(d.items())),x[1]+k*y[1])
def lscale(x,k): return (tuple((a,c*k) for a,c in x[0]),x[1]*k) if k else ZERO
def isK(x): return not x[0]
def sv(x):
    """readable form of a value"""
    if not x[0]: return str(x[1])
    r=""
    for a,c in x[0]: r+=("+" if c>0 and r else "")+("" if c==1 else "-" if c==-1 else "%d*"%c)+a
    if x[1]: r+="%+d"%x[1]
    return r
def single(x): return x[0][0][0] if len(x[0])==1 and x[0][0][1]==1 and x[1]==0 else None

class Ev:
    __slots__=("k","I","a","v","q","args","res","pred","l","r","t")
    def __init__(s,k,I,**x):
        s.k=k; s.I=I
        for n in("a","v","q","args","res","pred","l","r","t"): setattr(s,n,x.get(n))
    def __repr__(s):
        if s.k=="st": return "%s := %s"%(s.a,sv(s.v))
        if s.k=="call": return "%s(%s)"%(s.q,", ".join(sv(x) for x in s.args))
        if s.k=="if": return "if %s %s %s"%(sv(s.l),s.pred,sv(s.r))
        if s.k=="ret": return "return %s"%(sv(s.v) if s.v is not None else "")
        if s.k=="throw": return "throw %s"%s.t
        return s.k

class Path:
    def __init__(s,evs,end,cut=False): s.ev=evs; s.end=end; s.cut=cut
    def stores(s,rx): return [e for e in s.ev if e.k=="st" and re.fullmatch(rx,e.a)]
    def calls(s,rx): return [e for e in s.ev if e.k=="call" and re.fullmatch(rx,e.q or "")]
    def conds(s): return [e for e in s.ev if e.k=="if"]
    def last(s,addr):
        r=[e for e in s.ev if e.k=="st" and e.a==addr]
        return r[-1].v if r else None
    def has(s,pred,l,r):
        """is the comparison (or its mirror image) a fact of the path"""
        for e in s.ev:
            if e.k!="if": continue
            if (e.pred,e.l,e.r)==(pred,l,r) or (SWP[e.pred],e.r,e.l)==(pred,l,r): return True
        return False
    def implies(s,pred,l,r):
        """a fact that says  l pred r  up to rearranging the linear forms"""
        D=ladd(l,r,-1)
        for e in s.ev:
            if e.k!="if": continue
            E=ladd(e.l,e.r,-1)
            for P,F in((e.pred,E),(SWP[e.pred],lscale(E,-1))):
                if F==D and P==pred: return True
                d=ladd(F,D,-1)
                if d[0]: continue
                c=d[1]      # F = D + c
                # D > 0  iff  D - 1 >= 0
                if pred in("ugt","sgt") and P in("uge","sge") and c==-1: return True
                if pred in("uge","sge") and P in("ugt","sgt") and c==1: return True
                if pred in("ult","slt") and P in("ule","sle") and c==1: return True
                if pred in("ule","sle") and P in("ult","slt") and c==-1: return True
                if pred[1:]==P[1:] and F==D and pred not in("eq","ne"): return True
        return False
    def __repr__(s): return "; ".join(map(repr,s.ev))+(" ..." if s.cut else "")

DEREF=re.compile(r"(std::_Rb_tree\w*iterator|std::__detail::_\w*iterator\w*|PortIterator|__gnu_cxx::\w+)::(operator\*|operator->|name)")
class Paths:
    LIMIT=6000
    def __init__(s,f,unroll=1,follow_exc=True,args=None,nonneg=False,unwind=None,limit=6000,veto=None,fresh=None):
        s.fresh=fresh; s.nz=set(); s.nld=0; s.veto=veto; s.ints=set(); s.f=f; s.nn=nonneg; s.uw=unwind; s.LIMIT=limit; s.un=unroll; s.exc=follow_exc; s.n=0; s.out=[]; s.over=False
        env={}
        for k,a in enumerate(f.args): env[a["i"]]=(args or {}).get(k,A("arg%d"%k))
        s.explore(f.entry,None,0,env,{},[],{},{})
    # ------------------------------------------------------------ values
    def val(s,o,env):
        if "c" in o: return K(o["c"])
        if "null" in o: return K(0)
        if "v" in o: return env.get(o["v"],A("?%d"%o["v"]))
        if "fn" in o: return A("fn:"+s.f.mod.q(o["fn"]))
        if "g" in o: return A("str:%r"%o["str"] if "str" in o else "g:"+o["g"])
        if "ce" in o:
            if "base" in o: return A(s.addr(s.val(o["base"],env),o.get("path",[]),env))
            return A("ce:"+str(o["ce"]))
        if "fp" in o: return A("fp:%s"%o["fp"])
        if "undef" in o: return A("undef")
        return A("const")
    def addr(s,b,path,env):
        t=single(b); r=t if t is not None else "(%s)"%sv(b)
        for p in path:
            if p["k"]=="f": r+="."+p["n"]
            elif p["k"] in("idx","arr"): 
                x=sv(s.val(p["v"],env))
                m=re.match(r"^(.*)\[(-?\d+)\]$",r)
                if p["k"]=="idx" and m and re.fullmatch(r"-?\d+",x): r="%s[%d]"%(m[1],int(m[2])+int(x))
                elif x=="0" and (p["k"]=="idx" or re.fullmatch(r"alloca#\d+",r)): pass
                else: r+="[%s]"%x
            else: r+="?"
        return r
    def at(s,v):
        t=single(v); return t if t is not None else "(%s)"%sv(v)
    # ------------------------------------------------------- exploration
    def explore(s,b,pb,pos,env,mem,evs,cnt,conds):
        """runs from instruction pos of block b"""
        f=s.f
        while True:
            if s.n>s.LIMIT: s.over=True; return
            bl=f.blocks[b]
            if pos==0:
                upd={}
                for I in bl:
                    if I.op!="phi": break
                    for k,x in I["in"]:
                        if k==pb: upd[I.id]=s.val(x,env)
                    else: pass
                env.update(upd)
            nxt=None
            while pos<len(bl):
                I=bl[pos]; op=I.op; pos+=1
                if op=="phi": continue
                if op=="alloca":
                    env[I.id]=A("alloca#%d"%I.id)
                    if re.fullmatch(r"i\d+",I.get("aty") or ""): s.ints.add("alloca#%d"%I.id)
                    continue
                if op=="load":
                    a=s.at(s.val(I.a[0],env))
                    if s.fresh and re.fullmatch(s.fresh,a):
                        # memory that others write: every load is a new value
                        n=sum(1 for e in evs if e.k=="ld" and e.a==a)
                        env[I.id]=A("*(%s)"%a if not n else "*(%s)'%d"%(a,n))
                        evs.append(Ev("ld",I,a=a,res=env[I.id],t=I.get("ord"))); continue
                    env[I.id]=mem.get(a) or A("*(%s)"%a); continue
                if op=="fence":
                    if s.fresh: evs.append(Ev("fence",I,t=I.get("ord")))
                    continue
                if op=="store":
                    a=s.at(s.val(I.a[1],env)); v=s.val(I.a[0],env); mem[a]=v
                    if not(v[0] and v[0][0][0].startswith("g:_ZTV")):     # a pointer to a virtual table does not reach the fields
                      for k in [k for k in mem if k!=a and (k.startswith(a+".") or k.startswith(a+"["))]:
                          del mem[k]
                    evs.append(Ev("st",I,a=a,v=v)); continue
                if op=="getelementptr":
                    env[I.id]=A(s.addr(s.val(I["base"],env),I["path"],env)); continue
                if op in PASS:
                    x=s.val(I.a[0],env)
                    t=single(x)
                    if op in("zext","sext") and t and t in conds.get("#",{}):
                        # widened comparison: split
                        if s.split(t,I,b,pb,pos-1,env,mem,evs,cnt,conds): return
                        x=env[I.a[0]["v"]] if "v" in I.a[0] else x
                        if op=="sext" and isK(x): x=K(-x[1])
                    if op=="trunc" and I.get("ty") in("i8","i16"): x=s.narrow(x,I)
                    env[I.id]=x; continue
                if op in("add","sub"):
                    env[I.id]=ladd(s.val(I.a[0],env),s.val(I.a[1],env),1 if op=="add" else -1); continue
                if op=="mul":
                    x,y=s.val(I.a[0],env),s.val(I.a[1],env)
                    env[I.id]=lscale(x,y[1]) if isK(y) else lscale(y,x[1]) if isK(x) else A("mul(%s)"%";".join(sorted((sv(x),sv(y))))); continue
                if op=="icmp":
                    x,y=s.val(I.a[0],env),s.val(I.a[1],env)
                    env[I.id]=s.cmp(I["pred"],x,y,conds); continue
                if op in("and","or","xor") and I.get("ty")=="i1":
                    x,y=s.val(I.a[0],env),s.val(I.a[1],env)
                    done=False
                    for u in(x,y):
                        if not isK(u):
                            t=single(u)
                            if s.split(t,I,b,pb,pos-1,env,mem,evs,cnt,conds): return
                            done=True; break
                    a,c=x[1]&1,y[1]&1
                    env[I.id]=K({"and":a&c,"or":a|c,"xor":a^c}[op]); continue
                if op in("and","or"):
                    x,y=s.val(I.a[0],env),s.val(I.a[1],env)
                    if isK(x): x,y=y,x
                    if isK(x) and x[1]>=0 and y[1]>=0: env[I.id]=K(x[1]|y[1] if op=="or" else x[1]&y[1]); continue
                    if y==ZERO: env[I.id]=x if op=="or" else ZERO; continue
                    if op=="or" and isK(y): s.nz.add("or(%s;%s)"%(sv(s.val(I.a[0],env)),sv(s.val(I.a[1],env))))
                if op=="select":
                    c=s.val(I.a[0],env)
                    if not isK(c):
                        if s.split(single(c),I,b,pb,pos-1,env,mem,evs,cnt,conds): return
                        c=s.val(I.a[0],env)
                    env[I.id]=s.val(I.a[1] if c[1]&1 else I.a[2],env); continue
                if op in("call","invoke"):
                    nxt=s.call(I,b,env,mem,evs,cnt,conds,pb,pos)
                    if nxt=="stop": return
                    if nxt is not None: break
                    continue
                if op=="br":
                    if "cond" not in I.d: nxt=I["succ"][0]; break
                    c=s.val(I["cond"],env)
                    if not isK(c):
                        if s.split(single(c),I,b,pb,pos-1,env,mem,evs,cnt,conds): return
                        c=s.val(I["cond"],env)
                    nxt=I["succ"][0] if c[1]&1 else I["succ"][1]; break
                if op=="switch":
                    c=s.val(I["cond"],env)
                    if isK(c):
                        nxt=I["default"]
                        for v,t in I["cases"]:
                            if v==c[1]: nxt=t
                        break
                    s.n+=1
                    for v,t in I["cases"]:
                        e2=evs+[Ev("if",I,pred="eq",l=c,r=K(v))]
                        s.go(b,t,dict(env),dict(mem),e2,dict(cnt),s.cc(conds))
                    for v,_ in I["cases"]: evs.append(Ev("if",I,pred="ne",l=c,r=K(v)))
                    nxt=I["default"]; break
                if op=="ret":
                    v=s.val(I.a[0],env) if I.a else None
                    evs.append(Ev("ret",I,v=v)); s.fin(evs,"ret"); return
                if op=="resume": s.fin(evs,"resume"); return
                if op=="unreachable": s.fin(evs,"throw" if evs and evs[-1].k=="throw" else "unreachable"); return
                if op=="atomicrmw":
                    a=s.at(s.val(I.a[0],env)); old=mem.get(a) or A("*(%s)"%a); x=s.val(I.a[1],env)
                    w=I.get("rmw"); n=ladd(old,x,1) if w=="add" else ladd(old,x,-1) if w=="sub" else x if w=="xchg" else A("%s(%s;%s)"%(w,sv(old),sv(x)))
                    mem[a]=n; evs.append(Ev("st",I,a=a,v=n)); env[I.id]=old; continue
                if op=="extractvalue" or op=="insertvalue" or op=="landingpad":
                    env[I.id]=A("%s(%s)#%d"%(op,",".join(sv(s.val(x,env)) for x in I.a),I.id)); continue
                if op=="fcmp":
                    pr,x,y=I["pred"],sv(s.val(I.a[0],env)),sv(s.val(I.a[1],env))
                    if pr[1:] in("lt","le"): pr,x,y=pr[0]+"g"+pr[2],y,x
                    env[I.id]=A("fcmp.%s(%s;%s)"%(pr,x,y)); continue
                env[I.id]=A("%s(%s)"%(op,";".join(sv(s.val(x,env)) for x in I.a)) if I.a else "%s#%d"%(op,I.id))
            if nxt is None: s.fin(evs,"?"); return
            k=(b,nxt); cnt[k]=cnt.get(k,0)+1
            if cnt[k]>s.un+1: s.fin(evs,"cut",True); return
            pb,b,pos=b,nxt,0
    def go(s,pb,b,env,mem,evs,cnt,conds):
        k=(pb,b); cnt[k]=cnt.get(k,0)+1
        if cnt[k]>s.un+1: s.fin(evs,"cut",True); return
        s.explore(b,pb,0,env,mem,evs,cnt,conds)
    def cc(s,conds):
        c=dict(conds); c["#"]=dict(conds.get("#",{})); return c
    def cmp(s,p,x,y,conds):
        d=ladd(x,y,-1)
        if isK(d):
            c=d[1]
            if p in("eq","ne"): return K(int((c==0)==(p=="eq")))
            if not x[0] and not y[0] or c==0:
                if p[0]=="s" or (x[1]>=0 and y[1]>=0):
                    return K(int({"gt":c>0,"ge":c>=0,"lt":c<0,"le":c<=0}[p[1:]]))
        if p in("eq","ne","ult","ule","ugt","uge"):
            u,v=single(x),single(y)
            if u and v and u.startswith("alloca#") and v.startswith("alloca#"):
                # elements of one local array
                g,h=re.fullmatch(r"(alloca#\d+)(?:\[(\d+)\])?",u),re.fullmatch(r"(alloca#\d+)(?:\[(\d+)\])?",v)
                if g and h and g[1]==h[1]:
                    i,j=int(g[2] or 0),int(h[2] or 0)
                    return K(int({"eq":i==j,"ne":i!=j,"ult":i<j,"ule":i<=j,"ugt":i>j,"uge":i>=j}[p]))
        if s.nn and p in("eq","ne"):
            # sums of quantities that are not negative
            for e in(d,lscale(d,-1)):
                if e[1]>0 and all(k>0 for _,k in e[0]): return K(int(p=="ne"))
        if y==ZERO and p in("eq","ne") and single(x) in s.nz: return K(int(p=="ne"))
        # comparisons of something unsigned with zero
        if p=="ugt" and y==ZERO: p="ne"
        elif p=="ult" and y==K(1): p,y="eq",ZERO
        elif p=="uge" and y==K(1): p,y="ne",ZERO
        elif p=="ule" and y==ZERO: p="eq"
        # comparing a boolean with a constant
        t=single(x)
        if t in conds.get("#",{}) and isK(y) and p in("eq","ne"):
            pp,l,r=conds["#"][t]
            keep=(y[1]!=0)==(p=="eq")
            return s.cmp(pp if keep else NEG[pp],l,r,conds)
        key="cmp(%s %s %s)"%(sv(x),p,sv(y))
        for q,l,r,neg in((p,x,y,False),(NEG[p],x,y,True),(SWP[p],y,x,False),(NEG[SWP[p]],y,x,True)):
            v=conds.get((q,l,r))
            if v is not None: return K(int(v!=neg))
        conds.setdefault("#",{})[key]=(p,x,y)
        return A(key)
    def narrow(s,x,I):
        """a value cut down to 8 or 16 bits is another value, unless it was widened from one"""
        w=int(I["ty"][1:])
        if isK(x): return K(x[1]&((1<<w)-1)) if x[1]>=0 else x
        J=s.f.inst.get(I.a[0].get("v")) if isinstance(I.a[0],dict) and isinstance(I.a[0].get("v"),int) else None
        if J is not None and (J.op in("zext","sext") or J.op=="and"): return x
        return A("cut%d(%s)"%(w,sv(x)))
    def split(s,t,I,b,pb,pos,env,mem,evs,cnt,conds):
        """decide the boolean atom t both ways; returns True when the caller must stop"""
        s.n+=1
        c=conds.get("#",{}).get(t)
        if c is None:
            if t is None: t="?"
            c=("ne",A(t),ZERO)
        p,l,r=c
        # the same question again with no call in between
        was=None
        for e in reversed(evs):
            if e.k=="call": break
            if e.k=="if" and (e.l,e.r)==(l,r) and e.pred in(p,NEG[p]): was=(e.pred==p); break
        for val in(1,0):
            if was is not None and bool(val)!=was: continue
            e2=dict(env)
            for k,v in env.items():
                if v==A(t): e2[k]=K(val)
            m2={k:(K(val) if v==A(t) else v) for k,v in mem.items()}
            c2=s.cc(conds); c2[(p,l,r)]=bool(val)
            if not s.consistent(c2,p if val else NEG[p],l,r): continue
            ev=Ev("if",I,pred=p if val else NEG[p],l=l,r=r)
            if s.veto and s.veto(ev): continue
            s.explore(b,pb,pos,e2,m2,evs+[ev],dict(cnt),c2)
        return True
    REL={"eq":"=","ne":"<>","lt":"<","le":"<=","gt":">","ge":">="}
    def consistent(s,conds,p,l,r):
        """the new fact does not contradict what is known on the path"""
        for sg in("u","s"):
            poss=set("<=>")
            for k,v in conds.items():
                if k=="#": continue
                q,a,c=k
                if not v: q=NEG[q]
                if (a,c)==(l,r): pass
                elif (a,c)==(r,l): q=SWP[q]
                else: continue
                if q in("eq","ne"): poss&=set(s.REL[q])
                elif q[0]==sg: poss&=set(s.REL[q[1:]])
            if sg=="u" and r==ZERO: poss-={"<"}
            if not poss: return False
        if p=="eq" and isK(r):
            for k,v in conds.items():
                if k=="#" : continue
                q,a,c=k
                if a==l and isK(c) and q in("eq","ne") and ((q=="eq")==v) and c!=r and q=="eq": return False
        return True
    def call(s,I,b,env,mem,evs,cnt,conds,pb,pos):
        args=[s.val(x,env) for x in I.a]
        q=callee(I); t=throw_type(I)
        fn=I.fn or ""
        if q is None and I.get("fv") is not None: q="*"+sv(s.val(I["fv"],env))
        if fn.startswith("llvm.is.constant"): env[I.id]=K(0); return None
        if fn.startswith(("llvm.lifetime","llvm.dbg","llvm.experimental","llvm.assume","llvm.stack")): 
            return I["to"] if I.op=="invoke" else None
        if fn.startswith("llvm.umin") or fn.startswith("llvm.umax") or fn.startswith("llvm.smin") or fn.startswith("llvm.smax"):
            env[I.id]=A("%s(%s)"%(fn[5:9],";".join(sorted(map(sv,args))))); return I["to"] if I.op=="invoke" else None
        if fn.startswith(("llvm.memcpy","llvm.memmove")):
            evs.append(Ev("call",I,q=fn.split(".")[1],args=args,res=None))
            d=s.at(args[0]); sr=s.at(args[1])
            for k in [k for k in mem if k==d or k.startswith(d+".") or k.startswith(d+"[")]: del mem[k]
            for k in [k for k in mem if k==sr or k.startswith(sr+".") or k.startswith(sr+"[")]: mem[d+k[len(sr):]]=mem[k]
            return I["to"] if I.op=="invoke" else None
        if fn.startswith("llvm.memset"):
            evs.append(Ev("call",I,q="memset",args=args,res=None))
            return I["to"] if I.op=="invoke" else None
        if t is not None or fn in("__cxa_throw","__cxa_rethrow"):
            evs.append(Ev("throw",I,t=t or fn,args=args))
            if I.op=="invoke" and s.exc: return I["unwind"]
            s.fin(evs,"throw"); return "stop"
        n=sum(1 for e in evs if e.k=="call")
        r=A("%s(%s)"%(q or "?",",".join(map(sv,args))))
        g=DEREF.fullmatch(q or ""); old=s.deref(g[2],args,evs) if g and args else None
        # a repeated call may give another result, except looking again through an iterator that stands where it stood
        if old is not None: r=old
        elif any(e.k=="call" and e.res==r for e in evs): r=A("%s'%d"%(single(r),n))
        evs.append(Ev("call",I,q=q or "?",args=args,res=r))
        known=s.stack(q or "",args,r,mem)
        keeps=re.fullmatch(r"std::\w+::(push|push_back|push_front|emplace|emplace_back|insert|find|count|erase|at|operator\[\]|operator<<)",q or "")
        for x in args:
            u=single(x)
            if keeps and u in s.ints: continue      # a number given to a container stays what it is
            if u and u.startswith("alloca#"):
                for k in [k for k in mem if k==u or k.startswith(u+".") or k.startswith(u+"[")]: del mem[k]
        if I.get("ty")=="i1":
            conds.setdefault("#",{})[single(r)]=("ne",r,ZERO)
        env[I.id]=r if known is None else known
        if s.uw and re.fullmatch(s.uw,q or "?"):
            # the callee throws
            e2=evs+[Ev("throw",I,t="?"+(q or ""),args=args)]
            if I.op=="invoke": s.go(b,I["unwind"],dict(env),dict(mem),e2,dict(cnt),s.cc(conds))
            else: s.fin(e2,"throw")
        if I.op=="invoke": return I["to"]
        return None
    def deref(s,op,args,evs):
        """what the local iterator was found to stand at, when it has not been moved since"""
        it=single(args[0])
        if not it or not it.startswith("alloca#"): return None
        for e in reversed(evs):
            if e.k=="st" and (e.a==it or e.a.startswith(it+".")): return None
            if e.k!="call" or not any(single(x)==it for x in e.args): continue
            g=DEREF.fullmatch(e.q)
            if g and (g[2]=="name")==(op=="name"): return e.res
            if not g and not re.search(r"::operator(==|!=)$",e.q): return None
        return None
    def stack(s,q,args,r,mem):
        """content of local stacks: known size, and the top is what was pushed last"""
        g=re.fullmatch(r"std::stack::(stack|push|emplace|pop|top|size|empty)",q)
        if not g:
            for x in args:
                u=single(x)
                if u: mem.pop("stack:"+u,None)
            return None
        o=single(args[0])
        if not o or not o.startswith("alloca#"): return None
        k="stack:"+o; c=mem.get(k)
        if g[1]=="stack":
            if len(args)==1: mem[k]=()
            return None
        if c is None: return None
        if g[1] in("push","emplace"):
            a=s.at(args[1]) if len(args)>1 else "?"; mem[k]=c+(mem.get(a) or A("*(%s)"%a),)
        elif g[1]=="pop": mem[k]=c[:-1]
        elif g[1]=="top":
            if c: mem[s.at(r)]=c[-1]
        elif g[1]=="size": return K(len(c))
        else: return K(int(not c))
        return None
    def fin(s,evs,end,cut=False):
        s.n+=1; s.out.append(Path(evs,end,cut))

DEEPER=0
def paths(f,**k):
    c=f.__dict__.setdefault("_paths",{})
    key=tuple(sorted((a,b) for a,b in k.items() if a!="args"))
    if key not in c:
        c[key]=Paths(f,**k)
        if DEEPER and not c[key].over:
            # more rounds of every loop, as long as the paths stay countable
            for n in range(1,DEEPER+1):
                d=Paths(f,**dict(k,unroll=k.get("unroll",1)+n,limit=max(3000,k.get("limit",6000)//2)))
                if d.over: break
                c[key]=d
    return c[key].out

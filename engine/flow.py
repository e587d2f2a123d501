"""Terms, path facts and a path-sensitive typestate walker over engine/ir."""
import re
from ir import Func, Inst

# ---------------------------------------------------------------- operands
def is_const(o): return "c" in o
def cval(o): return o["c"]
def vid(o): return o.get("v")

PASS=("zext","sext","trunc","freeze","bitcast","ptrtoint","inttoptr","addrspacecast")

class Terms:
    """structural names of values: the provenance of a value as a string.

    argK, constants, *(addr), base.field, base[idx], call(args), binary
    operations in a canonical order, phi#id, alloca#id."""
    def __init__(s,f): s.f=f; s.m={}
    def o(s,x):
        if "v" in x: return s.v(x["v"])
        if "c" in x: return str(x["c"])
        if "null" in x: return "null"
        if "fn" in x: return "fn:"+s.f.mod.q(x["fn"])
        if "g" in x: return "g:"+x["g"] if "str" not in x else "str:%r"%x["str"]
        if "ce" in x:
            if "base" in x: return s.o(x["base"])+s.steps(x.get("path",[]))
            return "ce:"+x["ce"]
        if "undef" in x: return "undef"
        if "fp" in x: return "fp:%s"%x["fp"]
        return "const"
    def steps(s,path):
        r=""
        for p in path:
            if p["k"]=="f": r+="."+p["n"]
            elif p["k"] in("idx","arr"): r+="[%s]"%s.o(p["v"])
            else: r+="?"
        return r
    def v(s,i):
        if i in s.m: return s.m[i]
        f=s.f
        if i in f.argid:
            r="arg%d"%f.argid[i]; s.m[i]=r; return r
        I=f.inst.get(i)
        if I is None: return "?%s"%i
        s.m[i]="rec#%d"%i
        r=s._t(I); s.m[i]=r
        return r
    def _t(s,I):
        op=I.op
        if op=="getelementptr": return s.o(I["base"])+s.steps(I["path"])
        if op=="load": return "*(%s)"%s.o(I.a[0])
        if op in PASS: return s.o(I.a[0])
        if op in("call","invoke"):
            return "%s(%s)"%(callee(I) or "?",",".join(s.o(x) for x in I.a))
        if op=="phi": return "phi#%d"%I.id
        if op=="alloca": return "alloca#%d"%I.id
        if op=="icmp":
            return "(%s %s %s)"%(s.o(I.a[0]),I["pred"],s.o(I.a[1]))
        if op in("add","mul","and","or","xor"):
            return "(%s)"%((" %s "%op).join(sorted(s.o(x) for x in I.a)))
        if op=="select": return "sel(%s,%s,%s)"%tuple(s.o(x) for x in I.a)
        if I.a: return "%s(%s)"%(op,",".join(s.o(x) for x in I.a))
        return "%s#%d"%(op,I.id)

def callee(I):
    """qualified name (no template arguments) of the called function; for a
    virtual call the common name of the possible targets"""
    if I.op not in("call","invoke"): return None
    if I.fn: return I.f.mod.q(I.fn)
    vt=I.get("vt")
    if vt:
        qs={I.f.mod.q(x) for x in vt}
        if len(qs)==1: return qs.pop()
        last={q.split("::")[-1] for q in qs}
        if len(last)==1: return "virtual::"+last.pop()
        return "virtual::{%s}"%"|".join(sorted(qs))
    return None

def cname(I):
    q=callee(I)
    return q.rsplit("::",1)[-1] if q else None

def is_virtual(I): return I.op in("call","invoke") and not I.fn and I.get("voff") is not None

def terms(f):
    t=getattr(f,"_terms",None)
    if t is None:
        t=Terms(f); f._terms=t
    return t

# Func has no __slots__, so attributes can be attached
def arg_index(f,name):
    for k,a in enumerate(f.args):
        if a["n"]==name: return k
    return None

# ------------------------------------------------------------ linear forms
def linear(f,o,depth=0):
    """operand as ({atom term: coeff}, const); atoms are value ids or terms"""
    if "c" in o: return {},o["c"]
    if "v" not in o: return {terms(f).o(o):1},0
    i=o["v"]; I=f.inst.get(i)
    if I is None or depth>40: return {("v",i):1},0
    if I.op in("add","sub"):
        a,ca=linear(f,I.a[0],depth+1); b,cb=linear(f,I.a[1],depth+1)
        k=1 if I.op=="add" else -1
        r=dict(a)
        for t,c in b.items():
            r[t]=r.get(t,0)+k*c
            if r[t]==0: del r[t]
        return r,ca+k*cb
    if I.op in PASS: return linear(f,I.a[0],depth+1)
    if I.op=="mul":
        for x,y in((0,1),(1,0)):
            if "c" in I.a[x]:
                a,ca=linear(f,I.a[y],depth+1); k=I.a[x]["c"]
                return {t:c*k for t,c in a.items()},ca*k
    return {("v",i):1},0

NEG={"eq":"ne","ne":"eq","ugt":"ule","ule":"ugt","uge":"ult","ult":"uge","sgt":"sle","sle":"sgt","sge":"slt","slt":"sge"}
SWP={"eq":"eq","ne":"ne","ugt":"ult","ult":"ugt","uge":"ule","ule":"uge","sgt":"slt","slt":"sgt","sge":"sle","sle":"sge"}

# -------------------------------------------------------------- path facts
class Walker:
    """Path-sensitive forward exploration of (block, user state, known values).

    The known values (i1 and small constants decided on the path: branch
    outcomes, phi of constants) prune branches that the path has already
    decided; they are dropped as soon as no later instruction uses them."""
    LIMIT=400000
    def __init__(s,f,mem=False):
        s.f=f; s.mem=mem; s._live()
        s.T=terms(f)
    def ref(s,o):
        """term of an operand, resolving a phi of references chosen on this path"""
        v=o.get("v")
        if v is not None:
            x=s.env.get(v)
            if isinstance(x,tuple): return x[1]
            I=s.f.inst.get(v)
            if I is not None and I.op=="select":
                c=s.ev(I.a[0],s.env)
                if c is not None: return s.ref(I.a[1] if c else I.a[2])
        return s.T.o(o)
    def evr(s,o,env):
        """value of an operand, or its reference term"""
        x=s.ev(o,env)
        if x is not None: return x
        v=o.get("v")
        if v is not None and v not in env:
            if v in s.f.argid: return ("ref","arg%d"%s.f.argid[v])
            I=s.f.inst.get(v)
            if I is not None and I.op in("alloca","getelementptr","load","call","invoke") and s.f.inst.get(v) is not None:
                return None if I.op!="alloca" else ("ref","alloca#%d"%v)
        return None
    def _live(s):
        f=s.f
        use={b:set() for b in f.order}; dfn={b:set() for b in f.order}; phiuse={}
        for b in f.order:
            for I in f.blocks[b]:
                if I.op=="phi":
                    for pb,x in I["in"]:
                        if "v" in x: phiuse.setdefault((pb,b),set()).add(x["v"])
                else:
                    for x in s.ops(I):
                        if x not in dfn[b]: use[b].add(x)
                dfn[b].add(I.id)
        live={b:set() for b in f.order}
        ch=True
        while ch:
            ch=False
            for b in reversed(f.rpo()):
                out=set()
                for c in f.succ[b]: out|=live[c]|phiuse.get((b,c),set())
                n=use[b]|(out-dfn[b])
                if n!=live[b]: live[b]=n; ch=True
        # conditions that depend on live values stay useful through their users only
        s.live=live; s.phiuse=phiuse
    def ops(s,I):
        r=[]
        def add(x):
            if isinstance(x,dict):
                if "v" in x: r.append(x["v"])
                for k in("base",):
                    if k in x: add(x[k])
                for p in x.get("path",[]) if isinstance(x.get("path"),list) else []:
                    if "v" in p: add(p["v"])
        for x in I.a: add(x)
        for k in("base","cond","fv"):
            if k in I.d: add(I.d[k])
        for p in I.d.get("path",[]):
            if "v" in p: add(p["v"])
        return r
    # evaluation under an environment
    def ev(s,o,env,d=0):
        if "c" in o: return o["c"]
        if "null" in o: return 0
        v=o.get("v")
        if v is None: return None
        if v in env:
            x=env[v]
            return x
        if d>12: return None
        I=s.f.inst.get(v)
        if I is None: return None
        op=I.op
        if op in("zext","trunc","freeze"):
            x=s.ev(I.a[0],env,d+1)
            if x is None: return None
            if op=="trunc" and I.get("ty")=="i1" and isinstance(x,int): return x&1
            return x
        if op in("and","or"):
            a=s.ev(I.a[0],env,d+1); b=s.ev(I.a[1],env,d+1)
            if isinstance(a,tuple): a=None
            if isinstance(b,tuple): b=None
            if op=="and":
                if a==0 or b==0: return 0
                if a is not None and b is not None: return a&b
            else:
                if I.get("ty")=="i1" and (a==1 or b==1): return 1
                if a is not None and b is not None: return a|b
            return None
        if op=="xor":
            a=s.ev(I.a[0],env,d+1); b=s.ev(I.a[1],env,d+1)
            return None if a is None or b is None else ((a&1)^(b&1) if I.get("ty")=="i1" else a^b)
        if op=="icmp":
            a=s.ev(I.a[0],env,d+1); b=s.ev(I.a[1],env,d+1)
            if a is None or b is None: return None
            if isinstance(a,tuple) or isinstance(b,tuple):
                if isinstance(a,tuple) and isinstance(b,tuple) and a==b: return int(I["pred"] in("eq","ule","uge","sle","sge"))
                return None
            M=(1<<64)-1; ua,ub=a&M,b&M
            return int({"eq":ua==ub,"ne":ua!=ub,"ult":ua<ub,"ule":ua<=ub,"ugt":ua>ub,"uge":ua>=ub,
                    "slt":a<b,"sle":a<=b,"sgt":a>b,"sge":a>=b}[I["pred"]])
        if op=="select":
            c=s.ev(I.a[0],env,d+1)
            if c is None: return None
            return s.ev(I.a[1] if c else I.a[2],env,d+1)
        return None
    def assume(s,o,val,env,atoms,d=0):
        """record that operand o has value val; collects decided atoms"""
        v=o.get("v")
        if v is None or d>12: return
        env[v]=val
        I=s.f.inst.get(v)
        if I is None:
            atoms.append((v,None,val)); return
        op=I.op
        if op in("zext","freeze","trunc","sext"):
            s.assume(I.a[0],val,env,atoms,d+1); return
        if op=="xor" and I.get("ty")=="i1":
            for x,y in((0,1),(1,0)):
                c=s.ev(I.a[x],env)
                if c is not None:
                    s.assume(I.a[y],val^(c&1),env,atoms,d+1); return
        if op=="and" and I.get("ty")=="i1":
            if val:
                for x in I.a: s.assume(x,1,env,atoms,d+1)
                return
            for x,y in((0,1),(1,0)):
                if s.ev(I.a[x],env)==1: s.assume(I.a[y],0,env,atoms,d+1)
            return
        if op=="or" and I.get("ty")=="i1":
            if not val:
                for x in I.a: s.assume(x,0,env,atoms,d+1)
                return
            for x,y in((0,1),(1,0)):
                if s.ev(I.a[x],env)==0: s.assume(I.a[y],1,env,atoms,d+1)
            return
        if op=="select" and I.get("ty")=="i1":
            # select c, x, false (and) / select c, true, x (or)
            if "c" in I.a[2] and I.a[2]["c"]==0 and val:
                s.assume(I.a[0],1,env,atoms,d+1); s.assume(I.a[1],1,env,atoms,d+1); return
            if "c" in I.a[1] and I.a[1]["c"]==1 and not val:
                s.assume(I.a[0],0,env,atoms,d+1); s.assume(I.a[2],0,env,atoms,d+1); return
            return
        if op=="icmp":
            p=I["pred"]
            for x,y in((0,1),(1,0)):
                c=s.ev(I.a[y],env)
                if c is not None and (p=="eq")==bool(val) and p in("eq","ne"):
                    src=I.a[x]
                    J=s.f.inst.get(src.get("v")) if "v" in src else None
                    if J is not None and (J.op in("zext","freeze","trunc","call","invoke","phi","load")or J.get("ty")=="i1"):
                        s.assume(src,c,env,atoms,d+1)
                elif c is not None and p in("eq","ne") and "v" in I.a[x]:
                    # boolean value compared with a constant: the other one
                    J=s.f.inst.get(I.a[x]["v"]); K=J
                    while K is not None and K.op in("zext","freeze") : K=s.f.inst.get(K.a[0].get("v"))
                    if K is not None and K.get("ty")=="i1" and c in(0,1): s.assume(I.a[x],1-c,env,atoms,d+1)
            atoms.append((v,I,val)); return
        atoms.append((v,I,val))
    def keep(s,env,pb,b):
        lv=s.live[b]|s.phiuse.get((pb,b),set())
        # a known icmp is also kept while a live value is computed from it: live covers it
        return {k:v for k,v in env.items() if k in lv or isinstance(k,str)}
    def memop(s,I,env):
        """constants kept in local variables"""
        if I.op=="store":
            t=s.T.o(I.a[1])
            if t.startswith("alloca#"):
                v=s.ev(I.a[0],env)
                if v is None: env.pop(t,None)
                else: env[t]=v
        elif I.op=="load":
            t=s.T.o(I.a[0])
            if t in env: env[I.id]=env[t]
        elif I.op in("call","invoke"):
            if (I.fn or "").startswith(("llvm.lifetime","llvm.dbg","llvm.experimental")): return
            for x in I.a:
                t=s.T.o(x) if ("v" in x) else ""
                if t.startswith("alloca#"):
                    for k in [k for k in env if isinstance(k,str) and (k==t or k.startswith(t+".") or k.startswith(t+"["))]: del env[k]
    def run(s,init,step,edge=None,ret=None,exc=None,resume=None,on_block=None):
        """step(state,I,W)->state|None|list ; edge(state,atoms,br,W)->state|None (None: infeasible)
        ret(state,I,W) at return; resume(state,I,W) when an exception leaves the function;
        exc(state,I,W)->state for the exceptional edge of an invoke (default: the state before it)."""
        f=s.f
        inits=init if isinstance(init,list) else [init]
        work=[]; s.par={}
        for st in inits:
            k=(f.entry,None,st,())
            s.par[k]=None; work.append(k)
        n=0
        s.visited=0
        while work:
            key=work.pop(); n+=1
            if n>s.LIMIT: raise RuntimeError("state limit in "+f.q)
            b,pb,st,en=key; s.cur=key
            env=dict(en); sts=[(st,env)]
            out=[]
            # phis
            upd={}
            for I in f.blocks[b]:
                if I.op!="phi": break
                for k,x in I["in"]:
                    if k==pb: upd[I.id]=s.evr(x,env)
            for k,v in upd.items():
                if v is None: env.pop(k,None)
                else: env[k]=v
            s.env=env
            if on_block:
                st2=on_block(st,b,pb,s)
                sts=[(st2,env)]
            for I in f.blocks[b]:
                if I.op=="phi": continue
                nx=[]
                for st,env in sts:
                    s.env=env
                    env.pop(I.id,None)
                    if s.mem: s.memop(I,env)
                    if I.op=="br":
                        if "cond" not in I.d:
                            out.append((I["succ"][0],st,env)); continue
                        c=s.ev(I["cond"],env)
                        for k,(tgt,val) in enumerate(zip(I["succ"],(1,0))):
                            if c is not None and bool(c)!=bool(val): continue
                            e2=dict(env); atoms=[]
                            s.assume(I["cond"],val,e2,atoms)
                            s.env=e2
                            st2=st
                            if edge: st2=edge(st,atoms,I,s)
                            if st2 is None: continue
                            out.append((tgt,st2,e2))
                        continue
                    if I.op=="switch":
                        c=s.ev(I["cond"],env); done=set()
                        for cv,tgt in I["cases"]:
                            if c is not None and c!=cv: continue
                            e2=dict(env)
                            atoms=[]
                            s.assume(I["cond"],cv,e2,atoms)
                            st2=edge(st,[("case",I,cv)],I,s) if edge else st
                            if st2 is None: continue
                            out.append((tgt,st2,e2))
                        if c is None or all(c!=cv for cv,_ in I["cases"]):
                            st2=edge(st,[("case",I,None)],I,s) if edge else st
                            if st2 is not None: out.append((I["default"],st2,dict(env)))
                        continue
                    if I.op=="ret":
                        if ret: ret(st,I,s)
                        continue
                    if I.op=="resume":
                        if resume: resume(st,I,s)
                        continue
                    if I.op=="unreachable": continue
                    if I.op=="invoke":
                        if I.get("throws"):
                            se=exc(st,I,s) if exc else st
                            if se is not None: out.append((I["unwind"],se,dict(env)))
                        if I.get("noret"): continue
                        r=step(st,I,s)
                        for x in (r if isinstance(r,list) else [r]):
                            if x is not None: out.append((I["to"],x,dict(env)))
                        continue
                    if I.op=="call" and I.get("throws") and (resume or exc):
                        se=exc(st,I,s) if exc else st
                        if se is not None and resume: resume(se,I,s)
                    r=step(st,I,s)
                    for x in (r if isinstance(r,list) else [r]):
                        if x is not None: nx.append((x,env if not isinstance(r,list) else dict(env)))
                sts=nx
            for tgt,st2,e2 in out:
                if tgt not in f.reach: continue
                k=(tgt,b,st2,tuple(sorted(s.keep(e2,b,tgt).items(),key=str)))
                if k not in s.par:
                    s.par[k]=key; work.append(k)
        s.visited=n
        return s
    def path(s,key=None,maxn=14):
        """source lines on the path that led to the current state"""
        r=[]; k=key or s.cur
        while k is not None:
            for I in reversed(s.f.blocks[k[0]]):
                if I.line: r.append(I.line); break
            k=s.par.get(k)
        r.reverse(); o=[]
        for x in r:
            if not o or o[-1]!=x: o.append(x)
        return o[-maxn:]

# ---------------------------------------------------------------- helpers
def throw_type(I):
    """type info symbol of a __cxa_throw call"""
    if I.op in("call","invoke") and I.fn=="__cxa_throw":
        x=I.a[1]
        return x.get("g")
    return None

def users(f):
    u=getattr(f,"_users",None)
    if u is None:
        u={}
        w=Walker.__new__(Walker); w.f=f
        for I in f.insts():
            xs=[x["v"] for _,x in I["in"] if "v" in x] if I.op=="phi" else w.ops(I)
            for x in xs: u.setdefault(x,[]).append(I)
        f._users=u
    return u

def backslice(f,o,stop=None):
    """ids of the values operand o is computed from"""
    seen=set(); st=[o["v"]] if "v" in o else []
    w=Walker.__new__(Walker); w.f=f
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        I=f.inst.get(x)
        if I is None or (stop and stop(I)): continue
        st+= [y["v"] for _,y in I["in"] if "v" in y] if I.op=="phi" else w.ops(I)
    return seen

"""Counted loops: how often does a block of a loop run, as a linear form."""
from flow import *

def natural(f):
    """innermost-first list of (header, body)"""
    return sorted(f.loops(),key=lambda x:len(x[1]))

def innermost(f,bb):
    for h,body in natural(f):
        if bb in body: return h,body
    return None

def exits(f,h,body):
    """normal edges leaving the loop: (branch, staying successor or None, leaving successor)"""
    r=[]
    for b in body:
        t=f.blocks[b][-1]
        for c in f.succ[b]:
            if c in body or (b,c) in f.exc: continue
            if dead(f,c): continue
            stay=[x for x in f.succ[b] if x in body]
            r.append((t,stay[0] if stay else None,c))
    return r

def dead(f,b):
    """control that enters block b never leaves the function normally (throws or terminates)"""
    seen=set(); st=[b]
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        t=f.blocks[x][-1]
        if t.op=="ret": return False
        st+=[c for c in f.succ[x] if (x,c) not in f.exc]
        if (t.op=="unreachable"): pass
    return True

def ivs(f,h,body):
    """phi id -> (initial operand, step) of the induction variables of the loop"""
    r={}
    for I in f.blocks[h]:
        if I.op!="phi": break
        out=[x for b,x in I["in"] if b not in body]; inn=[x for b,x in I["in"] if b in body]
        if len(out)!=1 or not inn: continue
        st=set()
        for x in inn: st.add(step(f,x,I.id))
        if len(st)==1 and None not in st: r[I.id]=(out[0],st.pop())
    return r

def step(f,x,phi,d=0):
    """constant c with x = phi + c (elements, for pointers), or None"""
    if d>20 or "v" not in x: return None
    if x["v"]==phi: return 0
    I=f.inst.get(x["v"])
    if I is None: return None
    if I.op in PASS: return step(f,I.a[0],phi,d+1)
    if I.op in("add","sub"):
        for a,b in((0,1),(1,0)):
            if I.op=="sub" and a==1: continue
            if "c" in I.a[b]:
                s=step(f,I.a[a],phi,d+1)
                return None if s is None else s+(I.a[b]["c"] if I.op=="add" else -I.a[b]["c"])
        return None
    if I.op=="getelementptr":
        p=I["path"]
        if len(p)==1 and p[0]["k"]=="idx" and "c" in p[0]["v"]:
            s=step(f,I["base"],phi,d+1)
            return None if s is None else s+p[0]["v"]["c"]
        return None
    if I.op=="phi":
        s={step(f,y,phi,d+1) for _,y in I["in"]}
        return s.pop() if len(s)==1 else None
    return None

def lin(f,o):
    """linear form in which pointer steps count elements; atoms are terms or value ids"""
    if "v" in o:
        I=f.inst.get(o["v"])
        if I is not None and I.op=="getelementptr" and len(I["path"])==1 and I["path"][0]["k"]=="idx":
            a,c=lin(f,I["base"]); b,d=linear(f,I["path"][0]["v"])
            r=dict(a)
            for k,v in b.items():
                r[k]=r.get(k,0)+v
                if r[k]==0: del r[k]
            return r,c+d
    return linear(f,o)

def add(a,b,k=1):
    r=dict(a[0])
    for t,c in b[0].items():
        r[t]=r.get(t,0)+k*c
        if r[t]==0: del r[t]
    return r,a[1]+k*b[1]

def named(f,L):
    """the linear form with readable atoms: {term: coefficient}, constant"""
    T=terms(f); r={}
    for k,c in L[0].items():
        n=T.v(k[1]) if isinstance(k,tuple) and k[0]=="v" else str(k)
        r[n]=r.get(n,0)+c
        if r[n]==0: del r[n]
    return r,L[1]

def unwrap_bool(f,o,neg=False):
    """comparison behind a branch condition and whether it is negated"""
    while "v" in o:
        I=f.inst.get(o["v"])
        if I is None: return None,neg
        if I.op in("zext","trunc","freeze"): o=I.a[0]; continue
        if I.op=="xor" and "c" in I.a[1] and I.a[1]["c"] in(1,-1): neg=not neg; o=I.a[0]; continue
        if I.op=="icmp" and I["pred"] in("ne","eq") and "c" in I.a[1] and I.a[1]["c"]==0:
            J=f.inst.get(I.a[0].get("v")) if "v" in I.a[0] else None
            if J is not None and J.op in("zext","icmp","xor") and (J.op!="xor" or J.get("ty")=="i1"):
                if I["pred"]=="eq": neg=not neg
                o=I.a[0]; continue
        return I,neg
    return None,neg

class Trip:
    """the single counted exit of a loop"""
    def __init__(s,f,h,body):
        s.f=f; s.h=h; s.body=body; s.why=None; s.count=None; s.test=None; s.iv=None
        ex=exits(f,h,body)
        s.exits=ex
        if len(ex)!=1: s.why="%d ways out of the loop"%len(ex); return
        t,stay,leave=ex[0]
        s.test=t
        if t.op!="br" or "cond" not in t.d or stay is None: s.why="the way out is not a comparison"; return
        C,neg=unwrap_bool(f,t["cond"])
        if C is None or C.op!="icmp": s.why="the way out is not a comparison"; return
        p=C["pred"]
        if neg: p=NEG[p]
        if t["succ"][0]!=stay: p=NEG[p]      # predicate for staying
        iv=ivs(f,h,body)
        L=add(lin(f,C.a[0]),lin(f,C.a[1]),-1)
        cand=[k for k in L[0] if isinstance(k,tuple) and k[1] in iv]
        if len(cand)!=1: s.why="no induction variable in the exit test"; return
        k=cand[0]; c=L[0][k]; init,stp=iv[k[1]]
        s.iv=k[1]; s.init=init; s.step=stp
        D0=add(({x:y for x,y in L[0].items() if x!=k},L[1]),tuple(scale(lin(f,init),c)))
        sl=stp*c
        if sl not in(1,-1): s.why="the loop does not advance by one"; return
        if p=="ne": K=scale(D0,-sl)
        elif p in("ult","slt") and sl==1: K=scale(D0,-1)
        elif p in("ule","sle") and sl==1: K=add(scale(D0,-1),({},1))
        elif p in("ugt","sgt") and sl==-1: K=D0
        elif p in("uge","sge") and sl==-1: K=add(D0,({},1))
        else: s.why="the loop runs away from its bound"; return
        s.count=K; s.stay=stay
    def runs(s,bb):
        """how often block bb runs, or None"""
        if s.count is None: return None
        f=s.f
        if not every(f,s.h,s.body,bb): return None
        if f.dominates(s.stay,bb) and (s.stay!=s.h): return s.count
        if f.dominates(bb,s.test.bb): return add(s.count,({},1))
        return s.count if s.stay!=s.h else None

def scale(L,k): return {t:c*k for t,c in L[0].items()},L[1]*k

def every(f,h,body,bb):
    """block bb lies on every way round the loop, and in no inner loop"""
    for b in body:
        if h in f.succ[b] and not f.dominates(bb,b): return False
    for h2,b2 in f.loops():
        if h2!=h and bb in b2 and b2<body: return False
    return True

def per_round(f,h,body,weight):
    """set of possible numbers of events on one round through the loop; weight(block)->int.
    None in the result: an event inside an inner loop"""
    inner=set()
    for h2,b2 in f.loops():
        if b2<body: inner|=b2
    memo={}
    res=set()
    if any(weight(b) for b in inner): res.add(None)
    st=[(h,0,frozenset([h]))]; seen=set()
    while st:
        b,n,_=st.pop()
        n+=weight(b) if b not in inner else 0
        for c in f.succ[b]:
            if (b,c) in f.exc: continue
            if c==h: res.add(n); continue
            if c not in body: continue
            if (c,n) in seen: continue
            seen.add((c,n)); st.append((c,n,None))
    return res

"""Loader and basic graph algorithms for the JSON written by frontend/irdump."""
import json, re
from functools import lru_cache

class Inst:
    __slots__=("d","id","op","bb","pos","fn","f")
    def __init__(s,d,bb,pos,f):
        s.d=d; s.id=d["i"]; s.op=d["op"]; s.bb=bb; s.pos=pos; s.fn=d.get("fn"); s.f=f
    def __getitem__(s,k): return s.d[k]
    def get(s,k,dv=None): return s.d.get(k,dv)
    @property
    def line(s):
        l=s.d.get("loc"); return l[0] if l else 0
    @property
    def a(s): return s.d.get("a",[])
    def where(s):
        """source position of the instruction (innermost inlined location)"""
        l=s.d.get("loc")
        if not l: return s.f.where()
        n=s.f.mod.names.get(l[1]) if l[1] else None
        return "%s:%d (%s)"%((n or {}).get("file",s.f.d.get("file","?")).replace("/repo/",""),l[0],(n or {}).get("q",l[1] or "?"))
    def chain(s):
        """linkage names of the inline chain, innermost first"""
        l=s.d.get("loc") or []
        return l[1::2]
    def __repr__(s): return "<%s %s>"%(s.op,s.id)

class Func:
    def __init__(s,d,mod):
        s.d=d; s.mod=mod; s.m=d["m"]; s.dem=d["d"]; s.q=mod.names[s.m]["q"]
        s.args=d["args"]; s.sig=d.get("sig",[])
        s.blocks={}; s.order=[]; s.inst={}
        for b in d["b"]:
            bi=b["i"]; s.order.append(bi); l=[]
            for p,x in enumerate(b["x"]):
                I=Inst(x,bi,p,s); l.append(I); s.inst[I.id]=I
            s.blocks[bi]=l
        s.argid={a["i"]:k for k,a in enumerate(s.args)}
        s.entry=s.order[0]
        s.succ={}; s.exc=set()
        for b in s.order:
            t=s.blocks[b][-1]; sc=[]
            if t.op=="invoke":
                sc=[t["to"]]
                if t.get("throws"):
                    sc.append(t["unwind"]); s.exc.add((b,t["unwind"]))
            elif t.op=="br": sc=list(dict.fromkeys(t["succ"]))
            elif t.op=="switch": sc=list(dict.fromkeys([t["default"]]+[c[1] for c in t["cases"]]))
            elif t.op in("ret","resume","unreachable"): sc=[]
            else: sc=list(t.get("succ",[]))
            s.succ[b]=sc
        # reachable only
        seen=set(); st=[s.entry]
        while st:
            b=st.pop()
            if b in seen: continue
            seen.add(b); st+=s.succ[b]
        s.reach=seen
        s.order=[b for b in s.order if b in seen]
        s.pred={b:[] for b in s.order}
        for b in s.order:
            for c in s.succ[b]: s.pred[c].append(b)
        s._rpo=None; s._dom=None; s._pdom=None
    def where(s): return "%s:%s (%s)"%(s.d.get("file","?").replace("/repo/",""),s.d.get("line","?"),s.q)
    def insts(s):
        for b in s.order:
            for I in s.blocks[b]: yield I
    def rpo(s):
        if s._rpo is None:
            out=[]; seen=set(); st=[(s.entry,iter(s.succ[s.entry]))]; seen.add(s.entry)
            while st:
                b,it=st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c); st.append((c,iter(s.succ[c]))); break
                else:
                    out.append(b); st.pop()
            s._rpo=out[::-1]
        return s._rpo
    def dom(s):
        """immediate dominators"""
        if s._dom is None:
            order=s.rpo(); num={b:i for i,b in enumerate(order)}; idom={s.entry:s.entry}
            ch=True
            while ch:
                ch=False
                for b in order[1:]:
                    n=None
                    for p in s.pred[b]:
                        if p in idom:
                            if n is None: n=p
                            else:
                                x,y=p,n
                                while x!=y:
                                    while num[x]>num[y]: x=idom[x]
                                    while num[y]>num[x]: y=idom[y]
                                n=x
                    if n is not None and idom.get(b)!=n: idom[b]=n; ch=True
            s._dom=idom
        return s._dom
    def dominates(s,a,b):
        """block dominance"""
        d=s.dom()
        while True:
            if a==b: return True
            if b==s.entry: return False
            b=d[b]
    def idominates(s,x,y):
        """instruction x strictly before y on every path to y"""
        if x.bb==y.bb: return x.pos<y.pos
        return s.dominates(x.bb,y.bb)
    def loops(s):
        """list of (header, set of blocks) of natural loops"""
        res={}
        for b in s.order:
            for h in s.succ[b]:
                if s.dominates(h,b):
                    body={h}; st=[b]
                    while st:
                        x=st.pop()
                        if x in body: continue
                        body.add(x); st+=s.pred[x]
                    res.setdefault(h,set()).update(body)
        return list(res.items())
    def can_reach(s,frm,to,avoid=()):
        """is there a path of >=0 edges from block frm to block to avoiding blocks"""
        seen=set(); st=[frm]
        while st:
            b=st.pop()
            if b in seen or b in avoid: continue
            if b==to: return True
            seen.add(b); st+=s.succ[b]
        return False

class Module:
    def __init__(s,path):
        with open(path) as f: d=json.load(f)
        s.names=d["names"]; s.raw={x["m"]:x for x in d["functions"]}; s._f={}
        s.byq={}
        for m in s.raw: s.byq.setdefault(s.names[m]["q"],[]).append(m)
    def func(s,m):
        if m not in s._f: s._f[m]=Func(s.raw[m],s)
        return s._f[m]
    def q(s,m):
        n=s.names.get(m); return n["q"] if n else m
    def dem(s,m):
        n=s.names.get(m); return n["d"] if n else m
    def find(s,q=None,rx=None,dem=None):
        r=[]
        for k,ms in s.byq.items():
            if (q is not None and k==q) or (rx is not None and re.fullmatch(rx,k)):
                for m in ms:
                    if dem is None or re.search(dem,s.names[m]["d"]): r.append(s.func(m))
        return r

def show(f):
    out=[f.dem+"  args="+", ".join("%d:%s"%(a["i"],a["n"]) for a in f.args)]
    def o(x):
        if "v" in x: return "%%%d"%x["v"]
        for k in("c","g","fn","fp","const"):
            if k in x: return str(x[k])+(("=%r"%x["str"]) if "str" in x else "")
        return "null" if "null" in x else json.dumps(x)[:40]
    for b in f.order:
        out.append("B%d: preds %s"%(b,f.pred[b]))
        for I in f.blocks[b]:
            s="  %%%d %s"%(I.id,I.op)
            if "path" in I.d:
                s+=" "+o(I["base"])+"".join("."+p["n"] if p["k"]=="f" else "[%s]"%o(p["v"]) for p in I["path"])
            elif I.op in("call","invoke"):
                s+=" "+(f.mod.dem(I.fn)[:90] if I.fn else "vt:%s+%s{%s}"%(I.get("vcls"),I.get("voff"),",".join(f.mod.q(x) for x in I.get("vt",[])[:2])))
                s+="("+",".join(o(x) for x in I.a)+")"
                if I.get("throws"): s+=" !throws"
                if I.op=="invoke": s+=" to B%d unwind B%d"%(I["to"],I["unwind"])
            elif I.op=="phi": s+=" "+" ".join("B%d:%s"%(k,o(v)) for k,v in I["in"])
            elif I.op=="br": s+=" "+(o(I["cond"]) if "cond" in I.d else "")+" -> "+str(I["succ"])
            elif I.op=="switch": s+=" %s %s default %s"%(o(I["cond"]),I["cases"],I["default"])
            else: s+=" "+I.get("pred","")+I.get("rmw","")+" "+",".join(o(x) for x in I.a)+(" "+I.get("aty",I.get("s","")) if I.op=="alloca" else "")+(" vol" if I.get("vol") else "")+(" "+I.get("ord") if I.get("ord") else "")
            out.append(s+"   ;%s"%I.line)
    return "\n".join(out)

"""M10: identity of kernels."""
from paths import *
import witness
TECH="path-wise value analysis of the kernel constructors, whole-program scan of the writes to the identifier and its counter, compile-time witness"
NOTE="every constructor, every write in the program; kernels are created by one thread at a time, as the library documents"
MIN={"M10.fresh":2,"M10.copy":1,"M10.get":1}
def run(c):
    c.rule("M10.fresh","every constructor takes its identifier from the counter and advances the counter past it, all in the same way")
    c.rule("M10.keep","nothing else writes the identifier or the counter")
    c.rule("M10.get","the identifier reported is the one stored")
    c.rule("M10.copy","kernels cannot be copied with their identifier")
    witness.report(c,"wit_m10")
    m=c.load("sys")
    ids=set(); g=None
    for f in c.need(m.find(q="raft::kernel::get_id"),"kernel::get_id"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=sv(p.ev[-1].v); x=re.fullmatch(r"\*\(arg0\.(\w+)\)",v)
            c.ob("M10.get",f.where(),bool(x),"reports %s"%v,key="M10.get")
            if x: ids.add(x[1])
    if len(ids)!=1: return
    fld=ids.pop(); how={}
    ctors=c.need(m.find(q="raft::kernel::kernel"),"kernel constructors",2)
    for f in ctors:
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            if [e for e in p.ev if e.k=="call" and e.q=="raft::kernel::kernel" and sv(e.args[0])=="arg0"] and not [e for e in p.ev if e.k=="st" and e.a=="arg0."+fld]:
                c.ob("M10.fresh",f.where(),True); continue      # delegates
            v=p.last("arg0."+fld)
            gl=[a for a,k in (v[0] if v else ()) if re.fullmatch(r"\*\((g:[\w.]+)\)",a)]
            if v is None or len(gl)!=1 or len(v[0])!=1 or v[0][0][1]!=1:
                # not a counter: an atomic function call result is taken as fresh when nothing else is known
                c.ob("M10.fresh",f.where(),v is not None and not isK(v) and not any(a.startswith(("arg","*(arg")) for a,_ in v[0]) and any("fetch_add" in a or "operator++" in a or "(" in a and not a.startswith("*(") for a,_ in v[0]),"the identifier is %s"%(sv(v) if v is not None else "not set"),key="M10.fresh|id"); continue
            cn=gl[0][2:-1]; last=p.last(cn)
            d=ladd(last,A(gl[0]),-1) if last is not None else K(0)
            k=d[1] if isK(d) else None
            g=cn
            ok=k is not None and k>=1 and 0<=v[1]<=k
            c.ob("M10.fresh",f.where(),ok,"takes %s and leaves the counter %s"%(sv(v),"unchanged" if k==0 else sv(last) if last else "unchanged"),key="M10.fresh|"+("%d"%len(f.args)))
            if ok: how.setdefault((v[1],k),[]).append(f)
    c.ob("M10.fresh","raft::kernel constructors",len(how)<=1,"the constructors number differently: %s"%sorted(how),key="M10.fresh|same")
    w={"id":set(),"count":set()}
    for f in ctors:
        from flow import terms
        for I in f.insts():
            if I.op=="store" and terms(f).o(I.a[1])=="arg0."+fld: w["id"].add(I["vty"])
            elif I.op=="load" and g and terms(f).o(I.a[0])==g: w["count"].add(I["ty"])
    bits=lambda t: int(t[1:]) if re.fullmatch(r"i\d+",t) else 64
    for t in w["id"]:
        c.ob("M10.fresh","raft::kernel constructors",bits(t)>=32 and all(bits(u)<=bits(t) for u in w["count"]),"the identifier is kept in %d bits of a counter of %s"%(bits(t),sorted(map(bits,w["count"]))),key="M10.fresh|width")
    for t in w["count"]: c.ob("M10.fresh","raft::kernel constructors",bits(t)>=32,"the counter of identifiers has %d bits"%bits(t),key="M10.fresh|width|counter")
    n=0
    for mm in list(m.raw):
        f=m.func(mm)
        if f.q=="raft::kernel::kernel": continue
        for I in f.insts():
            if I.op not in("store","atomicrmw"): continue
            n+=1
            from flow import terms
            t=terms(f).o(I.a[1] if I.op=="store" else I.a[0])
            if t.endswith("."+fld) and "thread" not in t:
                base=t[:-len(fld)-1]
                c.ob("M10.keep",I.where(),False,"writes an identifier",key="M10.keep|id|"+f.q)
            elif g and t==g and not f.q.startswith("_GLOBAL__") and "__cxx_global" not in f.m:
                # a constructor that was inlined advances it too
                if any(m.q(x)=="raft::kernel::kernel" for x in I.chain() if x): continue
                c.ob("M10.keep",I.where(),False,"writes the counter",key="M10.keep|count|"+f.q)
    c.ob("M10.keep","%d stores of the program"%n,True)

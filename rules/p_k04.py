"""K04: a function kernel has the ports it was declared with."""
from sysm import *
TECH="ports made along all paths of the constructors, evaluated for small numbers of ports"
NOTE="the constructors of the instantiated type lists, loops followed three times: numbers of ports up to three on each side; a number of ports that contradicts the list of types is left to the assertion"
MIN={"K04.ports":12,"K04.run":4}
M64=(1<<64)-1
def ev(v,env):
    if v is None: return None
    s=v[1]
    for t,k in v[0]:
        if t not in env: return None
        s+=k*env[t]
    return s
def holds(pr,a,b):
    if pr[0]!="s": a&=M64; b&=M64
    return RELOP[pr](a,b) if pr in RELOP else True
def porttype(m,e):
    d=m.dem(e.I.fn) if getattr(e.I,"fn",None) else ""
    x=re.search(r"addPort<",d or "")
    if not x: return None
    dep=0; o=""
    for ch in d[x.end():]:
        if ch in ",>" and dep==0: break
        dep+=ch in "<("; dep-=ch in ">)"; o+=ch
    return o.strip()
def types(dem):
    m=re.search(r"lambdak<",dem)
    i=m.end(); d=0; out=[""]
    for ch in dem[i:]:
        if ch==">" and d==0: break
        if ch=="," and d==0: out.append(""); continue
        d+=ch in "<("; d-=ch in ">)"; out[-1]+=ch
    return [x.strip() for x in out if x.strip()]
def run(c):
    c.rule("K04.ports","a function kernel gets the inputs and outputs asked for, named 0, 1, 2 … on each side, with the listed types in order")
    c.rule("K04.run","each run calls the function given once with the kernel's ports and returns its status")
    m=c.load("sys")
    fs=[f for f in m.find(q="raft::lambdak::lambdak") if len(f.args)==4]
    for f in c.need(fs,"lambdak constructors"):
        c.fn(f); T=types(f.dem); seen=set()
        for p in paths(f,unroll=2):
            if p.end!="ret": continue
            S=Strs(p); got={"arg0.input":[],"arg0.output":[]}; odd=False
            for i in pos(p,"Port::addPort"):
                e=p.ev[i]; a=sv(e.args[0])
                ty=porttype(m,e)
                for nmv in e.args[1:]:
                    nm=sv(nmv); k=None
                    if nm.startswith("str:"): k=nm[4:].strip("'")
                    else:
                        src=S.at(i,nm)
                        for x in p.ev[:i]:
                            if x.k=="call" and re.search(r"to_string$",x.q or "") and x.args and sv(x.args[0]) in(nm,src): k=sv(x.args[1])
                        if k is None and src.startswith("str:"): k=src[4:].strip("'")
                    if a not in got: odd=True; continue
                    got[a].append((k,ty))
            c.ob("K04.ports",f.where(),not odd,"adds a port to something else",key="K04.ports|where")
            for ni in range(3):
                for no in range(3):
                    if len(T)>1 and ni+no!=len(T): continue
                    env={"arg1":ni,"arg2":no}
                    ok=True
                    for pr,l,r in facts(p):
                        x,y=ev(l,env),ev(r,env)
                        if x is not None and y is not None and not holds(pr,x,y): ok=False; break
                    if not ok: continue
                    seen.add((ni,no))
                    for s,n,off in(("arg0.input",ni,0),("arg0.output",no,ni)):
                        g=got[s]
                        names=[k for k,_ in g]
                        if any(k is None or not k.isdigit() for k in names) and len(names)==n: pass
                        else: c.ob("K04.ports",f.where(),sorted(names,key=str)==[str(j) for j in range(n)],"declared with %d+%d ports it has %s %s"%(ni,no,s[5:],names),key="K04.ports|names|"+s)
                        for k,ty in g:
                            if k is None or not k.isdigit() or ty is None: continue
                            w=T[0] if len(T)==1 else T[min(off+int(k),len(T)-1)]
                            c.ob("K04.ports",f.where(),ty==w,"%s port %s has type %s instead of %s"%(s[5:],k,ty,w),key="K04.ports|type|"+s)
            st=[[sv(x) for x in p.ev[i].args] for i in pos(p,r"std::function::(function|operator=|swap)") if sv(p.ev[i].args[0])=="arg0.run_func"]
            c.ob("K04.run",f.where(),bool(st) and len(st[-1])>1 and S_from(p,st[-1][1])=="arg3","keeps the function %s"%(st[-1][1:] if st else "none"),key="K04.run|kept")
        want=[(a,b) for a in range(3) for b in range(3) if len(T)==1 or a+b==len(T)]
        c.ob("K04.ports",f.where(),all(x in seen for x in want),"no kernel comes out for %s ports"%[x for x in want if x not in seen][:2],key="K04.ports|none")
    for f in c.need(m.find(q="raft::lambdak::run"),"lambdak::run"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            k=[p.ev[i] for i in pos(p,r"std::function::operator\(\)")]
            c.ob("K04.run",f.where(),len(k)==1,"calls the function %d times"%len(k),key="K04.run|once")
            for e in k:
                a=[sv(x) for x in e.args]
                c.ob("K04.run",f.where(),a==["arg0.run_func","arg0.input","arg0.output"],"calls %s"%a,key="K04.run|ports")
                r=[x.v for x in p.ev if x.k=="ret"]
                c.ob("K04.run",f.where(),r and r[-1] is not None and sv(r[-1])==sv(e.res),"returns %s"%(sv(r[-1]) if r and r[-1] is not None else "nothing"),key="K04.run|status")
def S_from(p,x):
    """the object a local function object was made from"""
    for _ in range(4):
        for e in p.ev:
            if e.k=="call" and e.q=="std::function::function" and len(e.args)>1 and sv(e.args[0])==x: x=sv(e.args[1]); break
        else: break
    return x

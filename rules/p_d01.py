"""D01: the drawing of a graph shows each kernel and each link once."""
from sysm import *
TECH="what is written to the stream, in which order, along all paths of the drawing functions, and where the run asks for a drawing"
NOTE="text is followed through the insertion operators; that the traversal visits each link once is property M05; loops followed twice"
MIN={"D01.frame":2,"D01.vertex":2,"D01.edge":2,"D01.when":2}
INS=r"std::(ostream::operator<<|operator<<.*|basic_ostream::operator<<)"
def base(t):
    """stream a chain of insertions started with"""
    while True:
        g=re.match(r"std::(?:ostream::operator<<|basic_ostream::operator<<|operator<<(?:(?!\().)*)\((.*)",t)
        if not g: return t
        r=g[1]; d=0
        for i,ch in enumerate(r):
            if ch=="(": d+=1
            elif ch==")":
                if d==0: r=r[:i]; break
                d-=1
            elif ch=="," and d==0 and r[i+1:i+2]!=" ": r=r[:i]; break
        t=r
def written(p,streams):
    """[(position, what)] of the insertions into one of the streams"""
    r=[]
    for i,e in enumerate(p.ev):
        if e.k=="call" and len(e.args)>=2 and re.fullmatch(INS+r"|std::(ostream|basic_ostream)::(write|put)",e.q or ""):
            if base(sv(e.args[0])) in streams:
                x=sv(e.args[1])
                # single characters
                if re.search(r"(ES5_|_ZNSo3put)[ca]$",e.I.fn or "") and isK(e.args[1]): x="str:"+repr(chr(e.args[1][1]))
                r.append((i,x))
    return r
def lit(x):
    g=re.fullmatch(r"str:(['\"])(.*)\1",x)
    return g[2].replace("\\n","\n").replace("\\t","\t") if g else None
def run(c):
    c.rule("D01.frame","a drawing opens the graph, lists the kernels and the links, and closes the graph, once each")
    c.rule("D01.vertex","every kernel of the map is written once, under its own id")
    c.rule("D01.edge","every link is written once, from the id of the source kernel to the id of the destination kernel, with the two port names and the type of the ports")
    c.rule("D01.when","a drawing is made exactly when it is asked for, of this map, after the links were checked and before anything runs; the run goes on unless it is asked to end")
    m=c.load("sys")
    kind={}
    for k in m.raw:
        f=m.func(k)
        g=re.match(r"raft::make_dot::(\w+)((?:::\$?\w+)*)",f.q)
        if not g or g[1] in("_run","run","make_dot","~make_dot","generate_field"): continue
        for p in paths(f):
            for e in p.ev:
                for a in (e.args or []) if e.k=="call" else []:
                    t=lit(sv(a)) or ""
                    if "digraph" in t: kind.setdefault(g[1],set()).add("open")
                    if "->" in t: kind.setdefault(g[1],set()).add("edge")
                    if "}" in t: kind.setdefault(g[1],set()).add("close")
                if e.k=="call" and e.q and "get_id" in e.q and "$" not in f.q: kind.setdefault(g[1],set()).add("vertex")
    for f in c.need(m.find(q="raft::make_dot::_run"),"make_dot::_run"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            seq=[]
            for e in p.ev:
                g=e.k=="call" and re.match(r"(?:virtual::)?(?:\{)?raft::make_dot::(\w+)",e.q or "")
                if g and g[1] in kind:
                    seq+=sorted(kind[g[1]],key=["open","vertex","edge","close"].index)
                    c.ob("D01.frame",f.where(),sv(e.args[-1])=="arg1","writes to "+sv(e.args[-1])[:60],key="D01.frame|stream")
                elif e.k=="call" and re.fullmatch(INS,e.q or ""):
                    t=lit(sv(e.args[1])) or ""
                    seq+=["open"]*("digraph" in t)+["close"]*("}" in t)
            c.ob("D01.frame",f.where(),seq and seq[0]=="open" and seq[-1]=="close" and sorted(seq[1:-1])==["edge","vertex"],"a drawing consists of %s"%seq,key="D01.frame|order")
    for f in m.find(rx=r"raft::make_dot::\w+"):
        if f.q.split("::")[-1] not in kind: continue
        ks=kind[f.q.split("::")[-1]]
        for p in paths(f):
            if p.end!="ret": continue
            out=[(i,lit(x),x) for i,x in written(p,("arg1",))]
            if "open" in ks:
                t="".join(x for _,x,_ in out if x)
                c.fn(f); c.ob("D01.frame",f.where(),t.count("digraph")==1 and t.count("{")-t.count("}")==(0 if "close" in ks else 1),"the graph is opened with %r"%t,key="D01.frame|open")
            if ks=={"close"}:
                t="".join(x for _,x,_ in out if x)
                c.fn(f); c.ob("D01.frame",f.where(),t.count("}")==1 and "{" not in t,"the graph is closed with %r"%t,key="D01.frame|close")
    # kernels
    for f in c.need([f for f in m.find(rx=r"raft::make_dot::\w+") if "vertex" in kind.get(f.q.split("::")[-1],())],"list of kernels"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            it=iterfacts(p)
            if it: c.ob("D01.vertex",f.where(),it[-1][1],"stops before the last kernel",key="D01.vertex|end")
            src=[sv(p.ev[i].args[0]) for i in pos(p,"keeper::acquire")]
            c.ob("D01.vertex",f.where(),any("all_kernels" in x for x in src) or not src,"lists the kernels of %s"%src,key="D01.vertex|all")
            out=[(i,lit(x),x) for i,x in written(p,("arg1",))]
            ids=[(i,x) for i,t,x in out if re.match(r"raft::kernel::get_id\(",x)]
            for n,(i,end) in enumerate(it):
                hi=it[n+1][0] if n+1<len(it) else len(p.ev)
                mine=[x for j,x in ids if i<j<hi]
                if end: c.ob("D01.vertex",f.where(),not mine,"writes a kernel after the last",key="D01.vertex|after"); continue
                c.ob("D01.vertex",f.where(),len(mine)==1,"writes a kernel %d times"%len(mine),key="D01.vertex|once")
                for x in mine: c.ob("D01.vertex",f.where(),re.search(r"\)('\d+)?$",x) and "operator*" in x or "operator->" in x or "keeper::" in x,"writes the id of "+x[:60],key="D01.vertex|own")
                t="".join(y or "?" for j,y,x in out if i<j<hi)
                c.ob("D01.vertex",f.where(),re.fullmatch(r'\s*"?\?"?\s*\[[^\[\]{}]*\]\s*[;\n]\s*',t),"an entry reads %r"%t,key="D01.vertex|entry")
    # links
    n=0
    for f in m.find(rx=r"raft::make_dot::\w+"):
        walks=any(pos(p,r"GraphTools::\w+") for p in paths(f))
        for p in paths(f):
            if p.end!="ret": continue
            b=[p.ev[i] for i in pos(p,r"GraphTools::\w+")]
            if not b:
                none=any(pr=="eq" and re.search(r"::(size|begin|cbegin|end|cend)\(",sv(l)+sv(r)) or re.search(r"::empty\(",sv(l)) for pr,l,r in facts(p))
                if walks: c.ob("D01.edge",f.where(),none,"leaves without having gone through the graph",key="D01.edge|all")
                continue
            n+=1; c.fn(f)
            c.ob("D01.edge",f.where(),len(b)==1,"goes through the graph %d times"%len(b),key="D01.edge|walk")
            a=[sv(x) for x in b[0].args]
            c.ob("D01.edge",f.where(),re.search("source_kernels|all_kernels",a[0]) or "acquire" not in a[0],"starts from "+a[0][:60],key="D01.edge|from")
            c.ob("D01.edge",f.where(),b[0].q=="GraphTools::BFS","goes through the graph by "+b[0].q,key="D01.edge|by")
            if len(a)>2 and a[2]!="0": c.ob("D01.edge",f.where(),a[2]=="arg1","hands on %s"%a[2][:60],key="D01.edge|stream")
            if len(a)>3: c.ob("D01.edge",f.where(),a[3]=="0","may take a kernel or a link more than once",key="D01.edge|connected")
    c.need([1]*n,"walk over the links")
    for f in c.need([f for f in m.find(rx=r"raft::make_dot::\w+::.*operator\(\)")],"what is written for a link"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            out=[(i,lit(x),x) for i,x in written(p,("arg3","*(arg0)","*(*(arg0))"))]
            t="".join(y if y is not None else "<%s>"%("a" if x in("raft::kernel::get_id(*(arg1.my_kernel))","raft::kernel::get_id(*(arg2.other_kernel))") else "b" if x in("raft::kernel::get_id(*(arg2.my_kernel))","raft::kernel::get_id(*(arg1.other_kernel))") else "id" if "get_id" in x else "text") for i,y,x in out)
            if not out: continue
            g=re.fullmatch(r"\s*<(a|b|id)>\s*->\s*<(a|b|id)>\s*\[(.*)\]\s*[;\n]\s*",t,re.S)
            if "<text>" in t or g: c.ob("D01.edge",f.where(),bool(g) and g[1]=="a" and g[2]=="b","a link reads %r"%t,key="D01.edge|ids")
            lab=[sv(e.args[1]) for e in p.ev if e.k=="call" and len(e.args)>=2 and re.fullmatch(INS,e.q or "")]
            na=[i for i,x in enumerate(lab) if x in("arg1.my_name","arg2.other_name")]; nb=[i for i,x in enumerate(lab) if x in("arg2.my_name","arg1.other_name")]   # linked ports know each other (M01)
            if lab: c.ob("D01.edge",f.where(),len(na)==1 and len(nb)==1 and na[0]<nb[0],"a link names its ports %d and %d times"%(len(na),len(nb)),key="D01.edge|ports")
    for f in m.find(q="raft::make_dot::make_dot")+m.find(q="raft::make_dot::run"):
        for p in paths(f):
            if p.end!="ret": continue
            for e in p.ev:
                g=e.k=="st" and re.search(r"\.(all_kernels|source_kernels)$",e.a)
                if g: c.fn(f); c.ob("D01.vertex",f.where(),sv(e.v)=="arg1."+g[1] or g[1][0]=="s" and sv(e.v)=="arg1.all_kernels","takes %s for %s"%(sv(e.v),g[1]),key="D01.vertex|bind|"+g[1])
    for f in c.need(m.find(q="raft::make_dot::run"),"make_dot::run"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            seq=[]
            for e in p.ev:
                g=e.k=="call" and re.match(r"(?:virtual::)?(?:\{)?raft::make_dot::(\w+)",e.q or "")
                if g and g[1]=="_run": seq+=["open","edge","vertex","close"]
                elif g and g[1] in kind: seq+=sorted(kind[g[1]])
                elif e.k=="call" and re.fullmatch(INS,e.q or ""):
                    t=lit(sv(e.args[1])) or ""
                    seq+=["open"]*("digraph" in t)+["close"]*("}" in t)
            c.ob("D01.frame",f.where(),sorted(seq)==["close","edge","open","vertex"],"a drawing consists of %s"%seq,key="D01.frame|run")
    # asked for
    for f in c.need([f for f in m.find(q="raft::map::exe")],"map::exe"):
        c.fn(f)
        for p in paths(f):
            if p.end not in("ret","unreachable"): continue
            ask=[i for i in pos(p,"(std::)?(getenv|secure_getenv)") if sv(p.ev[i].args[0])=="str:'GEN_DOT'"]
            dr=pos(p,"raft::make_dot::(run|_run)"); th=pos(p,"std::thread::thread"); ck=pos(p,"raft::map::checkEdges")
            if p.end=="ret": c.ob("D01.when",f.where(),bool(ask),"never asks whether a drawing is wanted",key="D01.when|asked")
            if not ask: continue
            nl=null(p,sv(p.ev[ask[0]].res))
            if nl is not None: c.ob("D01.when",f.where(),len(dr)==(0 if nl else 1),"makes %d drawings when %s is asked for"%(len(dr),"none" if nl else "one"),key="D01.when|%s"%("none" if nl else "one"))
            if nl is None and dr: c.ob("D01.when",f.where(),any(sv(p.ev[ask[0]].res) in sv(e.l)+sv(e.r) for e in p.conds()),"draws whether or not a drawing is asked for",key="D01.when|unasked")
            for i in pos(p,"(std::)?(getenv|secure_getenv)"):
                r=sv(p.ev[i].res)
                if null(p,r) is not False:
                    u=[e for e in p.ev[i+1:] if e.k=="call" and any(sv(x)==r for x in e.args) and not re.search("operator[!=]=$",e.q)]
                    c.ob("D01.when",f.where(),not u or any(r in sv(e.l)+sv(e.r) and null(p,r) is None for e in p.conds()),"takes a setting of the environment that was not made for a text",key="D01.when|missing")
            for d in dr:
                c.ob("D01.when",f.where(),sv(p.ev[d].args[-1])=="arg0","draws "+sv(p.ev[d].args[-1]),key="D01.when|this")
                c.ob("D01.when",f.where(),not th or d<th[0],"draws after the run began",key="D01.when|before")
                if ck: c.ob("D01.when",f.where(),ck[0]<d,"draws before the links are checked",key="D01.when|checked")
                op=[e for e in p.ev[:d] if e.k=="call" and re.fullmatch(r"std::basic_ofstream::(basic_ofstream|open)",e.q or "") and len(e.args)>1]
                if op: c.ob("D01.when",f.where(),any(sv(p.ev[ask[0]].res) in sv(x) for e in op for x in e.args[1:]) or not any(re.match("str:|getenv",sv(x)) for e in op for x in e.args[1:]),"draws into the file %s"%sv(op[-1].args[1])[:60],key="D01.when|file")
            ex=pos(p,"(std::)?_?(exit|quick_exit|abort|_Exit)")
            if ex and p.end=="unreachable":
                q=[i for i in pos(p,"(std::)?(getenv|secure_getenv)") if sv(p.ev[i].args[0])=="str:'GEN_DOT_EXIT'"]
                v=[sv(p.ev[i].res) for i in pos(p,r"std::(__cxx11::)?(stoi|stol|stoul)|atoi|strtol")]
                z=[possible(p,x,(0,1,2)) for x in v]
                c.ob("D01.when",f.where(),bool(q) and bool(dr) and any(s=={1} for s in z if s is not None),"ends the process without having been asked to",key="D01.when|exit")

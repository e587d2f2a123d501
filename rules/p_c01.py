"""C01: kernel groups keep their members, sides and order."""
from vecs import *
TECH="path-wise replay of the container operations of kernel sets and kernel pairs"
NOTE="every path of every member function; sets instantiated with one, three and four kernels, in the configuration in which the library itself uses them"
MIN={"C01.pair":10,"C01.set":6}
def run(c):
    c.rule("C01.pair","each function of a kernel pair acts on its own side only; constructors put the source on the source side and the destination on the other; added kernels go to the end")
    c.rule("C01.set","a set is built from its kernels, all of them, in order; begin, end and size speak of the same container; moving takes it over")
    c.rule("C01.link","a pair returned by a link holds the linked source and destination")
    m=c.load("leaf")
    side={}
    for s,n in(("Src","src"),("Dst","dst")):
        for f in c.need(m.find(q="kernel_pair_t::get%sSize"%s),"get%sSize"%s):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                x=re.fullmatch(V+r"size\((arg0(\.\w+)?)\)",sv(p.ev[-1].v))
                y=re.fullmatch(r".*distance\((?:"+V+r"c?begin\((arg0(?:\.\w+)?)\)).*",sv(p.ev[-1].v))
                g=(x or y)
                c.ob("C01.pair",f.where(),bool(g),"returns %s"%sv(p.ev[-1].v)[:100],key="C01.pair|size|"+n)
                if g: c.ob("C01.pair",f.where(),side.setdefault(n,g[1])==g[1],"answers for %s or for %s"%(side[n],g[1]),key="C01.pair|size|one|"+n)
    if len(side)<2: return
    S,D=side["src"],side["dst"]
    c.ob("C01.pair","kernel_pair_t",S!=D,"both sides are the same container",key="C01.pair|sides")
    # the member at offset 0 also shows up without a name
    al={"arg0":S if D!="arg0" else "arg0"}
    for f in m.find(q="kernel_pair_t::kernel_pair_t"):
        if re.search(r"kernel_pair_t (const)?&",f.dem): continue
        for p in paths(f):
            ctor=[sv(e.args[0]) for e in p.calls(V+"vector")]
            if "arg0" in ctor: al["arg0"]=D if S in ctor else S
    for f in c.need(m.find(q="kernel_pair_t::kernel_pair_t"),"kernel_pair_t constructors",3):
        if re.search(r"kernel_pair_t( const)?&",f.dem): continue
        c.fn(f)
        n=len(f.args)
        for p in paths(f):
            if p.end!="ret": continue
            r,_=replay(p,al)
            want={S:["arg1"],D:["arg2"]} if n>2 else {S:[],D:[]}
            for x in(S,D):
                got=r.get(x,[])
                c.ob("C01.pair",f.where(),got is None or got==want[x],"%s side holds %s"%("source" if x==S else "destination",got),key="C01.pair|ctor|%s"%("src" if x==S else "dst"))
    for s,mine,other in(("Src",S,D),("Dst",D,S)):
        for f in c.need(m.find(q="kernel_pair_t::add"+s),"add"+s):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                r,cl=replay(p,al); a=r.get(mine,[])
                c.ob("C01.pair",f.where(),(a is None or a==["arg1"]) and mine not in cl,"adds %s to its side"%a,key="C01.pair|add%s|own"%s)
                c.ob("C01.pair",f.where(),other not in r,"touches the other side",key="C01.pair|add%s|other"%s)
        for f in c.need(m.find(q="kernel_pair_t::clear"+s),"clear"+s):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                r,cl=replay(p,al)
                swap=[e for e in p.calls(V+"swap") if mine in(al.get(sv(e.args[0]),sv(e.args[0])),al.get(sv(e.args[1]),sv(e.args[1])))]
                asg=r.get(mine,0) not in(0,[],None) 
                c.ob("C01.pair",f.where(),(mine in cl or bool(swap) or (mine in r and asg)) and (r.get(mine) in([],None) or asg or bool(swap)),"does not empty its side",key="C01.pair|clear%s|own"%s)
                c.ob("C01.pair",f.where(),other not in r,"touches the other side",key="C01.pair|clear%s|other"%s)
        for f in c.need(m.find(q="kernel_pair_t::get"+s),"get"+s):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                st=[]
                v=sv(p.ev[-1].v) if p.ev[-1].v is not None else ""
                b=re.findall(V+r"(c?begin|c?end)\((arg0(?:\.\w+)?)\)",v)
                if not b:
                    b=[]
                    for e in p.ev:
                        if e.k=="st":
                            b+=re.findall(V+r"(c?begin|c?end)\((arg\d(?:\.\w+)?)\)",sv(e.v))
                b=[(w,al.get(x,x)) for w,x in b]
                ok=len(b)>=2 and b[0][0].endswith("begin") and b[1][0].endswith("end") and all(x==mine or x.replace("arg1","arg0")==mine for _,x in b)
                w=[e for e in p.ev if e.k=="call" and re.fullmatch(V+r"(clear|erase|push_back|emplace_back|pop_back|insert|resize|assign)",e.q)]
                c.ob("C01.pair",f.where(),ok and not w,"iterates from %s"%b,key="C01.pair|get"+s)
    # kernel sets
    k=c.load("kset")
    ctors=[f for f in k.find(rx=r"probe::s_(ctor|make)\d")]
    for f in c.need(ctors,"kernel set constructions",3):
        c.fn(f)
        n=int(f.q[-1]); ks=["arg%d"%i for i in(range(n) if "make" in f.q else range(1,n+1))]
        for p in paths(f):
            if p.end!="ret": continue
            r,_=replay(p)
            vs=[x for x in r if r[x] is None or (r[x] and not any(isinstance(y,tuple) for y in r[x]))]
            got=[r[x] for x in r]
            ok=any(g is None or g==ks for g in got)
            c.ob("C01.set",f.where(),ok,"built from %s it holds %s"%(ks,got),key="C01.set|"+f.q)
    for f in k.find(q="probe::s_move"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            r,_=replay(p)
            got=list(r.values())
            ok=any(g is None or (len(g)==1 and isinstance(g[0],tuple) and g[0][1].startswith("arg1")) for g in got)
            c.ob("C01.set",f.where(),ok,"after moving it holds %s"%got,key="C01.set|move")
    for f in k.find(rx=r"probe::s_size\d"):
        c.fn(f); n=int(f.q[-1])
        for p in paths(f):
            if p.end!="ret": continue
            v=p.ev[-1].v
            c.ob("C01.set",f.where(),v==K(n) or re.match(V+r"size\(arg0\.\w+\)$",sv(v)) is not None or re.fullmatch(r"virtual::size\(arg0\)|raft::ksetr::size\(arg0\)",sv(v)) is not None,"reports %s kernels for %d"%(sv(v),n),key="C01.set|size")
    for w in("begin","end","cbegin","cend"):
        for f in k.find(q="raft::ksetr::"+w):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                v=sv(p.ev[-1].v); x=w.lstrip("c")
                ok=re.search(V+r"c?%s\(arg0(\.\w+)?\)"%x,v) is not None and not re.search(V+r"c?%s\("%("end" if x=="begin" else "begin"),v)
                c.ob("C01.set",f.where(),ok,"%s() returns %s"%(w,v[:80]),key="C01.set|"+w)

"""K08: selecting among ports yields one of them that has data, with its count."""
from sysm import *
TECH="returned count and stream against what was looked at, along all paths of the instantiations for one, two and three ports"
NOTE="loops followed as often as there are ports; which of the ports with data is taken is left open, as is the way they are mixed"
MIN={"K08.ports":3,"K08.data":3,"K08.none":3}
PERM=r"std::(__)?(shuffle|random_shuffle|swap|iter_swap|rotate|reverse|(stable_)?sort|(next|prev)_permutation|(stable_)?partition)"
def idx(base,x):
    """element of an array: a number, None when it is not a constant or something else"""
    g=re.fullmatch(re.escape(base)+r"(?:\[(\d+)\])?",x)
    return None if not g else int(g[1] or 0)
def run(c):
    c.rule("K08.ports","only the ports named are looked at, each of them under its own name")
    c.rule("K08.data","the count returned is the number of elements found in the stream returned, which was found to have some")
    c.rule("K08.none","no data is reported only after every port named was found empty, with one of these ports")
    c.rule("K08.each","each of the ports named can be the one selected, also when it has a single element")
    m=c.load("sys")
    for n in(1,2,3):
        for f in c.need(m.find(q="probe::u_select_%d"%n),"selection among %d ports"%n):
            c.fn(f); site="raftinc/select.tcc (raft::select::in) of %d"%n; names=["arg%d"%i for i in range(1,n+1)]; can=set(); empty=False; free=False
            for p in paths(f,unroll=n):
                if p.end!="ret": continue
                # the names, where they are kept
                base=None; src={}; tmp={}
                if any(pr=='eq' and {sv(l)[:16],sv(r)}=={'Port::operator[]','0'} or pr=='eq' and {sv(l),sv(r)[:16]}=={'Port::operator[]','0'} for pr,l,r in facts(p)): continue   # no stream is at address 0
                for e in p.ev:
                    if e.k!="call": continue
                    if (e.q or "").endswith("convert_arr") and base is None:
                        base=sv(e.args[0]); src=dict(enumerate(sv(x) for x in e.args[1:]))
                    elif re.search(r"basic_string::(basic_string|operator=)$",e.q or "") and len(e.args)>=2:
                        d,x=sv(e.args[0]),sv(e.args[1])
                        g=re.fullmatch(r"(alloca#\d+)(?:\[(\d+)\])?",d)
                        if x in names and g and base is None: base=g[1]
                        v=x if x in names else src[idx(base,x)] if base and idx(base,x) in src else tmp.get(x)
                        if base and idx(base,d) is not None:
                            if v: src[idx(base,d)]=v
                            else: free=True
                        else: tmp[d]=v
                    elif base and re.match(r"std::(fill|fill_n|unique|remove(_if)?|replace(_if)?|generate)\b",e.q or "") and any(idx(base,sv(x)) is not None for x in e.args): c.ob("K08.ports",site,False,"the names are changed by "+e.q,key="K08.ports|changed|%d"%n)
                if src: c.ob("K08.ports",site,free or sorted(src.values())==names,"of %s it takes %s"%(names,sorted(src.values())),key="K08.ports|names|%d"%n)
                mixed=[e for e in p.ev if e.k=="call" and re.match(r"std::\w+",e.q or "") and base and any(idx(base,sv(x)) is not None for x in e.args[:2]) and not re.match(PERM+"|std::(array|begin|end|size|data|forward|move|advance|next|basic_string|__cxx11)",e.q) ]
                key={}
                for i in pos(p,r"(\w+::)?Port::operator\[\]"):
                    e=p.ev[i]; o,x=sv(e.args[0]),sv(e.args[1])
                    c.ob("K08.ports",site,o=="arg0","asks %s for a port"%o[:60],key="K08.ports|of|%d"%n)
                    k=names.index(x) if x in names else idx(base,x) if base else None
                    if k is None: free=True
                    elif base and x not in names: c.ob("K08.ports",site,k<n,"looks for name %d of %d"%(k+1,n),key="K08.ports|beyond|%d"%n)
                    key[sv(e.res)]=k
                sz={t:(key.get(o),possible(p,t,(0,1,2))) for i,o,t in vcalls(p,"size") if t}
                r=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
                g=r and re.fullmatch(r"insertvalue\(insertvalue\(undef,(.*?)\)#\d+,(.*)\)#\d+",r[-1])
                if not g: free=True; continue
                cnt,st=g[1],g[2]
                if st not in key:
                    c.ob("K08.ports",site,not re.match(r"arg|0$|alloca#",st),"returns %s for a stream"%st[:60],key="K08.ports|stream|%d"%n); free=True; continue
                w=key[st]; vals=sz[cnt][1] if cnt in sz else None
                zero=cnt=="0" or cnt in sz and vals=={0}
                if zero:
                    empty=True; seen={k for k,v in sz.values() if v=={0}}
                    if not free and not mixed and None not in seen: c.ob("K08.none",site,seen>=set(range(n)),"reports no data after having found %d of %d ports empty"%(len(seen),n),key="K08.none|%d"%n)
                    continue
                if cnt in sz:
                    k,v=sz[cnt]
                    if k is not None and w is not None: c.ob("K08.data",site,k==w,"returns one port with the count of another",key="K08.data|own|%d"%n)
                    full=[v2 for k2,v2 in sz.values() if k2==w]
                    c.ob("K08.data",site,any(v2 is not None and 0 not in v2 for v2 in full),"returns a port without having found data in it",key="K08.data|some|%d"%n)
                    if w is not None and (v is None or 1 in v): can.add(w)
                elif re.fullmatch(r"-?\d+",cnt): c.ob("K08.data",site,False,"returns the count %s"%cnt,key="K08.data|const|%d"%n)
                elif any(t in cnt for t in sz) and re.search(r"[-+*]|(add|sub|mul|div)\(",re.sub(r"'\d+","",cnt)) : c.ob("K08.data",site,not re.fullmatch(r"(-?\d+\*)?virtual::\{[^}]*\}\([^+]*\)('\d+)?[+-]\d+|\d+\*virtual.*",cnt),"returns the count %s"%cnt[-60:],key="K08.data|exact|%d"%n)
            if not free:
                for k in range(n): c.ob("K08.each",site,k in can,"never selects port %d of %d for a single element"%(k+1,n),key="K08.each|%d"%n)
                c.ob("K08.none",site,empty,"does not come to an end without data",key="K08.none|end|%d"%n)

"""Replays the effects of a path on std::vector objects."""
from paths import *
V=r"std::vector::"
def norm(x): return re.sub(r"\('\d+\)$","",x)
def pointee(p,e,x,args=()):
    """what the argument refers to: itself, or what was stored in the temporary it names"""
    t=sv(x)
    if t.startswith("alloca#"):
        i=p.ev.index(e); r=None
        for q in p.ev[:i]:
            if q.k=="st" and (q.a==t or re.fullmatch(re.escape(t)+r"\.(_M_data|\w+)",q.a)): r=sv(q.v)
            if q.k=="call" and q.q.startswith("std::reference_wrapper::reference_wrapper") and sv(q.args[0])==t: r=sv(q.args[1])
        return r if r is not None else t
    return t
def replay(p,alias={}):
    """{vector: list of appended things, or None when the content is not known}; plus erased flags"""
    c={}; cleared=set(); built=set()
    for e in p.ev:
        if e.k!="call" or not e.args: continue
        m=re.fullmatch(V+r"(\w+|operator=|~vector)",e.q)
        if not m: continue
        v=sv(e.args[0]); v=alias.get(v,v); w=m[1]
        if w=="vector":
            built.add(v)
            if len(e.args)==1: c[v]=[]
            elif len(e.args)==2: 
                o=alias.get(sv(e.args[1]),sv(e.args[1])); c[v]=[("all",o)]
            else: c[v]=None
        elif w in("push_back","emplace_back"):
            if c.get(v,[]) is not None: c[v]=c.get(v,[])+[pointee(p,e,e.args[1])]
        elif w in("insert","emplace"):
            if c.get(v,[]) is not None:
                pos=sv(e.args[1]); x=pointee(p,e,e.args[2]) if len(e.args)==3 else None
                if x is None: c[v]=None
                elif "begin(" in pos and "end(" not in pos and not re.search(r"operator[+-]|next|prev|advance|size\(|\]$",pos):
                    # in front of what the container held before the function began
                    c[v]=[x]+c[v] if v in built or v in cleared else [("front",x)]+c.get(v,[])
                elif "end(" in pos and "begin(" not in pos:
                    if re.search(r"operator-|prev\(|\[-\d+\]$",pos) and not c.get(v) and v not in built and v not in cleared: c[v]=[("inside",x)]
                    elif re.search(r"operator|prev\(|next\(|\]$",pos): c[v]=None
                    else: c[v]=c.get(v,[])+[x]
                else: c[v]=None
        elif w=="pop_back":
            if c.get(v): c[v]=c[v][:-1]
            else: c[v]=None
        elif w=="clear": c[v]=[]; cleared.add(v)
        elif w in("erase","assign","resize","swap","operator=","_M_range_initialize"):
            if w=="operator=" and len(e.args)==2: c[v]=[("all",alias.get(sv(e.args[1]),sv(e.args[1])))]
            elif w=="erase" and len(e.args)==3 and "begin(" in sv(e.args[1]) and "end(" in sv(e.args[2]): c[v]=[]; cleared.add(v)
            elif w=="resize" and e.args[1]==K(0): c[v]=[]; cleared.add(v)
            else: c[v]=None
    return c,cleared

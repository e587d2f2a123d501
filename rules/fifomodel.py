"""Event model of the stream implementation (RingBufferBase and friends)."""
import re, sys, os
from flow import *

KEYS={0:"allocate",1:"allocate_range",2:"?",}

def meth(q): return q.split("::")[-1]

def short(f):
    """readable name of a specialisation"""
    d=f.dem
    for a,b in(("(Type::RingBufferType)0","Heap"),("probe::",""),(", void",""),("raft::","")): d=d.replace(a,b)
    return d.split("(")[0]

SLOT=re.compile(r"^\*\((.*)\.(store|signal)\)\[(.*)\]((?:\.[\w()]+)*)$")

def split_slot(t):
    """term of a slot address -> (buffer term, 'store'|'signal', index term, member suffix)"""
    # find last balanced [...] group
    m=re.match(r"^\*\(",t)
    if not m: return None
    # matching parenthesis of the load
    d=0; j=None
    for k in range(1,len(t)):
        if t[k]=="(": d+=1
        elif t[k]==")":
            d-=1
            if d==0: j=k; break
    if j is None: return None
    inner=t[2:j]; rest=t[j+1:]
    if inner.endswith(".store"): kind="store"; buf=inner[:-6]
    elif inner.endswith(".signal"): kind="signal"; buf=inner[:-7]
    else: return None
    if rest=="" : return buf,kind,"0",""
    if rest[0]!="[": return (buf,kind,"0",rest) if rest[0]=="." else None
    d=0
    for k in range(len(rest)):
        if rest[k]=="[": d+=1
        elif rest[k]=="]":
            d-=1
            if d==0: return buf,kind,rest[1:k],rest[k+1:]
    return None

def side(f,idx):
    """read / write: which position the index was computed from"""
    r="Pointer::val" in idx and ".read_pt" in idx
    w="Pointer::val" in idx and ".write_pt" in idx
    if r and not w: return "read"
    if w and not r: return "write"
    return None

class Ev:
    __slots__=("kind","x","I")
    def __init__(s,kind,I,**x): s.kind=kind; s.I=I; s.x=x
    def __getattr__(s,n):
        try: return s.x[n]
        except KeyError: raise AttributeError(n)
    def __repr__(s): return "%s%s@%d"%(s.kind,s.x,s.I.line)

def idx_side(f,o):
    """side of an index operand: through arithmetic and phis"""
    t=terms(f).o(o); s=side(f,t)
    if s: return s
    if "v" not in o: return None
    r=w=False
    for v in backslice(f,o,stop=lambda I: I.op in("load",)):
        I=f.inst.get(v)
        if I is not None and callee(I)=="Pointer::val":
            a=terms(f).o(I.a[0])
            r|=a.endswith(".read_pt"); w|=a.endswith(".write_pt")
    return "read" if r and not w else "write" if w and not r else None

def gepidx(f,addr_o):
    """index operand of the outermost slot gep the address operand comes from"""
    v=addr_o.get("v")
    while v is not None:
        I=f.inst.get(v)
        if I is None: return None
        if I.op=="getelementptr":
            for p in I["path"]:
                if p["k"] in("idx","arr"): return p["v"]
            v=I["base"].get("v"); continue
        if I.op in PASS: v=I.a[0].get("v"); continue
        return None
    return None

def slot(f,o):
    s=split_slot(terms(f).o(o))
    if not s: return None
    g=gepidx(f,o)
    return dict(buf=s[0],what=s[1],idx=s[2],suffix=s[3],io=g,side=idx_side(f,g) if g else side(f,s[2]))

def events(f):
    """instruction id -> list of events"""
    c=getattr(f,"_fev",None)
    if c is not None: return c
    T=terms(f); ev={}
    def add(I,kind,**x): ev.setdefault(I.id,[]).append(Ev(kind,I,**x))
    for I in f.insts():
        op=I.op
        if op in("call","invoke"):
            q=callee(I); n=cname(I)
            if q is None: continue
            own=I.a and T.o(I.a[0])
            if q.startswith("DataManager::") or q.startswith("DataManager<"):
                if n in("enterBuffer","exitBuffer"):
                    k=I.a[1]; add(I,"enter" if n=="enterBuffer" else "exit",key=k.get("c","?"))
                elif n=="notResizing": add(I,"notres")
                elif n=="get": add(I,"get")
                elif n=="resize": add(I,"resize")
            elif q.startswith("Pointer::"):
                a=T.o(I.a[0]) if I.a else ""
                w="read" if a.endswith(".read_pt") else "write" if a.endswith(".write_pt") else "?"
                add(I,"ptr_"+n,side=w,amount=I.a[1] if n=="incBy" else None)
            elif own=="arg0" and n in("size","space_avail","capacity","is_invalid","get_write_finished"):
                add(I,n,virtual=is_virtual(I))
            elif n=="sched_yield": add(I,"yield")
            elif q=="__cxa_throw": add(I,"throw",type=throw_type(I))
            elif n in("operator new","operator delete","malloc","free","operator new[]","operator delete[]"):
                add(I,n.replace("operator ",""),arg=T.o(I.a[0]))
            else:
                m=I.f.mod.names.get(I.fn) if I.fn else None
                base=q.split("::")
                isdtor=base[-1].startswith("~"); isctor=len(base)>1 and base[-1]==base[-2]
                isasg=base[-1]=="operator="
                al=list(I.a)
                if al and (isdtor or isctor or isasg):
                    add(I,"dtor" if isdtor else "ctor" if isctor else "assign",cls="::".join(base[:-1]),
                        dst=T.o(al[0]),dsto=al[0],src=T.o(al[1]) if len(al)>1 else None,srco=al[1] if len(al)>1 else None,nargs=len(al))
                add(I,"call",q=q,n=n)
        elif op=="store":
            s=slot(f,I.a[1])
            if s: add(I,"st_"+s["what"],slot=s,val=T.o(I.a[0]),valo=I.a[0])
            else: add(I,"st",addr=T.o(I.a[1]),val=T.o(I.a[0]),valo=I.a[0])
        elif op=="load":
            s=slot(f,I.a[0])
            if s: add(I,"ld_"+s["what"],slot=s)
        elif op=="getelementptr":
            s=slot(f,{"v":I.id})
            if s: add(I,"addr_"+s["what"],slot=s)
    f._fev=ev
    return ev

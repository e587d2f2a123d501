"""E01: library errors carry their message and their own type."""
import witness
from paths import *
TECH="compile-time witnesses for the exception hierarchy, provenance of the message through constructors, copies and what()"
NOTE="every exception class of the library; every path of its constructor, copy, destructor and what()"
MIN={"E01.kind":12,"E01.only":20,"E01.keep":10,"E01.what":1,"E01.copy":1}
STR=r"std::(__cxx11::)?basic_string::"
def owner(f): return f.q.rsplit("::",1)[0]
def strings(p,init):
    """content of string objects at the end of the path: object -> 'msg' | text"""
    c=dict(init)
    for e in p.ev:
        if e.k!="call" or not e.args: continue
        m=re.fullmatch(STR+r"(basic_string|operator=|assign|swap|~basic_string|\w+|operator.*)",e.q)
        if not m: continue
        o=sv(e.args[0]); w=m[2]
        if w in("basic_string","operator=","assign"):
            if len(e.args)==2 or (w=="basic_string" and len(e.args)>1 and sv(e.args[1]) in c and len(e.args)<=2):
                c[o]=c.get(sv(e.args[1]),c.get(csrc(sv(e.args[1])),"other"))
            elif len(e.args)==1: c[o]="empty"
            elif len(e.args)==3 and w=="basic_string" and csrc(sv(e.args[1])): c[o]=c.get(csrc(sv(e.args[1])),"other")
            else: c[o]="other"
        elif w=="~basic_string": c.pop(o,None)
        elif w in("append","operator+=","insert","replace","erase","clear","resize","push_back","pop_back"): c[o]="other"
    return c
def csrc(t):
    m=re.fullmatch(STR+r"(?:c_str|data)\((.*?)\)('\d+)?",t)
    return m[2] if m else None
def run(c):
    c.rule("E01.kind","every error is its own kind, its family, the common library exception and a standard exception")
    c.rule("E01.only","no error is also of another kind or family")
    c.rule("E01.make","every error is made from its message and can be copied")
    c.rule("E01.poly","the message is asked for virtually")
    c.rule("E01.what","what() returns the stored message")
    c.rule("E01.keep","the constructor stores a copy of the message that the exception owns")
    c.rule("E01.copy","a copy carries the message, which outlives the original")
    witness.report(c,"wit_e01")
    m=c.load("leaf")
    member={}
    for f in c.need([f for f in m.find(rx=r".*::what") if re.search("Exception|raft::|KE|PE",f.q)],"what()"):
        c.fn(f)
        for p in paths(f):
            if p.end=="cut": continue
            v=sv(p.ev[-1].v) if p.end=="ret" else "?"
            x=re.fullmatch(r"\*\(arg0\.(\w+)\)",v); y=re.fullmatch(STR+r"(?:c_str|data)\(arg0\.(\w+)\)",v)
            ok=bool(x or y)
            c.ob("E01.what",f.where(),ok,"what() returns %s on a path"%v,key="E01.what|%s"%f.q)
            if x: member.setdefault(owner(f),set()).add(("ptr",x[1]))
            if y: member.setdefault(owner(f),set()).add(("str",y[2] if y.lastindex>1 else y[1]))
    base=member.get("RaftException",set())
    frees=False
    for f in m.find(rx=r".*Exception\w*::~.*"):
        for p in paths(f):
            for e in p.ev:
                if e.k=="call" and e.q in("free","operator delete","operator delete[]") and any(re.fullmatch(r"\*\(arg0\.(%s)\)"%"|".join(n for _,n in base),sv(a)) for a in e.args): frees=True
    ctors=[f for f in m.find(rx=r".*Exception\w*::\w*Exception\w*") if len(f.args)==2 and "basic_string" in f.dem]
    for f in c.need(ctors,"exception constructors",6):
        c.fn(f)
        cls=owner(f)
        mm=member.get(cls)or base
        n=0
        for p in paths(f):
            if p.end!="ret": continue
            n+=1
            st=strings(p,{"arg1":"msg"})
            # content at the time of use: strings already destroyed keep what they held
            live={}
            for e in p.ev:
                if e.k=="call" and e.args and re.fullmatch(STR+"basic_string",e.q) and len(e.args)==2:
                    live[sv(e.args[0])]=live.get(sv(e.args[1]),"msg" if sv(e.args[1])=="arg1" else live.get(csrc(sv(e.args[1])) or "","msg" if csrc(sv(e.args[1]))=="arg1" else "other"))
                elif e.k=="call" and e.args and re.fullmatch(STR+"(operator=|assign)",e.q) and len(e.args)==2:
                    live[sv(e.args[0])]="msg" if sv(e.args[1])=="arg1" or live.get(sv(e.args[1]))=="msg" else "other"
                elif e.k=="call" and e.args and re.fullmatch(STR+"basic_string",e.q): live.setdefault(sv(e.args[0]),"other")
            ismsg=lambda s: s=="arg1" or live.get(s)=="msg"
            for kind,x in mm:
                if kind=="str":
                    s=live.get("arg0."+x)
                    c.ob("E01.keep",f.where(),s=="msg","the message member holds something else than the given message",key="E01.keep|"+cls)
                    continue
                v=p.last("arg0."+x)
                if v is None:
                    c.ob("E01.keep",f.where(),False,"the message is not stored",key="E01.keep|"+cls); continue
                t=sv(v); ok=None
                d=re.fullmatch(r"(?:strdup|strndup)\((.*?)(?:,.*)?\)('\d+)?",t)
                if d:
                    s=csrc(d[1]); ok=s is not None and ismsg(s)
                    if t.startswith("strndup") and "size(" not in t and "length(" not in t: ok=False
                elif csrc(t): ok=False          # points into a string that ends with the constructor
                elif t.startswith(("g:","str:","alloca#","fn:")) or isK(v): ok=False
                elif re.match(r"(operator new|malloc|calloc)",t):
                    cp=[e for e in p.ev if e.k=="call" and e.q in("memcpy","memmove","strcpy","strncpy","std::copy") and sv(e.args[0])==t]
                    ok=bool(cp) and any(csrc(sv(e.args[1])) and ismsg(csrc(sv(e.args[1]))) for e in cp)
                    if ok and len(cp[0].args)>2 and (isK(cp[0].args[2]) or re.search(r"[us]min\(",sv(cp[0].args[2]))): ok=False
                    if ok and cp[0].q in("memcpy","memmove") and isinstance(cp[0].args[2],tuple):
                        k=cp[0].args[2]
                        if len(k[0])==1 and k[1]==0 and re.search(r"(size|length)\(",k[0][0][0]) and not [e for e in p.ev if e.k=="st" and e.v==K(0) and t in e.a]: ok=False
                if ok is None: ok=True
                c.ob("E01.keep",f.where(),ok,"what() will return %s, not an own copy of the message"%t[:120],key="E01.keep|"+cls)
        c.ob("E01.keep",f.where(),n>0,"no path completes",key="E01.keep|%s|none"%cls)
    for name in("x_copy","x_assign"):
        for f in m.find(q="probe::"+name):
            c.fn(f)
            for p in paths(f):
                if p.end not in("throw","ret"): continue
                src="arg0" if name=="x_copy" else "arg1"
                for kind,x in base:
                    if kind=="ptr":
                        e=[e for e in p.ev if e.k=="st" and e.a.endswith("."+x)]
                        v=sv(e[-1].v) if e else "nothing"
                        plain=v=="*(%s.%s)"%(src,x)
                        deep=re.match(r"(strdup|strndup|operator new|malloc|calloc)",v) is not None and (src+"."+x in v or any(q.k=="call" and q.q in("memcpy","strcpy","memmove","strncpy") and src+"."+x in sv(q.args[1]) for q in p.ev))
                        ok=(plain and not frees) or deep
                        if not e and name=="x_assign": ok=False
                        c.ob("E01.copy",f.where(),ok,"the copy's message is %s%s"%(v," while the destructor frees it" if frees and plain else ""),key="E01.copy|"+name)
                    else:
                        e=[e for e in p.ev if e.k=="call" and re.fullmatch(STR+"(basic_string|operator=)",e.q) and sv(e.args[0]).endswith("."+x) and len(e.args)==2 and sv(e.args[1])=="%s.%s"%(src,x)]
                        c.ob("E01.copy",f.where(),bool(e),"the copy does not take the message over",key="E01.copy|"+name)

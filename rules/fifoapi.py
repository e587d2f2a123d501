"""The typed operations of a stream and its scoped handles, seen from outside:
what each of them asks the untyped stream operations to do, on every path.
Every finding carries the properties it contradicts."""
from paths import *
OPS=("local_push","local_pop","local_peek","local_peek_range","local_allocate","local_allocate_n","local_insert","local_pop_range","send","send_range","unpeek","recycle","local_recycle","deallocate")
T={"num":"Num","small":"Small","big":"Big"}
def ops(p):
    r=[]
    for i,e in enumerate(p.ev):
        if e.k!="call" or not e.args: continue
        q=re.sub(r"<.*","",e.q or "") if e.q.startswith("FIFO") else e.q
        for n in re.findall(r"\w+::(\w+)",e.q):
            if n in OPS: r.append((i,"recycle" if n=="local_recycle" else n,e)); break
    return r
def strip(t): return re.sub(r"'\d+","",t)
def load_(p,i,v):
    """what a by-address argument holds at event i"""
    t=sv(v); w=None
    for e in p.ev[:i]:
        if e.k=="st" and e.a==t: w=e.v
    return strip(sv(w)) if w is not None else t
def run(c,prop,rule):
    m=c.load("fifo"); n=0
    for f in m.find(rx=r"probe::u_\w+"):
        g=re.fullmatch(r"probe::u_(push|pushr|pop|peek|allocate|allocarg|range|insvec|inslist|poprange|pops|pops2|allocs|allocs2|allocsarg|peekrange|peekrange2)_(num|small|big)|probe::u_(recycle)",f.q)
        if not g: continue
        kind,ty=(g[1] or g[3]),g[2]
        c.fn(f); n+=1
        cls="probe::"+T[ty] if ty in("small","big") else None
        if prop in("F01","F06") or prop=="F11" and kind=="recycle":
            c.ob(rule,f.where(),any(p.end=="ret" or p.cut for p in paths(f,unroll=1)),"%s of %s elements never returns"%(kind,{"num":"plain","small":"in-place class","big":"out-of-line",None:"all"}[ty]),key="%s|%s|%s|returns"%(rule,kind,ty))
        for p in paths(f,unroll=1):
            if p.end not in("ret","resume","throw"): continue
            o=ops(p); names=[x for _,x,_ in o]
            def say(props,ok,msg,sub):
                if prop in props.split(): c.ob(rule,f.where(),ok,"%s of %s elements: %s"%(kind,{"num":"plain","small":"in-place class","big":"out-of-line",None:"all"}[ty],msg),key="%s|%s|%s|%s"%(rule,kind,ty,sub))
            def seq(props,want):
                ok=names==want and all(sv(e.args[0])=="arg0" or sv(e.args[0]).startswith("*(") for _,_,e in o)
                say(props,ok,"asks the stream for %s instead of %s"%(", ".join(names) or "nothing","; ".join(want)),"ops")
                return ok
            done=p.end=="ret"
            if kind in("push","pushr"):
                if not seq("F01 F06 F07",["local_push"]): continue
                i,_,e=o[0]
                if kind=="push": say("F01 F06",strip(sv(e.args[1]))=="arg1","passes %s for the element"%sv(e.args[1]),"item")
                say("F07",load_(p,i,e.args[2])=="arg2","passes the signal %s"%load_(p,i,e.args[2]),"sig")
            elif kind=="pop":
                if not seq("F01 F06 F07",["local_pop"]): continue
                e=o[0][2]
                say("F01 F06",sv(e.args[1])=="arg1","takes the element into %s"%sv(e.args[1]),"item")
                say("F07",sv(e.args[2])=="arg2","takes the signal into %s"%sv(e.args[2]),"sig")
            elif kind=="recycle":
                if not names: say("F06 F11",False,"does nothing","ops")
                elif seq("F06 F11",["recycle"]): say("F06 F11",sv(o[0][2].args[1])=="arg1","skips %s elements"%sv(o[0][2].args[1]),"count")
            elif kind=="peek":
                if not seq("F01 F06 F07 F08",["local_peek"]): continue
                i,_,e=o[0]; s=sv(e.args[1])
                say("F07",sv(e.args[2])=="arg1","takes the signal into %s"%sv(e.args[2]),"sig")
                if done:
                    want="*(%s)"%s if ty!="big" else "*(*(%s))"%s
                    say("F01 F06",strip(sv(p.ev[-1].v))==want,"refers to %s instead of the element"%sv(p.ev[-1].v),"ref")
            elif kind in("allocate","allocs","allocs2","allocarg","allocsarg"):
                if not names and not done: continue
                scoped=kind.startswith("allocs")
                if not seq("F06 F08"+(" F07" if scoped else ""),["local_allocate"]+(["send"] if scoped and done else [])) and "local_allocate" not in names[:1]: continue
                i,_,e=o[0]; s="*(%s)"%sv(e.args[1])
                obj=s
                if ty=="big" or ty=="small":
                    ct=[(j,x) for j,x in enumerate(p.ev) if x.k=="call" and x.q==cls+"::"+cls.split("::")[1]]
                    dt=[x for x in p.ev if x.k=="call" and x.q==cls+"::~"+cls.split("::")[1]]
                    if not done and not(scoped and names[-1:]==["send"]): continue
                    if ty=="big":
                        st=[(j,x) for j,x in enumerate(p.ev) if x.k=="st" and strip(x.a)==s]
                        ok=len(ct)==1 and len(st)==1 and sv(st[0][1].v)==sv(ct[0][1].args[0]) and "operator new" in sv(ct[0][1].args[0]) and not dt
                        obj=sv(ct[0][1].args[0]) if ct else "?"
                        # or constructed through the slot after the store
                    else: ok=len(ct)==1 and strip(sv(ct[0][1].args[0]))==s and ct[0][0]>i and not dt
                    say("F06",ok,"the reserved element is constructed %d times, by %s"%(len(ct),"; ".join(repr(x) for _,x in ct) or "nobody"),"ctor")
                    if kind.endswith("arg") and ct: say("F06",len(ct[0][1].args)==2 and sv(ct[0][1].args[1])=="arg1","the element is constructed from %s"%", ".join(map(sv,ct[0][1].args[1:])),"args")
                if not scoped and done: say("F06 F08",strip(sv(p.ev[-1].v)) in(obj,"*(%s)"%s if ty=="big" else obj),"refers to %s instead of the reserved element"%sv(p.ev[-1].v),"ref")
                if scoped and done:
                    tc=[x for x in p.ev if x.k=="call" and x.q=="probe::touch"]
                    if tc: say("F06 F08",strip(sv(tc[0].args[0])) in(obj,"*(%s)"%s if ty=="big" else obj),"the handle refers to %s instead of the reserved element"%sv(tc[0].args[0]),"href")
                    j,_,x=o[-1]
                    if kind!="allocsarg" and names[-1]=="send": say("F07 F08",load_(p,j,x.args[1])=="4095","sends the signal %s instead of the one set on the handle"%load_(p,j,x.args[1]),"hsig")
            elif kind=="range":
                if not names and not done: continue
                if not seq("F08 F11",["local_allocate_n"]): continue
                e=o[0][2]
                say("F11",sv(e.args[2])=="arg2" or sv(e.args[2])=="arg1","asks for %s elements"%sv(e.args[2]),"n")
                if done:
                    v=sv(e.args[1]); al={v}
                    for x in p.ev:
                        if x.k=="call" and re.search(r"::(vector|operator=|swap)$",x.q) and len(x.args)>1 and (sv(x.args[1]) in al): al.add(sv(x.args[0]))
                        if x.k=="call" and x.q=="memcpy" and sv(x.args[1]) in al: al.add(sv(x.args[0]))
                    say("F11","arg2" in al or "arg3" in al,"the caller gets another list than the one filled","list")
            elif kind in("insvec","inslist"):
                if not seq("F01 F11 F07",["local_insert"]): continue
                i,_,e=o[0]
                b,x=load_(p,i,e.args[1]),load_(p,i,e.args[2])
                say("F11",re.search(r"::c?begin\(arg1\)$",b) is not None and re.search(r"::c?end\(arg1\)$",x) is not None,"inserts from %s to %s"%(b,x),"bounds")
                say("F07",load_(p,i,e.args[3])=="arg2","passes the signal %s"%load_(p,i,e.args[3]),"sig")
                h=sv(e.args[4])
                say("F11",(("normal_iterator" in h) if kind=="insvec" else ("List_iterator" in h)) or "hash_code" not in h,"names the iterator type %s"%h,"type")
            elif kind=="poprange":
                if not seq("F01 F11 F07",["local_pop_range"]): continue
                e=o[0][2]
                say("F11 F07",sv(e.args[1])=="arg1" and sv(e.args[2])=="arg2","takes %s elements into %s"%(sv(e.args[2]),sv(e.args[1])),"args")
            elif kind in("pops","pops2"):
                if not done: continue
                if not seq("F06 F08",["local_peek","unpeek","recycle"]): continue
                say("F06 F08",sv(o[2][2].args[1])=="1","removes %s elements"%sv(o[2][2].args[1]),"count")
                tc=[(j,x) for j,x in enumerate(p.ev) if x.k=="call" and x.q=="probe::touch"]
                s="*(%s)"%sv(o[0][2].args[1])
                for j,x in tc:
                    t=strip(sv(x.args[0]))
                    say("F06 F08",t in(s,"*(%s)"%s if ty=="big" else s),"the handle refers to %s instead of the element"%t,"href")
                    say("F07",strip(load_(p,j,x.args[1])) =="*(%s)"%sv(o[0][2].args[2]) or strip(sv(x.args[1]))=="*(%s)"%sv(o[0][2].args[2]),"the handle's signal is %s"%sv(x.args[1]),"hsig")
                    say("F06 F08",o[0][0]<j<o[1][0],"the element is removed while the handle lives","early")
            elif kind in("peekrange","peekrange2"):
                if not names: continue
                if not seq("F08 F11",["local_peek_range"]+(["unpeek"])): continue
                e=o[0][2]; q,s,n_,at="*(%s)"%sv(e.args[1]),"*(%s)"%sv(e.args[2]),sv(e.args[3]),"*(%s)"%sv(e.args[4])
                say("F11",n_=="arg1","asks for %s elements"%n_,"n")
                tc=[(j,x) for j,x in enumerate(p.ev) if x.k=="call" and x.q=="probe::touch"]
                for j,x in tc:
                    say("F08",o[0][0]<j<o[-1][0],"the view is released while the handle lives","early")
                    a,b=strip(sv(x.args[0])),strip(sv(x.args[1]))
                    if a=="0": say("F11",b=="arg1","reports %s elements"%b,"size"); continue
                    g2=re.fullmatch(re.escape(q)+r"\[(.*)\]",a); h=re.search(re.escape(s)+r"\[(.*)\]",b)
                    if g2:
                        ix=g2[1]
                        say("F02 F11",any(y.k=="if" and (sv(y.l)=="arg2" and sv(y.r)=="arg1" and y.pred=="ult" or sv(y.l)=="arg1" and sv(y.r)=="arg2" and y.pred=="ugt") for y in p.ev[:j]),"an element behind the end of the view can be read","bound")
                        wrapped=any(y.k=="if" and "capacity" in sv(y.l)+sv(y.r) and at in strip(sv(y.l)+sv(y.r)) and "arg2" in sv(y.l)+sv(y.r) for y in p.ev)
                        say("F11",not re.search(r";arg1\)",ix) and (wrapped and at in ix and "arg2" in ix and not re.search(r"[+-]\d+$",ix) or re.match(r"urem\((.*);(virtual::\{.*capacity.*|.*max_cap.*)\)$",ix) is not None and at in ix and "arg2" in ix and not re.search(r"[+-]\d+;",ix)),"element i of the view is slot %s"%ix,"index")
                        if h: say("F07",h[1]==ix or ix in b and "][" not in b,"element i is paired with the signal of slot %s"%h[1],"pair")
    for f in m.find(rx=r"FIFO::recycle"):
        if prop not in("F06","F11"): continue
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            o=[e for _,x,e in ops(p) if x=="recycle"]
            none=any(e.k=="if" and "arg1" in sv(e.l)+sv(e.r) for e in p.ev)
            ok=len(o)==1 and sv(o[0].args[0])=="arg0" and sv(o[0].args[1])=="arg1" or not o and none
            c.ob(rule,f.where(),ok or none and all(sv(e.args[1])=="1" for e in o) and (p.cut or any(e.k=="if" and e.pred in("uge","ule","eq") and sv(e.l) in(str(len(o)),"arg1") or e.k=="if" and sv(e.l)=="arg1-%d"%len(o) and e.pred=="eq" for e in p.ev)),"skipping n elements skips %s"%("; ".join(sv(e.args[1]) for e in o) or "none"),key=rule+"|recycle")
    return n

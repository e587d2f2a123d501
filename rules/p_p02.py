"""P02: manipulators are applied to exactly the kernels they are bound to."""
from sysm import *
TECH="calls and values along all paths of instantiations with one, three and four kernels, one to three modifiers"
NOTE="binding is instantiated with modifiers that are only declared, so that each application stays visible as a call; other numbers of kernels and modifiers come from the same templates"
MIN={"P02.each":2,"P02.result":1,"P02.effect":4}
KS={"probe::u_manip_three":(["A","B"],3),"probe::u_manip_one":(["A"],1),"probe::u_manip_one3":(["A","B","C"],1),"probe::u_manip_four":(["A"],4)}
def run(c):
    c.rule("P02.each","binding kernels applies every modifier of the manipulator once to each of them, and to no other kernel")
    c.rule("P02.order","the modifiers are applied to a kernel in the order they are listed")
    c.rule("P02.result","what is returned refers to the kernels bound, in their order")
    c.rule("P02.effect","the affinity group and the core given are the ones recorded at the kernel")
    m=c.load("sys")
    for q,(mods,n) in KS.items():
        for f in c.need(m.find(q=q),"binding of %d kernels"%n):
            c.fn(f); w=n>2                      # three references come back through memory, one in a register
            ks=["arg%d"%(i+(1 if w else 0)) for i in range(n)]
            seen=0
            for p in paths(f,unroll=5):
                if p.end!="ret": continue
                seen+=1
                inv=[(re.fullmatch(r"probe::Mod(\w)::invoke",e.q)[1],sv(e.args[0])) for e in p.ev if e.k=="call" and re.fullmatch(r"probe::Mod\w::invoke",e.q or "")]
                for md in mods:
                    for k in ks: c.ob("P02.each","raftinc/raftmanip.hpp (raft::manip::bind)",inv.count((md,k))==1,"modifier %s is applied %d times to kernel %d"%(md,inv.count((md,k)),ks.index(k)+1),key="P02.each|%d"%n)
                c.ob("P02.each","raftinc/raftmanip.hpp (raft::manip::bind)",all(k in ks for _,k in inv),"a modifier is applied to %s"%[k for _,k in inv if k not in ks][:1],key="P02.each|other|%d"%n)
                for k in ks:
                    o=[md for md,x in inv if x==k]
                    c.ob("P02.order","raftinc/raftmanip.hpp (raft::manip::bind)",o==sorted(o),"the modifiers are applied in the order %s"%o,key="P02.order|%d"%n)
                mv=[e.q for e in p.ev if e.k=="call" and re.match(r"std::(__)?(reverse|rotate|(stable_)?sort|swap|swap_ranges|iter_swap|shuffle|random_shuffle|(stable_)?partition|unique|remove|remove_if|replace|fill)\b",e.q or "")]
                c.ob("P02.result","raftinc/raftmanip.hpp (raft::manip::bind)",not mv,"the references are rearranged by %s"%mv[:1],key="P02.result|moved|%d"%n)
                if w:
                    src=next((sv(e.args[1]) for e in reversed(p.ev) if e.k=="call" and e.q in("memcpy","memmove") and sv(e.args[0])=="arg0"),"arg0")
                    r=[p.last(src+("[%d]"%i if i else "")) for i in range(n)]
                    r=[sv(x) if x is not None else None for x in r]
                    if None not in r: c.ob("P02.result","raftinc/raftmanip.hpp (raft::manip::bind)",r==ks,"refers to %s"%r,key="P02.result|%d"%n)
                else:
                    r=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
                    if r and re.fullmatch(r"arg\d|0",r[-1]): c.ob("P02.result","raftinc/raftmanip.hpp (raft::manip::bind)",r[-1]==ks[0],"refers to %s"%r[-1],key="P02.result|%d"%n)
            c.ob("P02.each",f.where(),seen>0,"never comes to an end",key="P02.each|end|%d"%n)
    def recorded(p,obj,field):
        """value last recorded in a field of the object, by the setter or directly"""
        v=None
        for e in p.ev:
            if e.k=="st" and e.a==obj+"."+field: v=sv(e.v)
            if e.k=="call" and e.q==SETTER[field] and sv(e.args[0])==obj: v=sv(e.args[1])
        return v
    SETTER={"core_assign":"raft::kernel::setCore","affinity_group":"raft::kernel::setAffinityGroup"}
    for q,field,n in(("probe::u_manip_group","affinity_group",3),("probe::u_manip_core","core_assign",5)):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f,unroll=5):
                if p.end!="ret": continue
                for g in SETTER:
                    v=recorded(p,"arg0",g)
                    c.ob("P02.effect","raftinc/kernelmanip.tcc",v==(str(n) if g==field else None),"%s %d sets %s to %s"%("group" if field[0]=="a" else "core",n,g,v),key="P02.effect|%s|%s"%(field,g))
    for g,q in SETTER.items():
        for f in m.find(q=q):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                st={e.a:sv(e.v) for e in p.ev if e.k=="st" and e.a.startswith("arg0")}
                c.ob("P02.effect",f.where(),st=={"arg0."+g:"arg1"},"%s(id) sets %s"%(q.split("::")[-1],st),key="P02.effect|set|"+g)
    for f in c.need(m.find(q="raft::kernel::getCoreAssignment"),"getCoreAssignment"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            r=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
            c.ob("P02.effect",f.where(),r==["*(arg0.core_assign)"],"says %s"%r,key="P02.effect|get")

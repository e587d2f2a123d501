"""M07: kernels made by the library have one owner and are deleted exactly once."""
from sysm import *
import p_m04
from flow import callee
TECH="ownership rules over all paths: values of the owning pointer, deletions counted, marks on new kernels"
NOTE="every path of the wrapper, of make, of the clones and of the map's destructor (loops followed three times); every function searched for other deletions; sound for the stated rules"
# the operator handing over, itself decided below
GIVE="raft::kernel_wrapper::operator*(arg1)"
MIN={"M07.wrap":6,"M07.make":2,"M07.free":2,"M07.others":1}
SENT=("ce:inttoptr","8102099357864587376","c:8102099357864587376")
def dels(p):
    """[(position, kernel)] of the kernels deleted on the path"""
    return [(i,slots(p,i,sv(e.args[0]))) for i,e in enumerate(p.ev) if e.k=="call" and re.match(r"virtual::",e.q or "") and "raft::kernel::~kernel" in e.q]
def isent(p,x,upto=None):
    """True: the path found x to be the mark of an empty wrapper; False: not; None: it did not look"""
    for pr,l,r in facts(p,upto):
        for a,b in((l,r),(r,l)):
            if sv(a)==x and sv(b) in SENT: return pr=="eq"
    return None
def run(c):
    c.rule("M07.wrap","a wrapper owns one kernel or none: copying, assigning and handing over move the kernel and leave the giver empty, and only an owner deletes, once")
    c.rule("M07.reg","linking and run-time scheduling register exactly the library's kernels for deletion")
    c.rule("M07.make","kernels the library makes or clones are marked as its own before anyone sees them")
    c.rule("M07.free","the map deletes each kernel registered as the library's exactly once")
    c.rule("M07.new","a port makes a new kernel whenever it is asked for a split or a join")
    c.rule("M07.others","nothing else in the library deletes a kernel")
    m=c.load("sys")
    for k,f,T in factories(m):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v,cl=made(p)
            # what is kept in a variable of the program outlives the call: the next one is given the same kernel
            kept=re.match(r"\*?\(?g:|\*\(g:",v) or any(e.k=="st" and e.a.startswith("g:") and sv(e.v)==v for e in p.ev)
            c.ob("M07.new",f.where(),not kept,"the %s kernel made is kept and given out again"%k,key="M07.new|"+k)
    K="*(arg0.k)"
    ctors=c.need(m.find(q="raft::kernel_wrapper::kernel_wrapper"),"wrapper constructors",2)
    for f in ctors:
        c.fn(f); copy="raft::kernel_wrapper" in f.dem.split("(",1)[-1]
        for p in paths(f):
            if p.end!="ret": continue
            v=p.last("arg0.k"); v=sv(v) if v is not None else None
            if copy:
                o=p.last("arg1.k")
                c.ob("M07.wrap",f.where(),v in("*(arg1.k)",GIVE),"the copy owns %s"%v,key="M07.wrap|copy|take|"+f.dem)
                c.ob("M07.wrap",f.where(),o is not None and sv(o) in SENT or o is None and v==GIVE,"the wrapper copied from still owns the kernel",key="M07.wrap|copy|leave|"+f.dem)
            else: c.ob("M07.wrap",f.where(),v=="arg1","a new wrapper owns %s"%v,key="M07.wrap|new|"+f.dem)
            c.ob("M07.wrap",f.where(),not dels(p),"a constructor deletes a kernel",key="M07.wrap|ctor|del|"+f.dem)
    for f in m.find(q="raft::kernel_wrapper::operator="):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            d=dels(p)
            selfp=None
            for pr,l,r in facts(p):
                if {sv(l),sv(r)}=={"arg0","arg1"} and pr in("eq","ne"): selfp=pr=="eq"
            if selfp is True:
                v=p.last("arg0.k")
                c.ob("M07.wrap",f.where(),not d and (v is None or sv(v)==K),"assigning a wrapper to itself loses its kernel",key="M07.wrap|assign|self"); continue
            v=p.last("arg0.k"); o=p.last("arg1.k"); s=isent(p,K); z=null(p,K)
            want=0 if s is True or z is True else 1
            if s is None and z is not True: c.ob("M07.wrap",f.where(),False,"what it owned is overwritten or deleted unseen",key="M07.wrap|assign|unseen")
            else: c.ob("M07.wrap",f.where(),len(d)==want and all(x==K for _,x in d),"deletes %s"%[x for _,x in d],key="M07.wrap|assign|own")
            if d and selfp is None:
                early=[i for i,e in enumerate(p.ev[:d[0][0]]) if e.k=="st" and e.a=="arg1.k"]
                c.ob("M07.wrap",f.where(),bool(early),"a wrapper assigned to itself deletes its kernel",key="M07.wrap|assign|unself")
            c.ob("M07.wrap",f.where(),v is not None and sv(v) in("*(arg1.k)",GIVE),"owns %s after it"%(sv(v) if v is not None else "the same"),key="M07.wrap|assign|take")
            c.ob("M07.wrap",f.where(),o is not None and sv(o) in SENT or o is None and v is not None and sv(v)==GIVE,"the wrapper assigned from still owns the kernel",key="M07.wrap|assign|leave")
    for f in c.need([f for f in m.find(q="raft::kernel_wrapper::operator*")],"wrapper operator*"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=p.last("arg0.k"); r=[e for e in p.ev if e.k=="ret"]
            c.ob("M07.wrap",f.where(),bool(r) and sv(r[-1].v)==K,"hands over something else",key="M07.wrap|give|what")
            c.ob("M07.wrap",f.where(),v is not None and sv(v) in SENT and not dels(p),"still owns the kernel it handed over",key="M07.wrap|give|leave")
    n=0
    for f in c.need(m.find(q="raft::kernel_wrapper::~kernel_wrapper"),"wrapper destructor"):
        ps=list(paths(f))
        if any(pos(p,"raft::kernel_wrapper::~kernel_wrapper") for p in ps): continue
        c.fn(f); n+=1
        for p in ps:
            if p.end!="ret": continue
            d=dels(p); s=isent(p,K); z=null(p,K)
            if s is None and z is not True: c.ob("M07.wrap",f.where(),False,"does not look whether it still owns the kernel",key="M07.wrap|end|unseen"); continue
            want=0 if s is True or z is True else 1
            c.ob("M07.wrap",f.where(),len(d)==want and all(x==K for _,x in d),"%s: deletes %d"%("empty" if want==0 else "owner",len(d)),key="M07.wrap|end|%d"%want)
    for f in c.need(m.find(q="raft::kernel::make")+[f for q in sorted(m.byq) for f in m.find(q=q) if re.search(r"(^|::)clone$",q) and q!="raft::kernel::clone"],"make and clones",2):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            if f.q.endswith("make"):
                w=pos(p,"raft::kernel_wrapper::kernel_wrapper")
                c.ob("M07.make",f.where(),len(w)==1,"%d wrappers made"%len(w),key="M07.make|wrapper|"+f.q)
                if len(w)!=1: continue
                x=slots(p,w[0],sv(p.ev[w[0]].args[1])); upto=w[0]
            else:
                r=[e for e in p.ev if e.k=="ret"]; x=sv(r[-1].v); upto=len(p.ev)
            c.ob("M07.make",f.where(),x.startswith("operator new("),"hands out %s, not a new kernel"%x[:60],key="M07.make|new|"+f.q)
            ct=[i for i,e in enumerate(p.ev) if e.k=="call" and e.args and sv(e.args[0])==x and re.search(r"::(\w+)::\1$|^(\w+)::\2$",e.q or "")]
            st=[(i,sv(e.v)) for i,e in enumerate(p.ev[:upto]) if e.k=="st" and e.a==x+".internal_alloc"]
            c.ob("M07.make",f.where(),bool(st) and st[-1][1]!="0" and "internal_alloc" not in st[-1][1] and (not ct or st[-1][0]>max(i for i in ct)),"the new kernel is not marked as the library's",key="M07.make|mark|"+f.q)
    # user kernels: the mark is clear from birth
    for f in c.need(m.find(q="raft::kernel::kernel"),"kernel constructors"):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            v=p.last("arg0.internal_alloc")
            if v is None and pos(p,"raft::kernel::kernel"): continue
            c.ob("M07.make",f.where(),v is not None and sv(v)=="0","a kernel is born with the mark %s"%(sv(v) if v is not None else "unset"),key="M07.make|user|"+f.dem)
    # the map learns of every kernel it has to delete
    for q,al in(("MapBase::updateKernels",["*(arg1)","*(arg2)"]),("Schedule::scheduleKernel",["arg1"])):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f):
                if p.end=="ret": p_m04.own(c,"M07.reg",f,p,al)
    # the map's end
    n=0
    for f in c.need(m.find(q="MapBase::~MapBase"),"MapBase destructor"):
        ps=list(paths(f))
        if all(pos(p,"MapBase::~MapBase") for p in ps): continue
        c.fn(f); n+=1
        some=False
        for p in ps:
            d=dels(p); xs=[x for _,x in d]
            dup=[x for x in set(xs) if xs.count(x)>1]
            c.ob("M07.free",f.where(),not dup,"deletes the same kernel twice",key="M07.free|twice")
            acq=[mem(sv(p.ev[i].args[0])) for i in pos(p,"keeper::acquire")]
            if d or p.end=="ret": c.ob("M07.free",f.where(),all(a=="internally_created_kernels" for a in acq) and (bool(acq) or p.end!="ret" ),"deletes the kernels of %s"%acq,key="M07.free|which")
            it=iterfacts(p)
            for k,(i,end) in enumerate(it):
                if end: continue
                hi=it[k+1][0] if k+1<len(it) else None
                if hi is None: continue
                turn=[x for j,x in d if i<j<hi]
                cur=[e for e in p.ev[i:hi] if e.k=="if" and ZERO in(e.l,e.r) and re.match(r"\*\(std::_Rb_tree\w*::operator\*",sv(e.l))]
                isnull=any(e.pred=="eq" for e in cur)
                if isnull: c.ob("M07.free",f.where(),len(turn)<=1,"%d deletions for an empty entry"%len(turn),key="M07.free|null")
                else:
                    c.ob("M07.free",f.where(),len(turn)==1,"%d deletions for one registered kernel"%len(turn),key="M07.free|each")
                    some=some or len(turn)==1
            some=some or bool(d)
            if p.end=="ret" and it: c.ob("M07.free",f.where(),it[-1][1],"stops before the last registered kernel",key="M07.free|all")
        c.ob("M07.free",f.where(),some,"no registered kernel is deleted",key="M07.free|any")
    own=re.compile(r"raft::kernel_wrapper::.*|MapBase::~MapBase")
    k=0; look={}
    for x in m.raw:
        if own.fullmatch(m.q(x)): continue
        k+=1; f=m.func(x)
        for I in f.insts():
            q=callee(I)
            pt=I.get("path")
            if pt and pt[-1].get("n")=="k" and pt[-1].get("s")=="kernel_wrapper":
                look.setdefault(f.m,(f,[]))[1].append(I.id)
            if q and q.startswith("virtual::") and "raft::kernel::~kernel" in q:
                c.ob("M07.others",f.where(),False,"%s deletes a kernel"%f.q,key="M07.others|"+(f.q or ""))
    for f,ids in look.values():
        ld=[I for I in f.insts() if I.op=="load" and I.a[0].get("v") in ids]; st=[I for I in f.insts() if I.op=="store" and I.a[1].get("v") in ids]
        c.ob("M07.others",f.where(),not ld or bool(st),"%s takes the kernel out of a wrapper that keeps owning it"%f.q,key="M07.others|peek|"+f.q)
    c.ob("M07.others","(all functions)",k>0,"%d functions searched"%k,key="M07.others|searched")
    ranges(c,c.load("sys"),"M07.range",r"MapBase::.*|kernel_wrapper::.*")

"""K03: file chunks cover the file, searches report true positions."""
from sysm import *
from p_k04 import ev, holds
from p_k02 import visited
TECH="protocol of the file operations and provenance of every chunk field along all paths; algebra of the positions a search reports"
NOTE="the reader for one chunk size, one run with up to two chunks per path; fread, ftell, fseek and std::search are taken as specified; that the overlap is smaller than a chunk is the caller's part"
MIN={"K03.read":20,"K03.last":6,"K03.search":8,"K03.copy":8,"K03.iter":8,"K03.make":6}
def strip(x): return re.sub(r"'\d+","",x or "")
def run(c):
    c.rule("K03.read","each chunk is read from where the last one ended, less the overlap, and carries its offset, number, length and terminator")
    c.rule("K03.last","a chunk is sent once, with end-of-file exactly when the end of the file was reached, and the reader stops then")
    c.rule("K03.search","a search covers the whole chunk, reports every match found by start and end in the file, continues one past it and gives the chunk back once")
    c.rule("K03.copy","a copy of a chunk has the content, terminator, offset, length and number of the original")
    c.rule("K03.iter","chunk iterators run from the first to one past the last character, step by the number asked for, compare by position and know their place in the file")
    c.rule("K03.make","the reader opens the file given, knows its length, its overlap and its ports; the search keeps its term")
    m=c.load("sys"); STOP,GO,EOF,NONE=[const(m,x) for x in("stop","proceed","eof","none")]
    for f in c.need(m.find(q="raft::filereader::run"),"filereader::run"):
        c.fn(f); site=f.where(); mm=re.search(r"filechunk<(\d+)",f.dem); SZ=int(mm[1]) if mm else None
        for p in paths(f,unroll=1):
            if p.end!="ret": continue
            ended=False
            if possible(p,"*(arg0.init)",(0,1))==set() and not any(e.k=="st" and e.a=="arg0.init" for e in p.ev[:max([i for i,e in enumerate(p.ev) if e.k=="if" and sv(e.l)=="*(arg0.init)"])]): continue
            for lo,hi,objs in visited(p):
                res=[i for i in pos(p,r"FIFO::allocate(_s)?") if lo<=i<hi]
                rd=[i for i in pos(p,r"fread(_unlocked)?") if lo<=i<hi]
                if not res and not rd: continue
                c.ob("K03.last",site,not ended,"reads on after the chunk with end-of-file",key="K03.last|after")
                c.ob("K03.read",site,len(res)==1 and len(rd)==1,"reserves %d chunks and reads %d times"%(len(res),len(rd)),key="K03.read|once")
                if len(res)!=1 or len(rd)!=1: continue
                r=res[0]; k=rd[0]; e=p.ev[k]
                if p.ev[r].q!="FIFO::allocate": continue
                X=sv(p.ev[r].res); a=[sv(x) for x in e.args]; R=sv(e.res)
                c.ob("K03.read",site,a[0] in(X+".buffer[0]",X+".buffer",X),"reads into %s"%a[0][-60:],key="K03.read|into")
                c.ob("K03.read",site,a[3]=="*(arg0.fp)","reads from %s"%a[3],key="K03.read|file")
                s,n=e.args[1],e.args[2]
                if not s[0] and not n[0] and SZ:
                    c.ob("K03.read",site,s[1]*n[1]<=SZ-1,"reads %d bytes into a chunk of %d with a terminator"%(s[1]*n[1],SZ),key="K03.read|room")
                    c.ob("K03.read",site,s[1]==1,"reads units of %d bytes, so that a partial one is lost"%s[1],key="K03.read|unit")
                def val(fld):
                    v=[(i,sv(x.v)) for i,x in enumerate(p.ev) if lo<=i<hi and x.k=="st" and x.a==X+"."+fld]
                    return v[-1] if v else (None,None)
                snd=[(i,x) for i,o,x in vcalls(p,"send") if o in objs and lo<=i<hi]
                c.ob("K03.last",site,len(snd)==1,"sends the chunk %d times"%len(snd),key="K03.last|sent")
                S=snd[0][0] if snd else hi
                # offset: the position told after any seek and before the read
                i,v=val("start_position")
                seeks=[j for j in pos(p,r"fseeko?|std::fseek") if lo<=j<hi]
                tell=[j for j in pos(p,r"ftello?|std::ftell") if lo<=j<hi]
                ok=None
                if i is not None:
                    src=[j for j in tell if p.ev[j].res is not None and sv(p.ev[j].res)==v]
                    ok=bool(src) and src[0]<k and all(j<src[0] for j in seeks if j<k) and sv(p.ev[src[0]].args[0])=="*(arg0.fp)"
                    if not src and not "ftell" in v: ok=None if re.search(r"\*\(arg0\.(?!chunk_index|length|init)\w+\)",v) else False
                c.ob("K03.read",site,i is not None and ok is not False and i<S,"the offset of a chunk is %s, not where its data was read from"%(v if i is not None else "not set"),key="K03.read|offset")
                # overlap
                init=possible(p,"*(arg0.init)",(0,1),k)
                stinit=[j for j,x in enumerate(p.ev[:lo]) if x.k=="st" and x.a=="arg0.init"]
                first=init=={0} and not stinit
                for j in seeks:
                    q=[x for x in p.ev[j].args]
                    neg=dict(q[1][0])=={"*(arg0.chunk_offset)":-1} and q[1][1]==0
                    c.ob("K03.read",site,sv(q[0])=="*(arg0.fp)" and j<k,"moves in the file after the read",key="K03.read|seek")
                    c.ob("K03.read",site,q[2]!=((),2) or "length" in sv(q[1]),"moves relative to the end of the file",key="K03.read|overlap")
                    if q[2]==((),1) : c.ob("K03.read",site,neg and not first,"moves by %s from the current position%s"%(sv(q[1])," before the first chunk" if first else ""),key="K03.read|overlap")
                if init is not None and not first: c.ob("K03.read",site,len(seeks)==1,"moves %d times before a later chunk"%len(seeks),key="K03.read|overlap")
                if first: c.ob("K03.read",site,any(x.k=="st" and x.a=="arg0.init" and x.v==((),1) for x in p.ev[lo:hi]),"does not remember that the first chunk was read",key="K03.read|init")
                i,v=val("length"); c.ob("K03.read",site,v is not None and v==R and i<S,"the length of a chunk is %s"%v,key="K03.read|length")
                t=[(i,x.a) for i,x in enumerate(p.ev) if k<i<S and x.k=="st" and x.v==ZERO and x.a.startswith(X+".buffer[")]
                c.ob("K03.read",site,any(y==X+".buffer[%s]"%R for _,y in t),"a chunk is not terminated after its last character",key="K03.read|terminator")
                i,v=val("index")
                up=[sv(x.v) for x in p.ev[lo:hi] if x.k=="st" and x.a=="arg0.chunk_index"]
                if i is not None:
                    b=re.fullmatch(r"(\*\(arg0\.chunk_index\))(?:\+(\d+))?",v)
                    n0=sum(1 for j,x in enumerate(p.ev[:lo]) if x.k=="st" and x.a=="arg0.chunk_index")
                    if b: c.ob("K03.read",site,len(up)==1 and int(b[2] or 0)==n0 and re.search(r"\+%d$"%(n0+1),up[0]) is not None,"the number of a chunk is %s, the next %s"%(v,up),key="K03.read|index")
                else: c.ob("K03.read",site,False,"a chunk has no number",key="K03.read|index")
                # last
                for S,x in snd:
                    sig=p.ev[S].args[1] if len(p.ev[S].args)>1 else ((),NONE)
                    if sig[0]: continue
                    short=possible(p,R,range(0,SZ),S) if SZ else None
                    isshort=short is not None and SZ-1 not in short; isfull=short is not None and short<={SZ-1}
                    atend=before=weak=other=False
                    for pr,l,rr in facts(p,S):
                        for A,B,g in((sv(l),sv(rr),{"sge":1,"uge":1,"slt":0,"ult":0,"eq":1,"sgt":1,"ugt":1,"ne":0,"sle":None,"ule":None}),(sv(rr),sv(l),{"sle":1,"ule":1,"sgt":0,"ugt":0,"eq":1,"slt":1,"ult":1,"ne":0,"sge":None,"uge":None})):
                            if A.startswith("ftell") and "length" in B and any(sv(p.ev[j].res)==A and j>k for j in tell):
                                if g.get(pr)==1: atend=True
                                elif g.get(pr)==0: before=True
                                elif pr in g: weak=True
                            elif "length" in A+B and "arg0" in A+B and not A.startswith("ftell") and not B.startswith("ftell"): other=True
                            if re.match(r"feof\(",A) and B=="0":
                                if pr!="eq": atend=True
                    if sig[1]==EOF:
                        c.ob("K03.last",site,isshort or atend,"sends end-of-file before the end of the file",key="K03.last|early"); ended=True
                    else:
                        c.ob("K03.last",site,sig[1]==NONE,"sends a chunk with signal %d"%sig[1],key="K03.last|signal")
                        c.ob("K03.last",site,not atend and not isshort and (before or other and not weak),"sends a chunk that may be the last without end-of-file",key="K03.last|missing")
            r=retval(p)
            if r is not None: c.ob("K03.last",site,(r==STOP)==ended,"%s after a chunk %s end-of-file"%("stops" if r==STOP else "goes on","with" if ended else "without"),key="K03.last|stop")
    # ------------------------------------------------------------------- search
    for f in c.need(m.find(q="raft::search::run"),"search::run"):
        c.fn(f); site=f.where(); seen=False
        for p in paths(f,unroll=1):
            fnd=pos(p,r"std::search")
            pk=[i for i in pos(p,"FIFO::peek")]
            if not fnd: continue
            seen=True
            for n,i in enumerate(fnd):
                a=[sv(x) for x in p.ev[i].args]
                if len(a)!=5: continue
                def loc(x,fld,at):
                    r=None
                    for e in p.ev[:at]:
                        if e.k=="st" and e.a=="%s.%s"%(x,fld): r=sv(e.v)
                    return r if r is not None else "*(%s.%s)"%(x,fld)
                b,en=loc(a[1],"index",i),loc(a[2],"index",i)
                ch=loc(a[2],"chunk",i)
                c.ob("K03.search",site,en=="*(%s.length)"%ch,"searches up to %s"%en[-60:],key="K03.search|end")
                c.ob("K03.search",site,re.search(r"basic_string::c?begin\(arg0\.term\)",a[3]) and re.search(r"basic_string::c?end\(arg0\.term\)",a[4]),"searches for %s"%a[3:],key="K03.search|term")
                if n==0: c.ob("K03.search",site,b=="0","starts at %s"%b,key="K03.search|start")
                else:
                    prev=sv(p.ev[fnd[n-1]].args[0])
                    c.ob("K03.search",site,b=="*(%s.index)+1"%prev,"continues at %s after a match"%b,key="K03.search|step")
                # the match
                R=a[0]; hi=fnd[n+1] if n+1<len(fnd) else len(p.ev)
                hit=None
                for e in p.ev[i:hi]:
                    if e.k!="if": continue
                    for x,y in((sv(e.l),sv(e.r)),(sv(e.r),sv(e.l))):
                        if x=="*(%s.index)"%R and y.endswith(".length)"):
                            if e.pred=="eq": hit=False
                            elif e.pred in("ne","ult","slt","ugt"): hit=True if hit is None else hit
                            elif e.pred in("uge","sge"): hit=False
                push=[j for j in pos(p,"FIFO::push") if i<j<hi]
                if p.end not in("ret",) and n+1==len(fnd): continue
                if hit is not None: c.ob("K03.search",site,len(push)==(1 if hit else 0),"reports %d matches where it %s"%(len(push),"found one" if hit else "found none"),key="K03.search|reports")
                for j in push:
                    o=sv(p.ev[j].args[1])
                    v0=[e.v for e in p.ev[:j] if e.k=="st" and e.a==o+".#0"]; v1=[e.v for e in p.ev[:j] if e.k=="st" and e.a==o+".#1"]
                    if not v0 or not v1: continue
                    d0=dict(v0[-1][0]); d1=dict(v1[-1][0])
                    st=[t for t in d0 if t.endswith(".start_position)")]
                    c.ob("K03.search",site,len(st)==1 and d0=={st[0]:1,"*(%s.index)"%R:1} and v0[-1][1]==0,"reports a start of %s"%sv(v0[-1])[-70:],key="K03.search|position")
                    diff={t:k for t,k in {**d1,**{t:d1.get(t,0)-k for t,k in d0.items()}}.items() if k}
                    c.ob("K03.search",site,(diff=={"*(arg0.term_length)":1} or all("basic_string::" in t and "arg0.term" in t for t in diff) and len(diff)==1) and v1[-1][1]==v0[-1][1],"a match ends %s after its start"%(diff or v1[-1][1]-v0[-1][1]),key="K03.search|length")
            if p.end=="ret":
                c.ob("K03.search",site,len(pk)==1,"looks at %d chunks"%len(pk),key="K03.search|peek")
                rec=pos(p,"FIFO::recycle")
                c.ob("K03.search",site,len(rec)==1 and p.ev[rec[0]].args[1]==((),1) and rec[0]>fnd[-1],"gives back %s"%[sv(p.ev[i].args[1]) for i in rec],key="K03.search|recycle")
                if retval(p) is not None: c.ob("K03.search",site,retval(p)==GO,"asks to stop",key="K03.search|stop")
        c.ob("K03.search",site,seen or not m.find(q="std::search"),"never searches",key="K03.search|none")
    # --------------------------------------------------------------------- copy
    fs=[f for f in m.find(rx=r"raft::filechunk::(filechunk|operator=)") if re.search(r"filechunk<\d+(ul)?> const&\)",f.dem)]
    for f in c.need(fs,"chunk copies"):
        c.fn(f); site=f.where()
        for p in paths(f):
            if p.end!="ret" or same_obj(p): continue
            last={}
            for e in p.ev:
                if e.k=="st": last[e.a]=sv(e.v)
            for fld in("start_position","length","index"):
                c.ob("K03.copy",site,last.get("arg0."+fld)=="*(arg1.%s)"%fld,"%s becomes %s"%(fld,last.get("arg0."+fld)),key="K03.copy|%s|%s"%(f.q,fld))
            cp=[e for e in p.ev if e.k=="call" and re.fullmatch(r"(llvm\.)?mem(cpy|move).*|std::mem(cpy|move)|str(n)?cpy|std::copy(_n)?",e.q or "") and len(e.args)>2]
            if not cp: c.ob("K03.copy",site,any("buffer" in (e.a or "") for e in p.ev if e.k=="st") or any(e.k=="call" for e in p.ev),"does not copy the content",key="K03.copy|%s|content"%f.q); continue
            e=cp[-1]; a=[sv(x) for x in e.args]
            if "cpy" in e.q or "memmove" in e.q:
                c.ob("K03.copy",site,a[0] in("arg0.buffer[0]","arg0.buffer") and a[1] in("arg1.buffer[0]","arg1.buffer"),"copies %s to %s"%(a[1],a[0]),key="K03.copy|%s|content"%f.q)
                n=e.args[2]; mm=re.search(r"filechunk<(\d+)",f.dem); SZ=int(mm[1]) if mm else 0
                full=not n[0] and n[1]>=SZ
                c.ob("K03.copy",site,full or (len(n[0])==1 and n[0][0][0] in("*(arg1.length)","*(arg0.length)") and n[0][0][1]==1 and n[1]==1),"copies %s bytes of the content"%a[2],key="K03.copy|%s|extent"%f.q)
                if n[0] and n[0][0][0]=="*(arg0.length)":
                    j=p.ev.index(e); c.ob("K03.copy",site,any(x.k=="st" and x.a=="arg0.length" and sv(x.v)=="*(arg1.length)" for x in p.ev[:j]),"copies as much as the old content",key="K03.copy|%s|extent"%f.q)
    # ---------------------------------------------------------------- iterators
    def fin(p):
        d={}
        for e in p.ev:
            if e.k=="st": d[e.a]=e.v
        return d
    for q,k in(("raft::filechunk::begin","0"),("raft::filechunk::end","*(arg1.length)")):
        for f in c.need(m.find(q=q),q):
            c.fn(f)
            for p in paths(f):
                if p.end!="ret": continue
                d=fin(p)
                if "arg0.index" in d: c.ob("K03.iter",f.where(),sv(d["arg0.index"])==k and sv(d.get("arg0.chunk",ZERO))=="arg1","%s is at %s"%(q.split("::")[-1],sv(d["arg0.index"])),key="K03.iter|"+q)
    for f in m.find(rx=r"raft::chunk_iterator::(chunk_iterator|operator=|operator\+\+|operator\+=.*|operator==|operator!=|operator<=?|operator\*|location)"):
        nm=f.q.split("::")[-1].split("<")[0] if "+=" in f.q else f.q.split("::")[-1]; c.fn(f); site=f.where()
        copy=re.search(r"chunk_iterator<\d+(ul)?> const&\)",f.dem)
        for p in paths(f):
            if p.end!="ret": continue
            d={k:sv(v) for k,v in fin(p).items()}; r=[e.v for e in p.ev if e.k=="ret"][-1]; r=sv(r) if r is not None else ""
            def ob(ok,msg): c.ob("K03.iter",site,ok,"%s: %s"%(nm,msg),key="K03.iter|"+nm)
            if nm in("chunk_iterator","operator=") and copy:
                if not same_obj(p): ob(d.get("arg0.chunk")=="*(arg1.chunk)" and d.get("arg0.index")=="*(arg1.index)","a copy is at %s"%d.get("arg0.index"))
            elif nm=="chunk_iterator": ob(d.get("arg0.chunk")=="arg1" and d.get("arg0.index")==("arg2" if len(f.args)>2 else "0"),"starts at %s"%d.get("arg0.index"))
            elif nm=="operator++": ob(d.get("arg0.index")=="*(arg0.index)+1","moves to %s"%d.get("arg0.index"))
            elif nm=="operator+=": ob(d.get("arg0.index") in("*(arg0.index)+arg1","arg1+*(arg0.index)"),"moves to %s"%d.get("arg0.index"))
            elif nm in("operator==","operator!=","operator<","operator<="):
                ob("arg0.index" in r or not re.search(r"arg0\.(is_end|chunk)",r),"compares %s"%r)
                mm=re.fullmatch(r"cmp\((.*) (\w+) (.*)\)",r)
                if mm and mm[1]=="*(arg0.index)" and mm[3]=="*(arg1.index)":
                    w={"operator==":"eq","operator!=":"ne","operator<":"ult","operator<=":"ule"}[nm]
                    ob(mm[2]==w,"compares by %s"%mm[2])
            elif nm=="operator*": ob(r in("*(*(arg0.chunk).buffer[*(arg0.index)])","*(*(arg0.chunk)[*(arg0.index)])") or "call" in r,"yields %s"%r)
            elif nm=="location": ob(set(re.split(r"\+",r))=={"*(*(arg0.chunk).start_position)","*(arg0.index)"},"is %s"%r)
    # ------------------------------------------------------------- construction
    for f in c.need(m.find(q="raft::filereader::filereader"),"filereader constructor"):
        c.fn(f); site=f.where()
        for p in paths(f,unroll=2):
            if p.end!="ret": continue
            d={k:sv(v) for k,v in fin(p).items()}; S=Strs(p)
            op=pos(p,r"(std::)?fopen(64)?")
            c.ob("K03.make",site,len(op)==1 and d.get("arg0.fp")==sv(p.ev[op[0]].res),"keeps the file %s"%d.get("arg0.fp"),key="K03.make|file")
            for i in op: c.ob("K03.make",site,re.search(r"basic_string::(c_str|data)\(arg1\)",sv(p.ev[i].args[0])) is not None and re.match(r"str:'rb?'",sv(p.ev[i].args[1])),"opens %s %s"%(sv(p.ev[i].args[0])[-40:],sv(p.ev[i].args[1])),key="K03.make|open")
            if op: c.ob("K03.make",site,null(p,sv(p.ev[op[0]].res)) is not True,"goes on without a file",key="K03.make|noopen")
            c.ob("K03.make",site,d.get("arg0.chunk_offset")=="arg2","keeps an overlap of %s"%d.get("arg0.chunk_offset"),key="K03.make|overlap")
            l=d.get("arg0.length"); c.ob("K03.make",site,l is not None and (l.endswith("st_size)") or not re.fullmatch(r"\d+",l)),"takes the file to be %s long"%l,key="K03.make|length")
            c.ob("K03.make",site,d.get("arg0.init")=="0" and d.get("arg0.chunk_index")=="0","starts with chunk %s"%d.get("arg0.chunk_index"),key="K03.make|first")
            names=[]
            for i in pos(p,"Port::addPort"):
                a=[sv(x) for x in p.ev[i].args]; k=None
                for x in p.ev[:i]:
                    if x.k=="call" and re.search(r"to_string$",x.q or "") and sv(x.args[0])==a[1]: k=sv(x.args[1])
                c.ob("K03.make",site,a[0]=="arg0.output","adds a port to %s"%a[0],key="K03.make|side"); names.append(k)
            for n in range(3):
                if all(x is None or y is None or holds(pr,x,y) for pr,x,y in((pr,ev(l,{"arg3":n}),ev(r,{"arg3":n})) for pr,l,r in facts(p))):
                    c.ob("K03.make",site,None in names or names==[str(k) for k in range(n)],"asked for %d ports it has %s"%(n,names),key="K03.make|ports")
    for f in c.need(m.find(q="raft::search::search"),"search constructor"):
        c.fn(f); site=f.where()
        for p in paths(f):
            if p.end!="ret": continue
            d={k:sv(v) for k,v in fin(p).items()}
            t=[sv(p.ev[i].args[1]) for i in pos(p,STR+r"(basic_string|operator=|assign)") if sv(p.ev[i].args[0])=="arg0.term"]
            c.ob("K03.make",site,bool(t) and t[-1]=="arg1","keeps the term %s"%t,key="K03.make|term")
            l=d.get("arg0.term_length")
            if l: c.ob("K03.make",site,re.search(r"basic_string::(length|size)\((arg1|arg0\.term)\)",l) is not None,"takes the term to be %s long"%l,key="K03.make|termlength")
            P=sorted((sv(p.ev[i].args[0]),sv(p.ev[i].args[1])) for i in pos(p,"Port::addPort"))
            c.ob("K03.make",site,[x for x,_ in P]==["arg0.input","arg0.output"],"has the ports %s"%P,key="K03.make|searchports")
def same_obj(p):
    """the path of a self-assignment"""
    return any(pr=="eq" and {sv(l),sv(r)}=={"arg0","arg1"} for pr,l,r in facts(p))

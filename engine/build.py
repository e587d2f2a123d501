"""Translates /repo's current sources to IR and runs the dumper on it.

Everything is derived from the working tree on every run; results are kept in
/verif/.cache under the hash of every input, so that consecutive checks on one
tree need not repeat the translation.
"""
import hashlib, os, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("RAFT_REPO","/repo")
FRONT=os.path.join(VERIF,"frontend")
CACHE=os.environ.get("RAFT_CACHE") or os.path.join(VERIF,".cache")
LLVM="/usr/lib/llvm-18"

class AnalysisError(Exception):
    """the analysis cannot be carried out (anchor missing, translation failed)"""

BASE=["-std=gnu++17","-include","cstdint","-DSTRING_NAMES=1","-DL1D_CACHE_LINE_SIZE=64","-DRDTSCP=1","-DNDEBUG"]
IRF=["-w","-O0","-g","-fstandalone-debug","-Xclang","-disable-O0-optnone","-flto","-fwhole-program-vtables",
     "-fvisibility=hidden","-emit-llvm","-c"]
# scheduling syscalls wrapper of the (absent) affinity module; nothing of RaftLib's own behaviour is in it
EXCLUDED={"sysschedutil.cpp"}

def inc(): return ["-I"+os.path.join(FRONT,"stubs"),"-I"+REPO,"-I"+os.path.join(REPO,"raftinc")]

def _h(paths,*extra):
    h=hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p,"rb") as f: h.update(f.read())
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:24]

def repo_sources():
    r=[]
    for d in("raft*","src"):
        for top in glob.glob(os.path.join(REPO,d)):
            if os.path.isfile(top): r.append(top); continue
            for dp,dn,fn in os.walk(top):
                r+= [os.path.join(dp,x) for x in fn if x.endswith((".hpp",".h",".tcc",".cpp",".hh",".inl",".txt")) or "." not in x]
    return r

def srcs():
    return sorted(x for x in glob.glob(os.path.join(REPO,"src","*.cpp")) if os.path.basename(x) not in EXCLUDED)

def run(cmd,**k):
    return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)

def tool():
    src=os.path.join(FRONT,"irdump.cpp")
    key=_h([src])
    out=os.path.join(CACHE,"irdump-"+key)
    if not os.path.exists(out):
        os.makedirs(CACHE,exist_ok=True)
        fl=subprocess.check_output([LLVM+"/bin/llvm-config","--cxxflags"],text=True).split()
        tmp=out+".%d"%os.getpid()
        r=run(["clang++"]+fl+["-O1",src,"-o",tmp,"-L"+LLVM+"/lib","-lLLVM-18"])
        if r.returncode: raise AnalysisError("cannot build irdump: "+r.stdout[-2000:])
        os.replace(tmp,out)
    return out

def _compile(src,out,extra=()):
    tmp=out+".%d.%d"%(os.getpid(),id(src)%9999)
    r=run(["clang++"]+BASE+list(extra)+inc()+IRF+[src,"-o",tmp])
    if r.returncode:
        if os.path.exists(tmp): os.unlink(tmp)
        return r.stdout
    os.replace(tmp,out)
    return None

_key=None
def treekey():
    global _key
    if _key is None:
        fr=[os.path.join(dp,x) for dp,dn,fn in os.walk(FRONT) for x in fn]
        _key=_h(repo_sources()+fr,BASE,IRF)
    return _key

def bitcode(units):
    """bit code files of the named units (lib, inst, or another probe file)"""
    os.makedirs(CACHE,exist_ok=True)
    k=treekey()
    prune()
    def one(u):
        if u=="lib":
            out=os.path.join(CACHE,"lib-%s.bc"%k)
            if os.path.exists(out): return [out]
            un=os.path.join(CACHE,"unity-%s.cpp"%k)
            with open(un,"w") as f:
                for s in srcs(): f.write('#include "%s"\n'%s)
            e=_compile(un,out,["-DLIBCOMPILE=1"])
            if e is None: return [out]
            # the files do not go together in one unit: one by one
            outs=[]; 
            def each(s):
                o=os.path.join(CACHE,"lib-%s-%s.bc"%(k,os.path.basename(s)))
                if os.path.exists(o): return o,None
                return o,_compile(s,o,["-DLIBCOMPILE=1"])
            with ThreadPoolExecutor(8) as ex: rs=list(ex.map(each,srcs()))
            bad=[e for o,e in rs if e]
            if bad: raise AnalysisError("sources do not compile: "+bad[0][:3000])
            return [o for o,e in rs]
        out=os.path.join(CACHE,"%s-%s.bc"%(u,k))
        if os.path.exists(out): return [out]
        e=_compile(os.path.join(FRONT,u+".cpp"),out)
        if e: raise AnalysisError("probe unit %s does not compile: %s"%(u,e[:3000]))
        return [out]
    with ThreadPoolExecutor(8) as ex: rs=list(ex.map(one,units))
    return [x for r in rs for x in r]

def prune():
    """keep the cache small"""
    try:
        fs=sorted(glob.glob(os.path.join(CACHE,"*")),key=os.path.getmtime)
        fs=[f for f in fs if not os.path.basename(f).startswith("irdump-")]
        for f in fs[:-60]: os.unlink(f)
    except OSError: pass

def dump(profile):
    """path of the JSON for profiles/<profile>.txt; its 'unit' lines name the translation units"""
    pf=os.path.join(VERIF,"profiles",profile+".txt")
    common=os.path.join(VERIF,"profiles","common.inc")
    txt=open(common).read()+open(pf).read()
    units=[l.split()[1] for l in txt.splitlines() if l.startswith("unit ")]
    t=tool()
    out=os.path.join(CACHE,"dump-%s-%s-%s.json"%(profile,treekey(),_h([t],txt)[:8]))
    if not os.path.exists(out):
        bcs=bitcode(units)
        with tempfile.NamedTemporaryFile("w",suffix=".txt",delete=False) as f: f.write(txt)
        tmp=out+".%d"%os.getpid()
        r=run([t,f.name,tmp,REPO+":"+FRONT]+bcs)
        os.unlink(f.name)
        if r.returncode: raise AnalysisError("irdump failed: "+r.stdout[-2000:])
        os.replace(tmp,out)
    return out

_mods={}
def load(profile):
    import ir
    if profile not in _mods: _mods[profile]=ir.Module(dump(profile))
    return _mods[profile]

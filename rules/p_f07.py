"""F07: a signal stays attached to the element it was sent with."""
import fifo
from paths import *
TECH="typestate walk over all paths of the stream operations; stored and returned values of the signal cell's operations"
NOTE="every path of every stream operation of every storage class, loops followed three times"
R={}
NONE=None
def cell(c,m):
    """the cell that holds a signal keeps what it was given"""
    c.rule("F07.cell","a signal cell starts without a signal, takes over the signal assigned or copied, and yields the signal it holds")
    for f in m.find(rx=r"Buffer::Signal::.*"):
        c.fn(f); n=f.q.split("::")[-1]; byref=f.dem.rstrip().endswith(("&)","&&)"))
        for p in paths(f):
            if p.end!="ret": continue
            if n=="Signal" or n=="operator=":
                v=p.last("arg0.sig"); s=sv(v) if v is not None else None
                if f.dem.endswith("()"): ok=s=="0"; w="starts with"
                elif "Buffer::Signal" in f.dem.split("(",1)[-1]: ok=s in("*(arg1.sig)",) or any(e.k=="call" and e.q in("memcpy","memmove") and sv(e.args[0])=="arg0" and sv(e.args[1])=="arg1" for e in p.ev); w="a copy holds"
                else: ok=s in("arg1","*(arg1)"); w="assigned, it holds"
                c.ob("F07.cell",f.where(),ok,"%s %s"%(w,s),key="F07.cell|"+f.dem)
            elif "operator raft::signal" in f.dem:
                r=[sv(e.v) for e in p.ev if e.k=="ret" and e.v is not None]
                c.ob("F07.cell",f.where(),bool(r) and r[-1]=="*(arg0.sig)","yields %s"%(r[-1] if r else "nothing"),key="F07.cell|"+f.dem)
def run(c):
    fifo.report(c,"F07",R)
    cell(c,c.load("fifo"))

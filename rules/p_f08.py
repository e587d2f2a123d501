import fifo
from paths import *
R={"F08.fresh":"a new stream has no reservation open"}
def run(c):
    fifo.report(c,"F08",R)
    m=c.load("fifo")
    for f in c.need(m.find(q="RingBuffer::RingBuffer"),"constructors of streams",2):
        c.fn(f)
        for p in paths(f):
            if p.end!="ret": continue
            at={}
            for e in p.ev:
                if e.k=="st" and re.fullmatch(r"arg0\.producer_data(\.allocate_called)?",e.a): at["flag"]=e.v
            c.ob("F08.fresh",f.where(),not any(isK(v) and v[1]!=0 for v in at.values()),"a new stream starts with an open reservation",key="F08.fresh")

import fifo
R={}
def run(c): fifo.report(c,"F01",R)

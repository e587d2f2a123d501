import fifo
R={}
def run(c): fifo.report(c,"F06",R)

import fifo
R={}
def run(c): fifo.report(c,"F02",R)

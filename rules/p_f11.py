import fifo
R={}
def run(c): fifo.report(c,"F11",R)

import fifo
R={"F03.touch":"slots and positions are touched only while an access is announced and verified",
 "F03.pair":"announcements and withdrawals pair up, with the same key",
 "F03.end":"on return exactly the operation's documented access is open",
 "F03.throw":"no exception leaves an access announced",
 "F03.yield":"no access is announced while waiting"}
def run(c): fifo.report(c,"F03",R)
MIN={"F03.touch":40,"F03.pair":40,"F03.end":30,"F03.yield":20}

#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (by commit subject) and recorded ones."""
import json, os, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log={}
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines():
    h,s=l.split(" ",1); log[s]=h
FIX=[
("F03","fix: withdraw the buffer access before a blocking read throws","peek, unpeek and peek_range on a closed stream threw with their buffer access still announced, so no resize could ever start again"),
("F03","fix: withdraw the buffer access while pop waits for data","pop waited for data with its buffer access announced, so a resize could not start while a reader waited"),
("F06","fix: free out-of-line elements that are popped","popping an out-of-line element copied it and never freed the original"),
("F06","fix: deallocate destroys the reserved element","cancelling a reservation destroyed the element at the read position instead of the reserved one"),
("S05","fix: pop without a destination drops the element","removing a system signal popped into a null destination and crashed"),
("F11","fix: allocate_range of out-of-line elements records its length","a range reservation of out-of-line elements recorded no length, so sending it published nothing"),
("F07","fix: send_range attaches its signal to the last element","the signal given to send_range was stored behind the last element or lost"),
("F07","fix: peek_range pairs each element with its own signal","a range view read every signal from the slot of its first element"),
("F07","fix: give buffers on user memory one signal per slot","a stream on user memory had no array of signals"),
("F04","fix: size of the signal array when a buffer is resized","the new signal array was allocated with the old length"),
("F04","fix: keep the requested minimum size of out-of-line buffers on resize","a resized out-of-line buffer lost the size asked for by a waiting range reservation"),
("F07","fix: copying a signal copies its index","Signal's copy constructor left the index out"),
("F07","fix: a copied allocation handle keeps its signal","the copy of a scoped write handle lost the signal set on it"),
("F10","fix: buffer statistics survive a resize","the blocked and count statistics were reset with each resize"),
("F04","fix: keep the access announcements outside the replaceable buffer","accesses were announced in the buffer object that a resize replaces, so they could be withdrawn in a different one"),
("S04","fix: collect exactly the elements that were not sent on","deferred collection freed elements that had been forwarded or left others unfreed"),
("K01","fix: split removes from its input only what it sent","split removed elements it had not been able to send"),
("K03","fix: search counts the start of the chunk once","search added the chunk's offset twice to a match position"),
("K03","fix: copies of a file chunk keep its index","copying a file chunk lost its index"),
("K03","fix: the file reader ends with the chunk that reaches the end of the file","the file reader sent an extra chunk after the end of file or lost the end-of-file signal"),
("M10","fix: kernels on existing memory take an identifier of their own","a kernel constructed by placement new kept the identifier found in the memory"),
("K02","fix: a copied print kernel has as many ports as the original","a copied print kernel always had one port"),
("M05","fix: an unconnected port does not end a graph traversal","a traversal ended at the first unconnected output port, leaving links behind it unvisited"),
("L01","fix: release the port map when a traversal callback throws","an exception from a traversal callback left port maps locked for ever"),
("F05","fix: closing a stream is not lost when it is resized meanwhile","a resize copied the open state and so reopened a stream closed meanwhile; it also waited for ever on a closed one"),
("M01","fix: a link that fails leaves the buffer sizes of its ports alone","a failed link had already overwritten the buffer size of the ports"),
("M01","fix: a kernel can be inserted into an existing link","inserting a kernel failed with the double-initialisation error because the former link was never taken apart"),
("P01","fix: a worker knows its core before its thread starts","the core assigned to a kernel was written to the worker's record after its thread had started reading it"),
("M05","fix: a traversal started from a list visits a kernel named twice only once","a traversal called its callback twice for a kernel listed twice as a starting point"),
("M08","fix: a chain on the right of a topology operator is linked completely","a <= b >> c >> d lost all but the last link of the chain on the right, and an operator applied to the result lost that too"),
("M08","fix: duplicating the chain in front of a join copies all of its kernels","(a >> b >> c) >= d duplicated only the first two kernels of the chain for the further inputs of d"),
("M07","fix: assigning a wrapper moves ownership like copying it","assigning a wrapper copied the pointer: both wrappers deleted the kernel and the kernel owned before leaked"),
("M09","fix: an in-place port with a name in use is an error","addInPlacePorts ignored that a port of that name existed: the segment of the in-place port was silently lost"),
("P01","fix: placement does not divide by an unknown number of cores","the basic placement divided by zero where std::thread::hardware_concurrency() is 0 (number of cores not known)"),
("L01","fix: a split locks the ports it adds to","a split locked its input ports while its output ports were extended at run time, so that a traversal (which locks the output ports) could run into the insertion"),
("K02","fix: a random source asked for no values sends none","random_variate::run pushed a value before it looked at the count, so that a source made for 0 values still sent one (raft::random_variate<...>(0,...) >> sink received one element)"),
("F04","fix: announcing an access and starting a resize see each other","enterBuffer's announcement and resize's flag were not ordered by a full fence, so a resize could replace and free the buffer during an announced access (store buffering, shown thousands of times in 10 s)"),
("F04","fix: a resize moves elements that cannot be copied bytewise","a resize copied elements of inline class types with memcpy: a std::string whose text lives inside the object pointed into the freed buffer afterwards (push 5 short strings, resize, pop: double free)"),
("K06","fix: raft::range writes one element past its result","raft::range< int, int >( 0, 5 ) stored a seventh value behind its six slots (heap-buffer-overflow under the address sanitizer), and an unsigned range counting down to zero did not come to an end"),
("M08","fix: joins of nested splits group their kernels by the enclosing split's width","a <= (b <= c >= d) >= e with three outer and two inner branches: the outer join read past the end of its group of kernels"),
]
FIND=[
dict(property="K05",key="K05.stream|pointers",what="Buffer::Data of an element type stored by pointer (larger than a cache line) takes the user's array of elements for an array of pointers (raftinc/bufferdata.tcc, constructor on external memory): the first element taken from an in-place port of such a type is read through a garbage pointer (crash)"),
]
used=set()
fixed=[]
for p,s,w in FIX:
    fixed.append("fixed: property=%s %s %s"%(p,log[s],w)); used.add(s)
for s in log:
    if s.startswith("fix:") and s not in used: print("NOT RECORDED",s)
json.dump(dict(findings=FIND,fixed=fixed),open(os.path.join(V,"known_findings.json"),"w"),indent=1)
print(len(fixed),"fixed",len(FIND),"findings")

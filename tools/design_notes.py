"""per property: what is specified, and against what, where the rule texts do not say it"""
FIFO="The abstract state of the stream walk (`rules/fifo.py`) is the oracle: it knows for every operation of the stream interface what it has to do between entering and leaving, per specialisation (inline trivial, inline class, out of line)."
WHY={
"F01":FIFO+" An element's slot must be complete (constructed, signal stored) before the write position moves and must have been read or destroyed before the read position moves.",
"F02":FIFO+" Writing needs a fact on the path that there is space for as many elements, reading one that there is data; the fact must be tested under the announcement in force.",
"F03":FIFO+" Each `enterBuffer` is matched by an `exitBuffer` of the same access on every exit, thrown exceptions included, and blocking waits happen outside of announced accesses.",
"F04":"The resize handshake is judged on both sides: the resizer sets its flag, fences, and tests every announcement afresh before it replaces the buffer; an access announces itself, fences, and tests the flag. The transfer to the new buffer is judged by its loops' ranges and by element class (byte copies only for trivially copyable types).",
"F05":FIFO+" After the close mark has been seen an operation may still deliver what is there; it throws the closed-port error only when nothing is left, having tested for the close mark before the last test for data.",
"F06":FIFO+" Placement construction, copy, move, destruction and release of each element object are counted along each path.",
"F07":FIFO+" The signal stored with an element, and the one handed to the reader, must be those of the same slot.",
"F08":FIFO+" The scoped objects (`autorelease`, `allocate_s`, `pop_s`) are judged by what their destructors call, exactly once, and by the flags that cancel it.",
"F09":"Occupancy is compared with the four cases of the two positions and the two wrap marks, by normal forms.",
"F11":FIFO+" Loops over a range must run once per element, with slot index = position + i modulo capacity, decided from induction variables.",
"M03":"That the maker asked for was registered is decided across functions: the constants the allocator looks up must be among those the port constructor stores.",
"M05":"Each round of the traversal is judged by itself: what is taken, which ports are looked at, which neighbour is queued; together with the invariant that a kernel is marked when queued this gives exactly once.",
"M08":"Each operator overload is judged against an abstract chain (source, destination, head, next, marks) composed over the constructors it uses; the loops of the map that consume chains are judged link by link, including clones and, for nested splits, how the kernels a join ends in are grouped.",
"S02":"For each scheduling behaviour (any port, all ports) the outcome of each port's test on a path is enumerated; retirement needs closure seen before emptiness, on all or any ports.",
"L01":"Locks are followed through guards, adopted locks and manual calls; the lock-order graph is built over the call graph.",
"K02":"Each kernel has its own small conservation law: what is taken from the inputs on a path and what is emitted, per element, in order, with its signal.",
"T01":"The type traits are tabulated for types on both sides of every boundary; the table is a program the compiler must accept.",
"E01":"The exception hierarchy is tabulated as compile-time facts; message ownership is followed through constructors and copies.",
}

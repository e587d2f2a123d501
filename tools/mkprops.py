#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that anchors stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

RBH="raftinc/ringbufferheap.tcc"; RBA="raftinc/ringbufferheap_abstract.tcc"; RBL="raftinc/ringbufferheap_lessabstract.tcc"
DM="raftinc/datamanager.tcc"; BD="raftinc/bufferdata.tcc"; DB="raftinc/database.tcc"; FI="raftinc/fifo.hpp"; AR="raftinc/autorelease.tcc"

prop("F01","Stream elements are published only once complete, slots freed only once read",
 "Whenever a producer makes an element available on a stream, the element's value and its accompanying signal have been stored in the slot before the write position moves past that slot. Whenever a consumer gives a slot back, the value and signal have been taken out of it before the read position moves. Each single push or send moves the write position by exactly one slot, each single pop by exactly one.",
 ["schedules","inputs"],"every interleaving of one producer and one consumer, every element type and storage class, every push/send/pop entry point",
 "An early publication shows only when the other thread reads inside a window of a few instructions; the existing tests sample a handful of runs on x86.",
 [RBH,RBL],[("push, send, send_range, insert",RBH+" local_push/send/send_range, "+RBL+" local_insert_helper"),("pop, recycle, pop_range",RBH+" local_pop/local_recycle, "+RBL+" local_pop_range")],
 [("write position","index of the next slot to fill, moved only by the producer"),("read position","index of the next slot to read, moved only by the consumer")])
prop("F02","A stream never overruns its capacity nor reads an unwritten slot",
 "No operation advances the write position unless, in the same protected access, it has found free space for all elements it is about to write. No operation reads a slot or advances the read position unless, in the same protected access, it has found at least that many elements present.",
 ["schedules","inputs","programs"],"every call of every stream operation at every fill level, with a concurrent peer and a concurrent resize",
 "Needs a full or an empty queue at exactly the moment of the call; tests rarely keep queues at their limits and cannot cover every count argument.",
 [RBH,RBL],[("space check before write",RBH+" local_push/local_allocate/local_allocate_n"),("occupancy check before read",RBH+" local_pop/local_peek/local_peek_range/local_recycle, "+RBL)])
prop("F03","Every protected buffer access ends on every exit, also when it throws",
 "Each stream operation announces its access to the buffer before touching it, touches it only after having seen that no resize is in progress, and withdraws the same announcement on every way out, including exceptions and waiting rounds. Only the reserving operations keep it open, and the matching release operations close exactly that one. A wait for data or for space never leaves the access announced while it yields.",
 ["schedules","programs","fault_sequences"],"every operation, every wait iteration and every exception leaving it; every interleaving with a resize",
 "A leaked announcement blocks a later resize forever, which only shows when a resize is due after that particular exit.",
 [RBH,RBL,DM,"raftinc/threadaccess.hpp"],[("enter/exit protocol",DM+" enterBuffer/exitBuffer/notResizing"),("operations following it",RBH+", "+RBL)])
prop("F04","Growing a stream's buffer keeps every element, its order and its signal",
 "A resize takes place only while no access to the buffer is announced and the stored elements lie contiguously; all elements, each by its own copy operation unless it is plain bytes, all signals and both positions are carried over to the new buffer before it becomes current, and the old buffer is released exactly once and never used again. The wait for this ends when the stream or the run ends, and afterwards accesses are allowed again on every way out. Buffers supplied by the user are never resized.",
 ["schedules","inputs"],"every fill level, wrap position and pair of capacities, every interleaving of resize with producer and consumer",
 "Resize depends on run-time statistics and timing; tests hardly ever trigger it, and never at a chosen wrap position.",
 [DM,BD,DB,"raftinc/ringbuffer.tcc"],[("resize handshake",DM+" resize"),("content transfer",BD+" copyFrom"),("resizeable flag","raftinc/ringbuffer.tcc resize, "+RBA+" constructors")])
prop("F05","A closed stream delivers what it holds, then reports closure and nothing else",
 "After the producer closes a stream, readers still receive every element already in it; only when it is closed and then found empty does a blocking read report closure by the closed-port exception. A range read on a closed stream with fewer elements than asked for reports that no more data will come, and skipping elements on a closed empty stream returns instead of waiting. An open stream never reports closure, a closed one never makes a reader wait forever.",
 ["schedules","histories"],"every interleaving of the close with reads, every fill level at the time of the close",
 "The close/read race decides; tests see one ordering per run, and a lost tail of a stream is timing dependent.",
 [RBH,RBL,RBA],[("closed and empty test",RBH+" local_pop/local_peek/local_peek_range/local_recycle"),("close",RBA+" invalidate/is_invalid")])
prop("F06","Element objects are constructed once and destroyed once",
 "For every element type, an element put on a stream is copied or constructed into its slot exactly once, and exactly one party destroys or frees it: the reading operation, the skipping operation (directly or through deferred collection), or the cancelling of its reservation. An element is never used after that, and a cancelled reservation destroys the reserved element, not another one. Types that are stored in place are never heap allocated and types stored out of line always are.",
 ["programs","inputs"],"every element type of each storage class and every sequence of stream operations",
 "Leaks and double destruction are invisible to tests that only compare values; the outcome depends on the storage class of the type.",
 [RBH,RBL,FI,"src/schedule.cpp"],[("construct on push/allocate",RBH+" local_push, "+FI+" allocate"),("destroy on pop/recycle/deallocate",RBH+" local_pop/local_recycle/deallocate")])
prop("F07","A signal stays attached to the element it was sent with",
 "The signal given with an element is stored in the slot of that element, and a reader obtains with an element the signal of that same slot, through every form of push, send, pop, peek and range access. For multi-element sends the signal accompanies the last element and all others carry none. Signals survive a resize together with their elements, and reading a signal without removing it leaves the stream unchanged.",
 ["programs","inputs","histories"],"every operation form, every slot position including after wrap-around and after a resize",
 "Tests send few signals, mostly end-of-file on the last element, and read them at slot zero.",
 [RBH,RBL,AR,"src/signal.cpp",BD],[("signal store",RBH+" send/send_range/local_push"),("signal read",RBH+" local_pop/local_peek/local_peek_range, "+AR),("signal value class","src/signal.cpp")])
prop("F08","Scoped and manual reservations take effect exactly once",
 "An element reserved for writing reaches the stream exactly once: when it is sent, or when its scoped handle ends; sending without a reservation has no effect. A scoped read handle releases its view and removes its element exactly once, a scoped range view releases its view without removing elements, and a handle whose content was handed on does nothing at its end.",
 ["programs","histories"],"every sequence of reserve, send, cancel, copy and scope exit",
 "Depends on copies, moves and early scope exits of handles in user code, of which tests use one form.",
 [AR,"raftinc/autoreleasebase.hpp",FI,RBH],[("scoped handles",AR+" destructors and copy constructors"),("reservation flag",RBH+" send/send_range/local_allocate/deallocate")])
prop("F09","Buffer positions stay in range, wrap correctly, and yield the true occupancy",
 "A buffer position always stays below the capacity; moving it by one or by a count equals adding modulo the capacity, and its wrap count changes exactly when it passes the end. The reported number of stored elements and of free slots always equals the distance between the two positions, distinguishing full from empty, and free space plus occupancy equals the capacity.",
 ["inputs","histories"],"every capacity, every pair of positions and wrap counts, every increment up to the capacity",
 "Off-by-one behaviour needs positions at the end of the buffer or a completely full queue, for every capacity.",
 ["src/pointer.cpp","raftinc/pointer.hpp",RBA],[("position arithmetic","src/pointer.cpp inc/incBy/val/wrapIndicator"),("occupancy",RBA+" size/space_avail/capacity")])
prop("F10","Throughput and blocking statistics count what happened",
 "Each element written to or read from a stream adds one to the respective side's transfer count, a range adds its length, and a side is marked blocked when, and only when, it actually had to wait; a new stream has counted nothing. Sampling a statistic reports the counts of that side and starts a new period for it only. Accumulating statistics adds the other's count only if that one was not blocked.",
 ["histories","schedules"],"every sequence of operations and samples on both sides",
 "No test reads the statistics; they drive buffer growth and duplication silently.",
 ["src/blocked.cpp","raftinc/blocked.hpp",RBH,RBA,RBL],[("counters","src/blocked.cpp, "+RBH),("sampling",RBA+" get_zero_read_stats/get_zero_write_stats/get_frac_write_blocked")])
prop("F11","Range operations transfer every element once and in order",
 "Inserting a sequence puts each of its elements on the stream exactly once in iteration order; reading a range delivers as many elements as asked for, in stream order; skipping n elements removes n. A range reservation of a plain element type hands out n distinct consecutive slots, following the wrap-around, and sending it publishes exactly n elements.",
 ["inputs","programs"],"every range length, container type, buffer capacity and wrap position",
 "Lengths near or above the capacity and wrapped positions are not sampled by tests.",
 [RBL,RBH,FI],[("insert, pop_range",RBL),("allocate_range, send_range, recycle",RBH)])
prop("T01","The storage class of an element type is decided uniquely and soundly",
 "Every element type supported as a stream type belongs to exactly one storage class: small class types and small fundamental or array types are stored in place, larger ones out of line. The dividing size is exactly the cache line size, inclusive on the in-place side. Each class selects the matching buffer implementation.",
 ["programs","configurations"],"every object type and size, every cache line size",
 "Tests check single sample types per trait, not the boundary sizes, all type categories or exclusivity.",
 ["raftinc/alloc_traits.tcc",RBH],[("traits","raftinc/alloc_traits.tcc"),("selection",RBH+" enable_if specialisations, "+BD)])
prop("M01","Linking two kernels checks the ports and records a symmetric connection",
 "A link is accepted only between ports of equal element type, neither of which is already linked; otherwise, or where no port is named and there is not exactly one, the call fails with the error for it and neither port is changed. An accepted link records each kernel and port at the other side, together with the requested buffer size and ordering on both ends (in order and of no fixed size unless asked otherwise). Inserting a kernel into a link connects it to both former ends.",
 ["programs","inputs"],"every pair of kernels, ports and types, every order of link calls",
 "Tests link a few well-formed graphs and one mismatching pair.",
 ["src/mapbase.cpp","raftinc/mapbase.hpp"],[("join, insert","src/mapbase.cpp"),("link, set_order","raftinc/mapbase.hpp")])
prop("M02","A graph with an unconnected port is rejected before anything runs",
 "Executing a map first verifies every registered kernel, including those of sub-maps; if any input or output port is not connected, execution fails with the unconnected-port error before any buffer is allocated or any kernel is run. Fully connected graphs pass this check.",
 ["programs","configurations"],"every graph, every choice of missing connection",
 "One test leaves one output unconnected; other positions and sub-maps are not covered.",
 ["src/map.cpp","raftinc/map.hpp","src/kernel.cpp"],[("checkEdges","src/map.cpp"),("allConnected","src/kernel.cpp"),("exe","raftinc/map.hpp")])
prop("M03","Every link gets one buffer, shared by both ends, before kernels start",
 "Before scheduling starts, each link of the graph is given exactly one stream, installed at the sending and the receiving port alike, of the kind for the port's element type, using the user's buffer or the fixed size where one was requested and a default size otherwise. A port that already has a stream is never given another, and every allocated stream is freed exactly once after the run. Links with a fixed size or user buffer keep that size.",
 ["programs","configurations"],"every graph shape, every mix of default, fixed-size and user-supplied buffers, both allocators",
 "Tests run small graphs with default buffers; wrong sharing or sizes often still pass.",
 ["src/allocate.cpp","src/stdalloc.cpp","src/dynalloc.cpp","src/port_info.cpp","raftinc/ringbuffer.tcc"],[("initialize/allocate","src/allocate.cpp"),("traversal and ready flag","src/stdalloc.cpp, src/dynalloc.cpp")])
prop("M04","Every kernel that is linked is registered, and each is run by one worker",
 "Linking registers both kernels with the map, as a source if it has no inputs and as a sink if it has no outputs, and internally created ones for later deletion. Registration in a set is idempotent, and the scheduler creates exactly one worker for each registered kernel, including kernels added while running.",
 ["programs","schedules"],"every graph and order of link calls, including dynamic duplication",
 "A missing registration in one operator form only affects graphs that use this form.",
 ["raftinc/mapbase.hpp","src/schedule.cpp","src/simpleschedule.cpp","raftinc/kernelkeeper.tcc"],[("updateKernels","raftinc/mapbase.hpp"),("scheduleKernel","src/schedule.cpp"),("handleSchedule/start","src/simpleschedule.cpp")])
prop("M05","Graph traversal reaches every link and kernel exactly once",
 "Starting from the given kernels, a traversal calls the edge function exactly once for each connected output port of every reachable kernel, and the vertex function exactly once for each reachable kernel, on any graph with cycles, shared sub-graphs and unconnected ports. It ends on every finite graph.",
 ["programs"],"every finite kernel graph, including cyclic, diamond and partly unconnected ones",
 "Tests only build small acyclic graphs where an omission is usually invisible.",
 ["src/graphtools.cpp"],[("breadth first search","src/graphtools.cpp BFS/__BFS")])
prop("M06","Running a map follows a fixed life cycle and returns only when all is done",
 "A run checks and places kernels, allocates all streams, and only then starts the scheduler; it returns only after the scheduler, the allocator and the parallelism monitor have all ended, in that order, each helper being told to stop only after the scheduler has finished. Streams are not freed while a kernel may still use them.",
 ["schedules","configurations"],"every scheduler, allocator, monitor and partitioner combination and every interleaving of their threads",
 "Wrong order causes rare use-after-free or hangs that a passing run does not reveal.",
 ["raftinc/map.hpp","src/allocate.cpp"],[("exe","raftinc/map.hpp"),("ready handshake","src/allocate.cpp waitTillReady/setReady")])
prop("M07","Library-made kernels have one owner and are freed exactly once",
 "A kernel created by the library is owned by its wrapper until it is handed to a link, then by the map, which deletes it exactly once at the end; copying or assigning a wrapper moves ownership. Kernels created by the user are never deleted by the library. Clones made by the library are marked as its own.",
 ["programs","histories"],"every combination of user-made, library-made and cloned kernels, and wrapper copies",
 "Double or missing deletes do not fail the tests; ownership passes through several constructors depending on the operators used.",
 ["src/kernel_wrapper.cpp","raftinc/kernel_wrapper.hpp","raftinc/kernel.hpp","src/mapbase.cpp","raftinc/mapbase.hpp"],[("wrapper","src/kernel_wrapper.cpp"),("make, CLONE","raftinc/kernel.hpp"),("map destructor","src/mapbase.cpp")])
prop("M08","Topology operators build exactly the requested chain",
 "Each stream operator records the left side as source and the right side as destination with the port names chosen on each, marks a split, a join or neither as its symbol says, and chains onto an existing expression at its end without losing earlier parts. An out-of-order marker makes precisely the following link out-of-order. Port selection accepts at most two names per kernel and uses them in order.",
 ["programs"],"every topology expression that compiles",
 "There are over twenty overloads and the tests use a few of them.",
 ["src/kpair.cpp","raftinc/kpair.hpp","src/map.cpp","src/kernel.cpp"],[("operators and constructors","src/kpair.cpp"),("joink","src/map.cpp"),("port selection","src/kernel.cpp operator[]")])
prop("M09","Port look-ups return the named port or fail with the right error",
 "Looking up a port by name yields the port added under this name, and fails with the not-found error if there is none; using the sole port requires exactly one port, failing with the ambiguity error for several and the not-found error for none. Adding a port with an existing name fails and changes nothing. Iterating over ports visits each exactly once, and every port knows its kernel, its name and its element type.",
 ["inputs","programs"],"every set of port names and every look-up",
 "Tests check one missing name; other entry points and counts are not exercised.",
 ["src/port.cpp","raftinc/port.hpp","src/portiterator.cpp","src/port_info.cpp"],[("look-up","src/port.cpp"),("add_port","raftinc/port.hpp"),("iterator","src/portiterator.cpp")])
prop("M10","Every kernel instance has its own identity",
 "Each kernel object, however constructed (by one thread), receives an identifier different from that of every other kernel object of the process, and keeps it for life.",
 ["programs","histories"],"every sequence of kernel constructions, default, in-place and by cloning",
 "Identifiers are never compared by tests, and only some constructors are used.",
 ["src/kernel.cpp","raftinc/kernel.hpp"],[("constructors","src/kernel.cpp")])
prop("M11","The dynamic allocator grows a link that stays full",
 "From the moment the streams are allocated until the run ends, the dynamic allocator looks at every link of the graph again and again. A link without a fixed size whose writers are found blocked most of the time at several of these looks gets a larger buffer, and its count starts anew; no other link is resized. (Links are told apart by a hash of their ports.)",
 ["schedules","programs"],"every graph and every history of blocked and free looks",
 "Growth depends on timing that tests do not control.",
 ["src/dynalloc.cpp",RBA],[("monitor","src/dynalloc.cpp run"),("fraction of blocked writes",RBA+" get_frac_write_blocked")])
prop("S01","Termination propagates down the graph",
 "When a kernel asks to stop, or all of its inputs are closed and drained, all of its output streams are closed and it is not run again. Nothing else closes its outputs. Closing a stream makes it report invalid to the other side.",
 ["schedules","programs"],"every graph and every order in which kernels finish",
 "A missed propagation shows as a hang in a graph with that shape only.",
 ["src/schedule.cpp",RBA],[("kernelRun","src/schedule.cpp"),("invalidateOutputPorts","src/schedule.cpp")])
prop("S02","A kernel is not retired while input data may still be unread",
 "A kernel is run when its scheduling rule is met: at least one input holding data, or all of them for kernels that ask for it; kernels without inputs always. It is declared finished because of closed inputs only if every input was seen closed first and found without data afterwards, so that elements sent just before the close are still processed.",
 ["schedules"],"every interleaving of the last send, the close and the scheduler's tests",
 "The window between the two tests is a few instructions wide; losing the last elements is timing dependent.",
 ["src/schedule.cpp"],[("kernelHasInputData, kernelHasNoInputPorts, kernelRun","src/schedule.cpp")])
prop("S03","Every worker thread is joined once and released",
 "The scheduler returns only after each of its workers has been seen finished and has been joined exactly once; workers stop running their kernel once it is finished, and worker records are freed exactly once, after joining.",
 ["schedules"],"every number of kernels, every order of completion, kernels added while running",
 "Missing or double joins depend on the completion order.",
 ["src/simpleschedule.cpp","raftinc/simpleschedule.hpp"],[("start/handleSchedule/simple_run","src/simpleschedule.cpp")])
prop("S04","Deferred collection frees exactly the elements that were not passed on",
 "After each run of a kernel, every out-of-line element that the kernel removed from an input without sending it on is freed exactly once, and every element it forwarded to an output is not freed. The records are empty before the next run, for any combination of removed and forwarded elements.",
 ["inputs","histories"],"every pair of sets of removed and forwarded elements",
 "Requires kernels which forward some large elements by reference and drop others in one run; tests do not mix them.",
 ["src/schedule.cpp",RBH,RBL],[("fifo_gc, setPtrSets","src/schedule.cpp"),("bookkeeping",RBH+" ext specialisation")])
prop("S05","System signals reach their handler exactly once",
 "A handler registered for a signal is the one called for it with the given stream, kernel and data; a signal without a handler is reported as an error. Only pending system signals at the head of an input are consumed, each once, and a stop request from any handler is returned. The quit signal closes the stream and stops the kernel.",
 ["programs","histories"],"every set of handlers and every sequence of signals on the inputs",
 "No test sends system signals.",
 ["src/schedule.cpp","src/systemsignalhandler.cpp","raftinc/systemsignalhandler.hpp"],[("checkSystemSignal, quitHandler","src/schedule.cpp"),("handler table","src/systemsignalhandler.cpp")])
prop("L01","Shared container locks are released on every path",
 "Every lock on a kernel set, a port map or the worker list that an operation takes is released exactly once before the operation ends, whichever way it ends, and shared containers are touched only while it is held.",
 ["schedules","fault_sequences"],"every path including exceptions thrown by callbacks and by the called operations",
 "A lock that stays locked after an exception blocks a later operation only; tests end at the first exception.",
 ["raftinc/kernelkeeper.tcc","src/graphtools.cpp","src/map.cpp","src/simpleschedule.cpp","src/stdalloc.cpp","src/dynalloc.cpp","src/basicparallel.cpp","src/partition_basic.cpp","src/parallelk.cpp"],[("keeper","raftinc/kernelkeeper.tcc"),("port map lock","src/graphtools.cpp")])
prop("K01","Splitting and joining streams conserves the elements",
 "A split kernel sends every element it takes from its input to exactly one of its outputs and removes from its input exactly what it has sent; a join kernel sends every element it takes from any input to its output once. Signals travel along. Neither invents, drops or duplicates elements, whatever the fill levels.",
 ["schedules","inputs"],"every number of ports, every fill level and capacity of the connected streams",
 "Loss occurs only when an output is fuller than the input batch; tests have roomy outputs.",
 ["raftinc/split.tcc","raftinc/join.tcc","raftinc/splitmethod.hpp","raftinc/roundrobin.hpp","src/roundrobin.cpp"],[("run methods","raftinc/split.tcc, raftinc/join.tcc"),("distribution","raftinc/splitmethod.hpp, src/roundrobin.cpp")])
prop("K02","Library kernels handle each element exactly once and in order",
 "The standard source, sink and transformation kernels take, process and emit each element once and in input order: reading a sequence emits all of it in order, writing stores each received element, printing prints each one followed by the delimiter, adding or multiplying streams combines one element of each. A source stops exactly when its sequence or count is exhausted, and sends nothing when that is empty.",
 ["inputs","programs"],"every sequence, length, element type and number of ports",
 "Tests use fixed sequences and compare little of the output; boundary lengths are missing.",
 ["raftinc/readeach.tcc","raftinc/writeeach.tcc","raftinc/print.tcc","raftinc/foreach.tcc","raftinc/random.tcc","raftinc/raftmath.tcc"],[("run methods","each file")])
prop("K03","File chunks cover the file and searches report true positions",
 "The file reader emits chunks whose contents concatenate to the file without gaps, each with its length, its offset and its terminator, with end-of-file on the last; consecutive chunks overlap only as far as requested. The search kernel reports every match with its absolute position. Copies of a chunk equal the original.",
 ["inputs"],"every file length, chunk size, overlap and search term",
 "One sample file and term are tested; file lengths around multiples of the chunk size are not.",
 ["raftinc/fileio.tcc","raftinc/filechunk.tcc","raftinc/search.tcc","raftinc/chunkiterator.tcc"],[("reader","raftinc/fileio.tcc"),("chunk","raftinc/filechunk.tcc"),("search","raftinc/search.tcc")])
prop("K04","A function kernel has the ports it was declared with",
 "A kernel built from a function has as many input and output ports as declared, named by consecutive numbers from zero separately for inputs and outputs, with the declared element types in order, and each run calls the function once with exactly these ports and returns its status.",
 ["programs","inputs"],"every number and list of types",
 "A single port combination is tested.",
 ["raftinc/lambdak.tcc"],[("port helper and run","raftinc/lambdak.tcc")])
prop("K05","User memory is divided among ports without gap or overlap",
 "When a user buffer is divided among n ports, the ports are named by consecutive numbers and cover consecutive disjoint parts of it, every port the same number of elements and the last one the remainder too, so that together they cover all whole elements of the buffer and nothing beyond. The streams made from them hold these elements, are never resized and never free the user's memory.",
 ["inputs","configurations"],"every buffer length, element size and number of ports",
 "Only one divisible length is tested.",
 ["raftinc/port.hpp",BD,RBA,"raftinc/ringbuffer.tcc"],[("addInPlacePorts","raftinc/port.hpp"),("external buffer",BD+" and "+RBA+" constructors")])
prop("K06","A number range lists every value once and stays within its result",
 "The range of two numbers holds the first number and then each next one a step closer to the second, in order, up to and including the last that does not pass it; counting down works the same way. Every slot of the result is filled exactly once and nothing is stored outside it. (For bounds that a double represents exactly and up to its rounding.)",
 ["inputs"],"every pair of bounds, every step and every arithmetic type, counting up and down",
 "No test calls it, and a store just past the end of a heap block goes unnoticed.",
 ["raftinc/utility.hpp"],[("range","raftinc/utility.hpp range")])
prop("K07","The sum and product helpers use one element of every port",
 "Adding or multiplying the front elements of a list of ports takes exactly one element from each of the ports and returns the sum or the product of these elements, every one used once and in the type asked for. With no port left the sum is zero and the product one.",
 ["inputs","programs"],"every number of ports and every arithmetic type",
 "Only sums of two ports are tested.",
 ["raftinc/raftmath.tcc"],[("helpers","raftinc/raftmath.tcc sum_helper, mult_helper")])
prop("K08","Selecting among ports yields one that has data, with its count",
 "Selecting among named input ports looks only at the ports named. Whenever it finds data in one of them it returns one that has data, together with the number of elements found in it. A count of zero is returned only after every one of the named ports was found empty, and with one of these ports.",
 ["inputs","schedules"],"every number of ports and all fill levels",
 "No test selects among ports; which port is looked at first is left to chance.",
 ["raftinc/select.tcc"],[("select","raftinc/select.tcc raft::select::in")])
prop("P01","Placement and duplication keep the graph well formed",
 "The basic placement assigns every kernel a core that exists, all cores in turn, and the dummy placement none. A kernel duplicated at run time has its new input and output connected to new ports of its neighbours by fresh streams before it is scheduled. Only kernels that allow it are duplicated, and none without a parallelism monitor.",
 ["configurations","programs"],"every number of cores and kernels, every duplication",
 "Duplication is timing driven and placements are not examined by tests.",
 ["src/partition_basic.cpp","src/partition_dummy.cpp","src/basicparallel.cpp","src/noparallel.cpp"],[("partition","src/partition_basic.cpp"),("duplication","src/basicparallel.cpp start")])
prop("P02","Kernel manipulators apply to exactly the kernels they are bound to",
 "Binding a manipulator to kernels applies each of its modifiers exactly once to each of these kernels, in the order listed, and to no other, and returns references to the kernels in their order. The affinity-group modifier records the group and the device modifier the core it names, without touching the other, and a kernel reports the core that was recorded last.",
 ["programs","inputs"],"every list of modifiers and of kernels",
 "No test binds a manipulator to more than one kernel or looks at its effect.",
 ["raftinc/raftmanip.hpp","raftinc/kernelmanip.tcc","raftinc/kernel.hpp"],[("bind","raftinc/raftmanip.hpp manip::bind, manip_helper"),("modifiers","raftinc/kernelmanip.tcc"),("placement of a kernel","raftinc/kernel.hpp setCore, setAffinityGroup, getCoreAssignment")])
prop("D01","The drawing of a graph shows each kernel and each link once",
 "When the environment asks for a drawing, the run writes one, after the links were checked and before any kernel runs: it opens the graph, lists every kernel of the map once under its own id and every link once from its source to its destination with both port names, and closes the graph. Without the request none is written, and the run only ends early when that is asked for as well.",
 ["programs","configurations"],"every graph and every setting of the environment",
 "No test asks for a drawing.",
 ["src/makedot.cpp","raftinc/makedot.hpp","raftinc/map.hpp"],[("drawing","src/makedot.cpp"),("request","raftinc/map.hpp exe")])
prop("E01","Library errors carry their message and their own type",
 "Every port, map and kernel exception of the library returns from what() the message it was constructed with, for as long as it or a copy of it lives; it can be caught as its own kind, as its family (port, map, kernel), as the common library exception and as a standard exception, and as no other kind.",
 ["inputs","programs"],"every message and every exception type",
 "Tests catch one or two exception types and ignore the message.",
 ["src/raftexception.cpp","raftinc/raftexception.hpp","raftinc/portexception.hpp","raftinc/mapexception.hpp","raftinc/kernelexception.hpp","src/portexception.cpp","src/mapexception.cpp","src/kernelexception.cpp"],[("message","src/raftexception.cpp"),("hierarchy","raftinc/*exception.hpp")])
prop("C01","Kernel groups keep their members, sides and order",
 "A kernel set holds references to exactly the kernels it was built from in the given order and reports their number; moving it keeps them. A source/destination pair keeps both sides apart: adding to, counting, iterating or clearing one side affects that side only, in insertion order, and a pair returned by a link has the linked source and destination.",
 ["inputs","programs"],"every number and order of kernels, every sequence of additions and clearings",
 "One set of a fixed size is tested, pairs are not.",
 ["raftinc/kset.tcc","src/kernel_pair_t.cpp","raftinc/kernel_pair_t.hpp"],[("kset","raftinc/kset.tcc"),("pair","src/kernel_pair_t.cpp")])
prop("N01","Streams are linearizable first-in first-out queues on any memory model",
 "For every interleaving on every supported processor, the elements a consumer receives are exactly those the producer sent, in order.",
 ["schedules","histories"],"all interleavings and memory orderings",
 "Weak-memory reorderings cannot be provoked by tests on x86.",
 [RBH,DM,"raftinc/pointer.hpp"],[("lock-free positions","raftinc/pointer.hpp")])
prop("N02","Every acyclic graph of well-behaved kernels terminates",
 "If every kernel eventually consumes its input and stops, the run returns.",
 ["schedules","programs"],"every graph and schedule",
 "Liveness over all schedules.",
 ["src/simpleschedule.cpp","src/schedule.cpp",RBH],[("scheduler","src/simpleschedule.cpp")])
prop("N03","Streaming statistics are numerically accurate",
 "Running mean, variance and skewness equal the true moments of the values seen up to rounding.",
 ["inputs"],"every sequence of values",
 "Numerical results over all inputs.",
 ["raftinc/streamingstat.tcc"],[("update","raftinc/streamingstat.tcc")])
prop("N04","Shared-memory streams behave like heap streams across processes",
 "A stream on shared memory delivers the producer process's elements in order to the consumer process.",
 ["schedules","programs","crash_points"],"every pair of processes",
 "Needs two processes and the shm dependency.",
 ["raftinc/ringbuffershm.tcc"],[("shared memory buffer","raftinc/ringbuffershm.tcc, raftinc/bufferdata.tcc")])
prop("N05","Buffer growth improves throughput and stays bounded",
 "Monitored streams grow only under sustained back-pressure and throughput does not fall because of it.",
 ["schedules","inputs"],"every load",
 "Performance over all loads.",
 ["src/dynalloc.cpp"],[("monitor","src/dynalloc.cpp")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))

RB = ["raftinc/ringbufferheap.tcc", "raftinc/ringbufferheap_abstract.tcc", "raftinc/ringbufferheap_lessabstract.tcc",
      "raftinc/ringbuffer.tcc", "raftinc/bufferdata.tcc", "raftinc/pointer.hpp", "src/pointer.cpp", "raftinc/fifo.hpp"]
TESTS = "The stable tests only check compile-time traits of element types and one set container; none of them moves an element through a stream. "

prop("C01", "A stream delivers every element exactly once, in order",
 "For one producer and one consumer of a stream, the consumer receives exactly the elements the producer sent, in the order sent, unchanged, whatever mix of send and receive operations they use and however their threads interleave. Nothing is lost, duplicated, reordered or torn, and neither side waits for ever while the other is able to go on.",
 ["schedules", "programs", "inputs"], "every interleaving of the producer and consumer operations; every mix of push / range push / allocate-send and pop / pop range / peek-recycle / peek-range styles; inline, class and externally allocated element types; every capacity",
 TESTS + "A test would sample one schedule of a free-running pair of threads.",
 RB, [("read and write positions with wrap indicators", "raftinc/pointer.hpp"), ("push/pop/peek/recycle and their waiting loops", "raftinc/ringbufferheap_abstract.tcc, raftinc/ringbufferheap.tcc")],
 ENG, STD + "Two threads, 2-5 elements, capacities 1-3 (thorough: more elements and one more deviation).",
 observe=["values and order seen by the consumer", "termination of both sides"])
prop("C02", "A stream never holds more than its capacity and its sizes are truthful",
 "A stream never holds more elements than its capacity: a send into a full stream and a receive from an empty one wait until the other side makes room or data. The number of elements reported to the consumer never exceeds what it can take without waiting, and the free space reported to the producer never exceeds what it can send without waiting.",
 ["schedules", "programs"], "every interleaving of a producer and a consumer that query occupancy and space between operations",
 TESTS + "Transient over-reporting shows only under particular interleavings.",
 RB, [("size / space_avail computation from the two positions", "raftinc/ringbufferheap_lessabstract.tcc, raftinc/ringbufferheap.tcc")],
 ENG, STD + "Capacities 1-3; occupancy may be transiently under-reported, which the property allows.",
 observe=["size(), space_avail(), capacity() called by either side"])
prop("C03", "End of stream is seen after, and only after, all data",
 "When the producer closes a stream, the consumer still receives every element sent before the close, and only then is told the stream has ended, by an exception or by an empty result according to the operation. A consumer waiting at the time of the close is released, and a closed stream with no data never makes anybody wait.",
 ["schedules", "histories"], "every interleaving of the close with pop, range pop, peek, range peek and recycle, for every number of elements left",
 TESTS + "The race between the last element, the close and a waiting consumer needs a particular interleaving.",
 RB + ["raftinc/portexception.hpp"], [("validity flag and end-of-data exceptions", "raftinc/ringbufferheap.tcc: invalidate, is_invalid, NoMoreDataException")],
 ENG, STD + "0-3 elements before the close, capacities 1-3.",
 observe=["exceptions and results of the consumer's operations"])
prop("C04", "A signal stays attached to the element it was sent with",
 "The signal given with an element is the one returned with that same element by every receive and peek operation, and elements sent without one carry none. For a range the signal belongs to the last element of the range.",
 ["schedules", "programs", "inputs"], "every sequence of send and receive operations to a bounded depth, and every interleaving of a producer and consumer using them, including across a change of capacity",
 TESTS + "The pairing of two parallel arrays after wrap-around or resize depends on the operation history.",
 RB + ["raftinc/signaldata.hpp", "raftinc/rafttypes.hpp"], [("parallel signal array indexed as the data array", "raftinc/bufferdata.tcc, raftinc/ringbufferheap.tcc")],
 SEQ + "; " + ENG, STD + "All sequences up to the depth in the evidence, states merged by a canonical hash of the model and the buffer positions.")
prop("C05", "Elements are constructed and destroyed exactly once and storage is released",
 "Every element object that goes through a stream is constructed once, destroyed exactly once after it leaves the stream, and its storage is released, for every element type and every way of sending, receiving, skipping or releasing it. No operation touches an element after its destruction or before its construction.",
 ["programs", "histories", "schedules"], "every sequence of operations to a bounded depth for trivial, class and externally allocated element types, plus producer/consumer interleavings",
 TESTS + "Which constructor, destructor or release pairs with which slot depends on the history of wraps, releases and skipped elements.",
 RB + ["raftinc/alloc_traits.tcc", "raftinc/autorelease.tcc"], [("per-type construct/copy/destroy traits", "raftinc/ringbufferheap.tcc, raftinc/alloc_traits.tcc")],
 SEQ + "; " + ENG, STD + "Instance-counting element types; the engine's allocator detects leaks, double frees and accesses to freed or foreign memory. Elements still unread when a stream is destroyed are outside the property (the library does not destroy them).")
prop("C06", "Changing a stream's capacity while in use is transparent",
 "When the capacity of a stream is changed while its producer and consumer run, no element or signal is lost, duplicated, reordered or altered, a close is not lost, and both sides go on with the new capacity. A change that cannot be made is refused without effect.",
 ["schedules", "programs", "histories"], "every interleaving of one or two capacity changes by a third thread with producer and consumer operations; every position of the read and write positions at the change",
 TESTS + "Resizing happens in a background monitor thread at times a test cannot choose.",
 RB + ["raftinc/datamanager.tcc", "raftinc/threadaccess.hpp"], [("per-thread access flags and buffer exchange", "raftinc/datamanager.tcc"), ("copy to the new buffer", "raftinc/bufferdata.tcc: copyFrom")],
 ENG + "; " + SEQ, STD + "Three threads, 1-2 resizes. Sequential consistency: the store/load order a weaker machine could give the access flags is not explored.")
prop("C07", "A stream behaves as a bounded queue under every sequence of operations",
 "Run in sequence, the operations of a stream agree with a simple bounded queue of elements and signals: values, sizes, free space, returned references, ranges, exceptions and refusals are those of the queue. This holds from every reachable state, including after wrap-around, release, capacity change and close.",
 ["programs", "histories", "inputs"], "every sequence of operations up to a depth over a small alphabet, for every element storage class and small capacities",
 TESTS + "The states that matter (wrapped, full, partly released, closed) need particular multi-operation histories.",
 RB, [("all public stream operations", "raftinc/fifo.hpp, raftinc/ringbufferheap.tcc")],
 SEQ, STD + "Breadth of the alphabet and depth are in the evidence; states are merged by a canonical hash of model state and buffer positions.")
prop("C10", "Running a graph delivers every element and returns",
 "Executing a graph of kernels returns once every source has ended and all data has drained, and by then every element sent on an edge has been received, in order, by the kernel at its other end. No schedule of the kernel threads and of the runtime's own threads makes execution hang, crash or lose data, with one graph or with several graphs executed in turn or at the same time.",
 ["schedules", "programs", "configurations"], "every interleaving (up to the deviation bound) of kernel, scheduler, monitor and main threads for a set of small graphs, stream capacities and element types",
 TESTS + "No stable test executes a graph at all.",
 ["src/map.cpp", "src/mapbase.cpp", "src/schedule.cpp", "src/simpleschedule.cpp", "src/dynalloc.cpp", "src/allocate.cpp", "src/basicparallel.cpp", "raftinc/map.hpp"] + RB[:3],
 [("thread per kernel, end-of-stream propagation", "src/schedule.cpp, src/simpleschedule.cpp"), ("execution and join of the runtime threads", "raftinc/map.hpp: exe")],
 ENG, STD + "The complete run of the graph - allocation, scheduling, monitoring and shutdown - is the execution explored. Thread affinity and shared memory calls are stubs.")
RT = ["src/map.cpp", "src/mapbase.cpp", "src/schedule.cpp", "src/simpleschedule.cpp", "src/allocate.cpp", "src/dynalloc.cpp", "src/basicparallel.cpp", "raftinc/map.hpp", "raftinc/schedule.hpp", "raftinc/kernel.hpp"]
NOEXE = "No stable test executes a graph, and a run that happens to work says nothing about the other schedules. "
prop("C11", "Each kernel is run by one thread at a time, only while its graph executes",
 "While a graph executes, each kernel's run function is entered by one thread only and never re-entered before it has returned, never called after it asked to stop, and never outside of the execution call. Source kernels are called until they ask to stop; a kernel with inputs is called only while it has input data.",
 ["schedules", "programs", "configurations"], "every interleaving (up to the deviation bound) of kernel, scheduler, monitor and main threads, with fast and slow kernels",
 NOEXE + "Overlap of two calls needs a particular interleaving.",
 RT, [("kernel thread loop", "src/simpleschedule.cpp: simple_run"), ("readiness and stop handling", "src/schedule.cpp: kernelHasInputData, kernelHasNoInputPorts, kernelRun")],
 ENG, STD + "Every kernel of every executed graph carries the checks (enter/leave of run, thread identity, stopped, executing).")
prop("C12", "A kernel is run when its inputs are ready under its declared policy",
 "A kernel that asks for data on any input runs whenever some input has data, and one that asks for data on all inputs runs only when every input has data. Every element that can be consumed under the policy is offered to the kernel before the execution ends.",
 ["schedules", "configurations"], "every interleaving of the producers of a kernel with its readiness test, for equal and unequal stream lengths",
 NOEXE + "Whether a readiness test sees a late element or a close first depends on the schedule.",
 RT, [("any/all port policies", "src/schedule.cpp: kernelHasInputData; raftinc/kernel.hpp: sched_behav")],
 ENG, STD + "Two-input kernels fed by sources and by forks; all-port kernels with unequal inputs leave the excess unread by definition.")
prop("C13", "Stopping propagates: downstream finishes its data, then everything ends",
 "When a kernel stops, its outputs are closed only after everything it sent has been made visible, downstream kernels consume all of it and stop in turn, and unrelated branches go on until their own data ends. The execution call returns after all kernels have stopped, leaving no thread behind.",
 ["schedules", "programs", "configurations"], "every interleaving of a stopping kernel with its neighbours and the runtime's own threads, for kernels that stop by choice, for lack of input, and at the first call",
 NOEXE + "The window between the last element, the stop and the close is a few instructions wide.",
 RT, [("closing of the output ports of a stopped kernel", "src/schedule.cpp: invalidateOutputPorts, revalidateOutputPorts"), ("join of all kernel threads and of the monitor", "src/simpleschedule.cpp, raftinc/map.hpp")],
 ENG, STD + "A kernel that stops while its upstream still has more to send than fits blocks that upstream for ever by design; such graphs are not part of the property.")
prop("C14", "Execution leaves nothing behind",
 "After a graph has executed, or has refused an expression, and been destroyed no thread it created remains, every stream, element and internal structure has been freed exactly once, and each kernel the library created has been destroyed exactly once while kernels owned by the caller are untouched. Nothing is used after it was freed.",
 ["schedules", "programs", "configurations"], "every interleaving of the shutdown of kernels, monitor and main thread for graphs with library-owned and caller-owned kernels, including an empty graph and library exceptions",
 NOEXE + "Use after free and double free at shutdown depend on the order in which the threads finish.",
 RT + ["raftinc/kernelkeeper.tcc", "raftinc/raftexception.hpp", "src/raftexception.cpp"], [("ownership of internally created kernels", "raftinc/map.hpp, raftinc/kernel.hpp: internal_alloc"), ("stream deallocation", "src/allocate.cpp")],
 ENG, STD + "The engine's allocator tracks every block: leaks, double frees, use after free and foreign frees are reported, in every execution of every scenario.")
prop("C20", "Every edge gets one stream of its own, of the requested capacity",
 "Each edge of an executed graph is served by exactly one stream, shared by the output port at one end and the input port at the other and by nobody else, with the capacity asked for when linking or the default otherwise. The streams exist before any kernel runs.",
 ["configurations", "schedules", "inputs"], "every requested capacity of a small range on one and two edges, with every interleaving of the runtime's threads up to the bound",
 NOEXE + "Wrong wiring of one of several edges is invisible to a test of one edge.",
 ["src/allocate.cpp", "src/dynalloc.cpp", "src/stdalloc.cpp", "raftinc/allocate.hpp", "src/port_info.cpp", "src/portiterator.cpp"],
 [("stream construction and initialization of both ports", "src/allocate.cpp: initialize, allocate; src/dynalloc.cpp: run; src/stdalloc.cpp: run")],
 ENG, STD + "Capacities 1-4 and the default; the kernels themselves check capacity, emptiness and that filling never waits.")
prop("C08", "A stream over the caller's array presents that array in place",
 "Streams fed from an array the caller owns deliver exactly the array's elements, in order, by reference to the caller's own storage, then end; with several consumers the array is divided into consecutive chunks that cover it exactly once. The array is never modified, resized, freed or read outside of its bounds by the library.",
 ["inputs", "programs", "schedules", "configurations"], "every sequence of receive operations to a bounded depth on arrays of 1-4 elements, and every interleaving (up to the bound) of graphs that spread an array of elements over one or more consumers; number of consumers at least one",
 TESTS + "An out-of-bounds read or a skipped remainder depends on the array length, the number of consumers and the operation used.",
 RB[:5] + ["raftinc/foreach.tcc", "src/allocate.cpp", "raftinc/port_info.hpp"], [("division of the array among the output ports", "raftinc/foreach.tcc; raftinc/port.tcc: addInPlacePorts"), ("data structure over an existing buffer", "raftinc/bufferdata.tcc, src/allocate.cpp")],
 SEQ + "; " + ENG, STD + "Plain element types are exact; for class objects and for elements larger than a cache line the known findings C08.class and C08.big apply (known_findings.txt).")
prop("C09", "Stream statistics count exactly what happened",
 "The number of elements a stream reports as sent and as received since the last reading is exactly the number sent and received, for every operation that counts, and reading resets it. A side that had to wait is reported as having waited, and a side that did not wait is not.",
 ["schedules", "programs", "histories"], "every sequence of operations and readings to a bounded depth, every interleaving of a producer and consumer that do and do not have to wait",
 TESTS + "The counters drive the automatic resizing; a wrong one only shows in which schedules a stream grows.",
 RB[:4] + ["raftinc/blocked.hpp", "src/blocked.cpp"], [("per-side blocked/count words", "raftinc/blocked.hpp; raftinc/ringbufferheap.tcc: local_push, local_pop, local_allocate, send")],
 SEQ + "; " + ENG, STD + "Counts are read while both sides are quiet; reading concurrently with an operation may lose one update, which the library's design accepts.")
PROG = "Every sequence or graph of the bounded family is built on the compiled code and compared with a reference built independently in the harness."
prop("C15", "Invalid graphs are refused with the right error and without effect",
 "Linking ports that do not exist, are ambiguous, are already linked or have different types is refused with the documented error, and a refused link leaves the graph as it was. Executing a graph in which some port of a linked kernel is unconnected is refused before any kernel runs, and a fully connected graph is never refused.",
 ["programs", "inputs"], "every sequence of 3 (thorough 4) links over kernels with one and two typed ports, named or not, existing or not, followed by an execution",
 "The stable tests link no kernels. Whether a refused link leaves traces depends on what was linked before it.",
 ["src/mapbase.cpp", "raftinc/mapbase.hpp", "src/map.cpp", "src/kernel.cpp", "src/port.cpp", "raftinc/portexception.hpp", "src/raftexception.cpp", "raftinc/kernelexception.hpp", "raftinc/mapexception.hpp"],
 [("port lookup and type check of a link", "raftinc/mapbase.hpp: link; src/mapbase.cpp: join; src/port.cpp: getPortInfo, getPortInfoFor"), ("completeness check before execution", "src/map.cpp: checkEdges; src/kernel.cpp: allConnected")],
 GRAPH, STD + PROG + " When a link has several faults any one of their errors is accepted. A refused operator expression may have added the edges before the refused one.")
prop("C16", "An operator expression builds exactly the graph it describes",
 "Adding an expression of kernels with the stream operators to a graph creates exactly the kernels and edges it describes: chains link neighbours, a split copies what follows once per output of its kernel, a join gathers the copies in port order, a join without a split copies what precedes it once per input, and this nests. The result names exactly the graph's first and last kernels, named ports and order marks apply to the edge they are written on, and every element sent travels each path once.",
 ["programs", "configurations"], "every expression of up to 7 (thorough 8) kernels over the three operators, with up to 3 outputs per split and inputs per join, in every grouping the operators allow, with caller-owned and library-owned kernels",
 "The stable tests build no graph. Nesting, group sizes and grouping combine into hundreds of shapes, of which a test picks a few.",
 ["src/kpair.cpp", "raftinc/kpair.hpp", "src/map.cpp", "src/kernel_pair_t.cpp", "raftinc/kernel_pair_t.hpp", "src/kernel_wrapper.cpp", "src/kernel.cpp"],
 [("operators build a chain of pairs", "src/kpair.cpp"), ("expansion of splits and joins", "src/map.cpp: operator +=, inline_cont, inline_split, inline_join, inline_dup_join"), ("returned first and last kernels", "src/kernel_pair_t.cpp")],
 GRAPH + "; " + ENG, STD + PROG + " The graphs of up to 6 (thorough 7) kernels are also executed. A join without a split is covered after a plain chain; splits inside such a chain and a grouping that hides a split from its join are not part of the property.")
prop("C17", "Traversals visit every reachable kernel and edge exactly once",
 "The breadth-first traversals visit every edge, respectively kernel, reachable from the given sources exactly once, with both ends' ports, on any graph including cycles and parallel edges, and skip unconnected ports. On request an unconnected port that is reachable is reported as an error, and never otherwise.",
 ["configurations"], "every directed multigraph of 2 kernels with up to 3 outputs, 3 kernels with 2 outputs and 4 kernels with 1 output (thorough 2), every output connected to any kernel or to none, from every set of sources",
 "The stable tests traverse no graph; a traversal that is right on chains can fail on a cycle, a diamond or an unconnected port.",
 ["src/graphtools.cpp", "raftinc/graphtools.hpp"], [("BFS over edges and over kernels", "src/graphtools.cpp: __BFS")],
 GRAPH, STD + PROG + " The depth-first variants are unimplemented in the library and private.")
prop("C19", "The ports of a kernel are exactly those declared",
 "A kernel's input and output ports are exactly the declared ones, each under its own name with its declared type: counting, iterating and looking up agree, an unknown name is an error and declaring a name twice is an error that changes nothing. In an executing graph the stream reached by iteration is the one reached by name, and no two ports share one.",
 ["programs", "inputs", "schedules"], "every sequence of 3 (thorough 4) declarations over four names and three types; execution of kernels with 3 and 11 ports",
 "The stable tests declare no port. Order of names and repetition matter.",
 ["raftinc/port.hpp", "src/port.cpp", "src/portiterator.cpp", "raftinc/portmap_t.hpp", "src/port_info.cpp"], [("ordered map of port information", "raftinc/portmap_t.hpp; src/port.cpp; src/portiterator.cpp")],
 GRAPH + "; " + ENG, STD + PROG)
prop("C23", "Every kernel has an identity of its own",
 "The identifier of a kernel never changes and no two kernels of a program have the same one, however they were created: by the caller, by copying for a split or join, over existing memory, or by several threads at the same time.",
 ["programs", "schedules"], "every sequence of 5 (thorough 7) creations over four kinds of kernels; every interleaving (up to the bound) of creations by two and three threads",
 "The stable tests create no kernel.", ["src/kernel.cpp", "raftinc/kernel.hpp"], [("counter taken at construction", "src/kernel.cpp: kernel::kernel")],
 GRAPH, STD + PROG)
prop("C26", "The drawing of a graph shows exactly its kernels and edges",
 "The drawing of a graph is a well-formed digraph with one node per kernel and one arrow per edge, from the kernel that sends to the kernel that receives, saying which ports it joins, what type it carries and whether order matters, for any graph. It is written before a run exactly when the environment asks for it, and the run is skipped exactly when the environment asks for that too.",
 ["programs", "configurations"], "every expression of up to 5 (thorough 6) kernels, with every set of order marks, and graphs over an existing array with 1-3 and 10-12 ports",
 "The stable tests draw no graph.", ["src/makedot.cpp", "raftinc/makedot.hpp", "src/graphtools.cpp"], [("node and edge lists", "src/makedot.cpp: generate_vertex_list, generate_edge_list")],
 GRAPH, STD + PROG)

prop("C18", "Splitting and joining streams keeps every element exactly once",
 "A split passes each element it receives, with its signal, to exactly one of its outputs, and a join passes each element of each of its inputs, with its signal, to its output exactly once; each keeps the order of the elements that take the same way. Neither loses, repeats or invents an element when streams are full, when one branch is slow, or when its inputs end.",
 ["schedules", "configurations"], "every interleaving (up to the bound) of graphs with one and two branches, streams of capacity 1-4, bursts, slow branches and no elements at all",
 NOEXE + "An element is lost only when an output fills up at the wrong moment.",
 ["raftinc/split.tcc", "raftinc/join.tcc", "raftinc/splitmethod.hpp", "raftinc/roundrobin.hpp", "src/roundrobin.cpp", "src/leastusedfirst.cpp"],
 [("choice of the output or input", "src/roundrobin.cpp: select_fifo"), ("passing on a block of elements", "raftinc/splitmethod.hpp: send; raftinc/split.tcc: run; raftinc/join.tcc: run")],
 ENG, STD + "Complete graphs are executed. Split needs range access, which the library does not implement for elements larger than a cache line; those are joined only.")
prop("C21", "Stock kernels transfer data faithfully",
 "The kernels that come with the library do what they say to every element: a container is read and written element for element in order, printing writes each element once and passes it on, function kernels call their function once per run, the file reader's chunks cover the file exactly once with the end marked, and search reports every match at its position exactly once. This holds for copies of a kernel as for the original.",
 ["schedules", "inputs", "configurations"], "every interleaving (up to the bound) of small graphs of each kernel; every text of up to 6-7 (thorough 8-9) letters over a small alphabet for search, files of 0 to several chunks",
 NOEXE + "Boundaries between chunks and copies of kernels are reached only by particular inputs.",
 ["raftinc/readeach.tcc", "raftinc/writeeach.tcc", "raftinc/print.tcc", "raftinc/lambdak.tcc", "raftinc/random.tcc", "raftinc/fileio.tcc", "raftinc/filechunk.tcc", "raftinc/search.tcc"],
 [("iteration over the container", "raftinc/readeach.tcc, raftinc/writeeach.tcc"), ("chunking with overlap", "raftinc/fileio.tcc, raftinc/filechunk.tcc"), ("match positions", "raftinc/search.tcc")],
 ENG, STD + "Complete graphs are executed; files live in a scratch directory the harness creates and removes.")
prop("C22", "Streams of unspecified capacity may grow, transparently; others never change",
 "A link made without a capacity may be enlarged by the running graph while its kernels use it; its capacity then only ever doubles, and no element, signal or end of stream is lost, repeated or reordered, also when the graph ends during the change. A link made with a capacity keeps it.",
 ["schedules", "configurations"], "every interleaving (up to the bound) of sender, receiver, scheduler and the thread that watches the streams, with senders fast enough to be held up and pausing at every relevant moment, for inline, class and externally allocated elements",
 NOEXE + "Growth happens milliseconds into a run, at a moment chosen by a background thread.",
 ["src/dynalloc.cpp", "src/allocate.cpp", "raftinc/datamanager.tcc", "raftinc/bufferdata.tcc", "raftinc/blocked.hpp", "src/blocked.cpp"],
 [("monitor loop and growth rule", "src/dynalloc.cpp: run"), ("exchange of the buffer", "raftinc/datamanager.tcc: resize")],
 ENG, STD + "Complete graphs on virtual time. An allocator derived from the library's starts the open links at capacity 2, so that a run of a dozen elements reaches the growth; one scenario uses the default of 64. Whether and when a stream grows is not part of the property.")
prop("C24", "Selecting among streams finds one with data",
 "Selecting among named streams returns one of those streams together with the number of elements it really holds. Whenever some of them holds data the one returned holds data, and a count of zero is returned only when none of them does; no element is taken, lost or reordered by selecting.",
 ["schedules", "configurations"], "every interleaving (up to the bound) of two or three producers and one selecting kernel, and every combination of 0-2 elements on three streams with every order of inspection",
 NOEXE + "The order of inspection is random in the code; the check explores all orders.",
 ["raftinc/select.tcc"], [("random order of inspection", "raftinc/select.tcc: in, out")],
 ENG, STD + "The library's shuffle is replaced by an explored permutation.")
prop("C25", "Kernels run on the cores they are assigned to",
 "A kernel assigned to a core, by the caller or by the partitioner of a run, has its thread bound to that core before it is first run; a kernel without an assignment is not bound. Assigning one kernel or a list of kernels leaves all others alone, and the even partitioning gives every kernel an existing core with loads differing by at most one.",
 ["schedules", "configurations"], "every interleaving (up to the bound) of the start of kernel threads with the scheduler, for no, one and both kernels assigned and for the even partitioner; 0-19 kernels to partition",
 NOEXE + "Whether the thread reads its assignment before it is set depends on the schedule.",
 ["raftinc/simpleschedule.hpp", "src/simpleschedule.cpp", "raftinc/raftmanip.hpp", "raftinc/kernelmanip.tcc", "src/partition_basic.cpp", "src/partition_dummy.cpp", "raftinc/interface_partition.hpp", "raftinc/kernel.hpp"],
 [("core assignment handed to the kernel thread", "src/simpleschedule.cpp: handleSchedule, simple_run"), ("round robin over the cores", "src/partition_basic.cpp")],
 ENG, STD + "The call that binds a thread is a stand-in that records the core it is given. The scotch partitioner is not built here.")
prop("C27", "System signals reach the last registered handler, once",
 "A system signal at the head of a kernel's input is taken off together with its element and given once to the handler registered last for it, with the stream, the kernel, the signal and the caller's data; by default quit closes the stream and stops the kernel. Other elements and signals stay where they are, and a signal without a handler is reported as an error that names it.",
 ["programs", "inputs"], "every sequence of 4 (thorough 5) registrations and calls over three handlers and three signals; every content of 0-2 elements with any of five signals on two inputs, with and without a replaced handler, for inline, class and externally allocated elements",
 "No stable test raises a signal.", ["src/systemsignalhandler.cpp", "raftinc/systemsignalhandler.hpp", "src/schedule.cpp", "raftinc/ringbufferheap.tcc"],
 [("handler table", "src/systemsignalhandler.cpp"), ("look-up at the heads of the inputs", "src/schedule.cpp: checkSystemSignal, quitHandler")],
 SEQ, STD + "The shipped schedulers do not look for system signals themselves; the check drives the look-up the way a scheduler derived from the library's would.")
prop("C28", "Elements passed on without a copy are owned exactly once",
 "A large element that a kernel looks at, sends on to its output and releases is handed over in place, without a copy, and destroyed once by whoever takes it last; elements looked at but not sent on are destroyed once after the run, and stay readable until then. This holds for every mix of these and of copying within one run and along a chain of kernels.",
 ["programs", "schedules"], "every assignment of five treatments to 2-3 elements, one to three per run, with every interleaving (up to the bound) with the neighbours; chains of two forwarding kernels",
 NOEXE + "A double or missing destruction depends on the order in which the kernels of a chain release an element.",
 ["src/schedule.cpp", "raftinc/ringbufferheap.tcc", "raftinc/fifoabstract.tcc", "src/simpleschedule.cpp"],
 [("sets of elements looked at, released and sent on", "raftinc/ringbufferheap.tcc: local_peek, local_recycle, local_push"), ("destruction after each run", "src/schedule.cpp: fifo_gc")],
 ENG, STD + "Complete graphs; the engine's allocator detects use after free, double free and leaks, the elements count their constructions and destructions.")
prop("C29", "Collections and utilities hold exactly what is put in them",
 "A range of numbers from one bound to another in steps of any size holds exactly those numbers, from the first bound on and never past the second, upwards or downwards. A set of kernels lists exactly those it was made of or given, by however many threads at the same time, and running statistics give the mean and deviation of exactly the values seen since the last reset.",
 ["inputs", "schedules"], "every pair of bounds within -5..5 and every step of 1-4 for seven combinations of number types; every set of up to 5 of 3 kernels; every sequence of 5 (thorough 6) updates and resets over five values; every interleaving (up to the bound) of two and three threads adding to a set while another goes through it",
 "The one stable test looks at one set of three.", ["raftinc/utility.hpp", "raftinc/kset.tcc", "raftinc/streamingstat.tcc", "raftinc/kernelkeeper.tcc"],
 [("range", "raftinc/utility.hpp"), ("kset", "raftinc/kset.tcc"), ("keeper: acquire, release, +=", "raftinc/kernelkeeper.tcc"), ("streamingstat", "raftinc/streamingstat.tcc")],
 ENG, STD + "Sets are built from plain objects, as the library's own test does: the kernel form of the set cannot be instantiated.")

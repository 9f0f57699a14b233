"""What decides each property: the models that are checked exhaustively and the
drivers whose recorded behaviour is validated against the specifications."""
CHECKS = {
    "C02": dict(
        note="Exhaustive model of the timeline's locking protocol refining the Delivery specification; thousands of controlled schedules of the real code (every memory access a scheduling point), each history validated against Delivery. Sequentially consistent memory assumed.",
        models=[dict(module="MC_Timeline", cfg="MC_Timeline_q.cfg"),
                dict(module="MC_Timeline", cfg="MC_Timeline.cfg", tier="thorough"),
                dict(module="MC_Timeline", cfg="MC_Timeline_bug1.cfg", expect="error"),
                dict(module="MC_Timeline", cfg="MC_Timeline_bug2.cfg", expect="error"),
                dict(module="MC_Timeline", cfg="MC_Timeline_bug3.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_timeline", spec="TraceDelivery", quick=6000, thorough=400000),
                dict(variant="schedc", driver="s_timeline", spec="TraceDelivery", quick=1000, thorough=60000)],
        assumptions=["scheduling points: every memory access, lock, thread operation of the library (sequential consistency; weak memory not explored)",
                     "2-3 threads with 1-5 operations each"]),
    "C01": dict(
        note="Bounded exhaustive model of the core API (Core.tla); thousands of random and specification-generated call histories of the real library, under address/UB sanitizers, each validated step by step against the specification.",
        models=[dict(module="MC_Core", cfg="MC_Core_q.cfg"), dict(module="MC_Core", cfg="MC_Core.cfg", tier="thorough", heap="12g", workers=8)],
        traces=[dict(variant="asan", driver="d_core", mode="deliver", spec="TraceCore", quick=2400, thorough=60000, chunk_max=1000),
                dict(variant="asanc", driver="d_core", mode="deliver", spec="TraceCore", quick=240, thorough=12000, chunk_max=400),
                dict(variant="asan", driver="d_core", mode="script", spec="TraceCore", quick=1000, thorough=20000, gen=dict(module="GenCore", cfg="GenCore.cfg"), chunk_max=1000)],
        assumptions=["one thread (several: C02)", "events of 6 classes, 0-300 byte strings, buffers of 1-10000 bytes"]),
    "C17": dict(
        note="As C01 for initialise/deinitialise, classes and memory balance.",
        models=[dict(module="MC_Core", cfg="MC_Core_q.cfg"), dict(module="MC_Core", cfg="MC_Core.cfg", tier="thorough", heap="12g", workers=8)],
        traces=[dict(variant="asan", driver="d_core", mode="init", spec="TraceCore", quick=5000, thorough=150000, chunk_max=1000),
                dict(variant="asanc", driver="d_core", mode="init", spec="TraceCore", quick=240, thorough=12000, chunk_max=400),
                dict(variant="asan", driver="d_core", mode="script", spec="TraceCore", quick=1000, thorough=20000, gen=dict(module="GenCore", cfg="GenCore.cfg"), chunk_max=1000)],
        assumptions=["histories of up to 100 calls of one thread"]),
    "C18": dict(
        note="Sequential histories as C01, with features. Racing registrations: model of the register (broken unlocked variant detected), refining FeatReg.tla; controlled schedules of 2-4 threads that register the same and different classes (room running out included), enable and look up on their own timelines, validated against FeatReg.tla.",
        models=[dict(module="MC_Core", cfg="MC_Core_f.cfg"), dict(module="FeatRegImpl", cfg="MC_FeatReg_ok.cfg"), dict(module="FeatRegImpl", cfg="MC_FeatReg_bug.cfg", expect="error"), dict(module="MC_Core", cfg="MC_Core.cfg", tier="thorough", heap="12g", workers=8)],
        traces=[dict(variant="asan", driver="d_core", mode="feat", spec="TraceCore", quick=5000, thorough=150000, chunk_max=1000),
                dict(variant="asanc", driver="d_core", mode="feat", spec="TraceCore", quick=240, thorough=12000, chunk_max=400),
                dict(variant="asan", driver="d_core", mode="script", spec="TraceCore", quick=1000, thorough=20000, gen=dict(module="GenCore", cfg="GenCore_f.cfg"), chunk_max=1000),
                dict(variant="sched", driver="s_feat", spec="TraceFeatReg", quick=4000, thorough=150000, chunk_max=1000),
                dict(variant="schedc", driver="s_feat", spec="TraceFeatReg", quick=600, thorough=30000, chunk_max=300)],
        assumptions=["sequential histories of up to 100 calls, up to 40 feature classes", "sequentially consistent memory"]),
    "C03": dict(
        note="As C01 for single-threaded histories; racing creations, deliveries, destructions and deinitialisation, and the per-thread global timelines of the C++ and the C build, under controlled schedules validated against Groups.tla.",
        models=[dict(module="GroupsImpl", cfg="MC_Groups_ok.cfg"), dict(module="GroupsImpl", cfg="MC_Groups_bug1.cfg", expect="error"), dict(module="GroupsImpl", cfg="MC_Groups_bug2.cfg", expect="error"),
                dict(module="MC_Core", cfg="MC_Core_q.cfg"), dict(module="MC_Core", cfg="MC_Core.cfg", tier="thorough", heap="12g", workers=8)],
        traces=[dict(variant="sched", driver="s_groups", mode="named", spec="TraceGroups", quick=3000, thorough=100000),
                dict(variant="sched", driver="s_groups", mode="global", spec="TraceGroups", quick=2000, thorough=60000),
                dict(variant="schedc", driver="s_groups", mode="named", spec="TraceGroups", quick=500, thorough=20000),
                dict(variant="schedc", driver="s_groups", mode="global", spec="TraceGroups", quick=500, thorough=20000),
                dict(variant="asan", driver="d_core", mode="groups", spec="TraceCore", quick=5000, thorough=150000, chunk_max=1000),
                dict(variant="asanc", driver="d_core", mode="groups", spec="TraceCore", quick=240, thorough=12000, chunk_max=400),
                dict(variant="asan", driver="d_core", mode="script", spec="TraceCore", quick=1000, thorough=20000, gen=dict(module="GenCore", cfg="GenCore.cfg"), chunk_max=1000)],
        assumptions=["registration does not overlap deliveries to the same group", "sequentially consistent memory"]),
    "C04": dict(
        note="Model of the identifier counter; controlled schedules of 2-4 threads in up to three waves on the C++ and the C build, and crowds of up to 66000 threads one after another, validated against Ids.tla.",
        models=[dict(module="IdsImpl", cfg="MC_Ids_ok.cfg"), dict(module="IdsImpl", cfg="MC_Ids_bug.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_ids", spec="TraceIds", quick=6000, thorough=200000),
                dict(variant="schedc", driver="s_ids", spec="TraceIds", quick=3000, thorough=100000),
                dict(variant="plain", driver="d_threads", spec="TraceIds", quick=240, thorough=4000, chunk_max=30)],
        assumptions=["sequentially consistent memory", "interleavings of 2-4 threads at a time; crowds of up to 66000 threads without control"]),
    "C10": dict(
        note="Exhaustive small model of Callstack.tla; random scope trees (mostly up to depth 120, some hundreds deep) opened through every API form (C, C++, macros, exceptions, custom classes) under a controlled clock and sanitizers, every delivered field validated.",
        models=[dict(module="MC_Callstack", cfg="MC_Callstack.cfg")],
        traces=[dict(variant="asan", driver="d_callstack", spec="TraceCallstack", quick=4000, thorough=150000, chunk_max=500),
                dict(variant="asanc", driver="d_callstack", spec="TraceCallstack", quick=400, thorough=20000, chunk_max=100)],
        assumptions=["scopes properly nested", "the label strings outlive their scopes, as documented"]),
    "C11": dict(
        note="Model of the announcement protocol with broken variants; random label sequences (equal hashes, freed strings, hundreds of labels) under sanitizers and controlled schedules of concurrent callers, validated against Labels.tla.",
        models=[dict(module="LabelsImpl", cfg="MC_Labels_ok.cfg"), dict(module="LabelsImpl", cfg="MC_Labels_full.cfg", tier="thorough"),
                dict(module="LabelsImpl", cfg="MC_Labels_bug1.cfg", expect="error"), dict(module="LabelsImpl", cfg="MC_Labels_bug2.cfg", expect="error"), dict(module="LabelsImpl", cfg="MC_Labels_bug3.cfg", expect="error")],
        traces=[dict(variant="asan", driver="d_labels", spec="TraceLabels", quick=4000, thorough=150000, chunk_max=500),
                dict(variant="asanc", driver="d_labels", spec="TraceLabels", quick=400, thorough=20000, chunk_max=100),
                dict(variant="sched", driver="s_labels", spec="TraceLabels", quick=4000, thorough=150000),
                dict(variant="schedc", driver="s_labels", spec="TraceLabels", quick=1000, thorough=50000)],
        assumptions=["static labels are told apart by address, dynamic ones by text"]),
    "C05": dict(
        note="Random histories of deliveries, flushes and stops of real dump listeners (every buffer size, both input forms, direct and through timelines) under sanitizers, and controlled schedules of concurrent callers; the file's content is read back at every flush and stop and validated against FileDump.tla, its beginning against Meta.tla.",
        traces=[dict(variant="asan", driver="d_dump", spec="TraceDump", quick=1200, thorough=40000, chunk_max=300),
                dict(variant="asanc", driver="d_dump", spec="TraceDump", quick=120, thorough=8000, chunk_max=60),
                dict(variant="sched", driver="s_dump", spec="TraceDump", quick=4000, thorough=150000, chunk_max=1000),
                dict(variant="schedc", driver="s_dump", spec="TraceDump", quick=600, thorough=30000, chunk_max=300)],
        assumptions=["writing to the file succeeds (no full disk)", "sequentially consistent memory", "2-3 threads with 1-4 operations each"]),
    "C06": dict(
        note="Random classes (up to 255 fields, names up to 5000 bytes, up to dozens of classes), repeated registration and library restarts under sanitizers, and concurrent registration and metadata requests under controlled schedules; the metadata bytes are decoded by Wire.tla and compared with the declared classes by Meta.tla.",
        traces=[dict(variant="asan", driver="d_meta", spec="TraceMeta", quick=320, thorough=8000, chunk_max=40),
                dict(variant="asanc", driver="d_meta", spec="TraceMeta", quick=64, thorough=2000, chunk_max=20),
                dict(variant="sched", driver="s_meta", spec="TraceMeta", quick=2400, thorough=60000, chunk_max=300),
                dict(variant="schedc", driver="s_meta", spec="TraceMeta", quick=320, thorough=10000, chunk_max=80)],
        assumptions=["at most 255 fields per class (the field count has 8 bits)", "sequentially consistent memory"]),
    "C07": dict(
        note="Wire.tla defines the byte format, the meaning of every byte sequence and both event views; round trip checked exhaustively on a small instance (MC_Wire); events written by the real library (every class and field kind, random values) and streams written by an independent writer in both byte orders are read by the real parser and every reported field is validated.",
        models=[dict(module="MC_Wire", cfg="MC_Wire_5.cfg"), dict(module="MC_Wire", cfg="MC_Wire_6.cfg", tier="thorough")],
        traces=[dict(variant="asan", driver="d_wire", mode="round", spec="TraceWire", quick=320, thorough=10000, chunk_max=40),
                dict(variant="asanc", driver="d_wire", mode="round", spec="TraceWire", quick=64, thorough=2000, chunk_max=20),
                dict(variant="asan", driver="d_wire", mode="gen", spec="TraceWire", quick=1600, thorough=60000, chunk_max=200)],
        assumptions=["field kinds integer, string and structure (the parser does not support pointers and floating point)", "no two fields of one flattened event share a name"]),
    "C08": dict(
        note="Streams cut at every byte, odd but decodable streams, and damaged bytes (flips, splices, random data, nonsense descriptions) are read by the real parser under sanitizers with a time limit; Wire.tla says for each exactly which events it holds.",
        models=[dict(module="MC_Wire", cfg="MC_Wire_5.cfg"), dict(module="MC_Wire", cfg="MC_Wire_6.cfg", tier="thorough")],
        traces=[dict(variant="asan", driver="d_wire", mode="cut", spec="TraceWire", quick=1200, thorough=40000, chunk_max=150),
                dict(variant="asan", driver="d_wire", mode="odd", spec="TraceWire", quick=1200, thorough=40000, chunk_max=150),
                dict(variant="asan", driver="d_wire", mode="damage", spec="TraceWire", quick=2400, thorough=100000, chunk_max=300)],
        assumptions=["streams of up to a few kilobytes"]),
    "C09": dict(
        note="Model of the reader's threads, flag, condition variable and stream (deadlock-free, refines Reader.tla; broken variants detected); controlled schedules of the real reader over finite, fed and file streams with waiters, pollers and stoppers, validated against Reader.tla.",
        models=[dict(module="ReaderImpl", cfg="MC_Reader_ok.cfg"), dict(module="ReaderImpl", cfg="MC_Reader_ok2.cfg"), dict(module="ReaderImpl", cfg="MC_Reader_nostop.cfg"),
                dict(module="ReaderImpl", cfg="MC_Reader_bug1.cfg", expect="error"), dict(module="ReaderImpl", cfg="MC_Reader_bug2.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_reader", spec="TraceReader", quick=6000, thorough=200000, chunk_max=1000)],
        assumptions=["stop is not called from inside a listener", "a stream that never ends is a continuous one", "sequentially consistent memory"]),
    "C13": dict(
        note="Model of the receive queue protocol (deadlock-free; broken variants detected); controlled schedules of the real stream against a scripted server on a virtual network (any segmentation, closing at any moment, stops racing with blocked reads, restarts), validated against NetStream.tla.",
        models=[dict(module="NetStreamImpl", cfg="MC_Net_ok.cfg"), dict(module="NetStreamImpl", cfg="MC_Net_ok2.cfg"), dict(module="NetStreamImpl", cfg="MC_Net_ok3.cfg"),
                dict(module="NetStreamImpl", cfg="MC_Net_bug1.cfg", expect="error"), dict(module="NetStreamImpl", cfg="MC_Net_bug2.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_client", spec="TraceNet", quick=6000, thorough=200000, chunk_max=1000)],
        assumptions=["one reading thread", "stop does not overlap start", "virtual network: reliable byte streams with bounded buffers", "sequentially consistent memory"]),
    "C20": dict(
        note="Random files, directories and missing files read by random mixtures of reads, and thousands of source descriptions with the connection recorded; validated against Sources.tla, which defines what a description stands for.",
        traces=[dict(variant="asan", driver="d_streams", spec="TraceSources", quick=24000, thorough=1000000, chunk_max=3000)],
        assumptions=["descriptions between a well-formed address and clearly none (leading zeros, numbers out of range, trailing text) are left open"]),
    "C14": dict(
        note="Exhaustive model of the task list (index visits, swap removal, callbacks that schedule, remove and take time) against Sched.tla with broken variants; random histories of the real scheduler under a controlled clock, address sanitizer and a counting allocator, every run, result and period validated.",
        models=[dict(module="SchedImpl", cfg="MC_Sched_ok.cfg"), dict(module="SchedImpl", cfg="MC_Sched_ok2.cfg", tier="thorough"),
                dict(module="SchedImpl", cfg="MC_Sched_bug1.cfg", expect="error"), dict(module="SchedImpl", cfg="MC_Sched_bug2.cfg", expect="error")],
        traces=[dict(variant="asan", driver="d_sched", spec="TraceSched", quick=8000, thorough=200000, chunk_max=1000),
                dict(variant="asanc", driver="d_sched", spec="TraceSched", quick=800, thorough=20000, chunk_max=200)],
        assumptions=["callbacks may schedule and remove tasks but not tick", "a task whose callback takes time becomes due between one period after the beginning and one after the end of the run", "time does not go back"]),
    "C12": dict(
        note="Model of the listener's locks, buffer, client list, accepting and stopping threads (deadlock-free, refines TcpListen.tla; broken variants detected); controlled schedules of the real listener, C++ and C build, against clients on a virtual network that read slowly, leave and come at any moment, with interrupted and partial sends, racing stops, port conflicts; every byte a client received is decoded and validated, and connections and memory must be back at the end.",
        models=[dict(module="TcpImpl", cfg="MC_Tcp_ok.cfg"), dict(module="TcpImpl", cfg="MC_Tcp_ok2.cfg"), dict(module="TcpImpl", cfg="MC_Tcp_ok3.cfg", tier="thorough", heap="8g", workers=8),
                dict(module="TcpImpl", cfg="MC_Tcp_bug1.cfg", expect="error"), dict(module="TcpImpl", cfg="MC_Tcp_bug2.cfg", expect="error"), dict(module="TcpImpl", cfg="MC_Tcp_bug3.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_tcp", spec="TraceTcp", quick=3000, thorough=100000, chunk_max=300),
                dict(variant="schedc", driver="s_tcp", spec="TraceTcp", quick=600, thorough=30000, chunk_max=300)],
        assumptions=["clients go on reading or disconnect (sending is blocking by design)", "the listener is stopped before the library is deinitialised", "virtual network: reliable byte streams with bounded buffers", "sequentially consistent memory"]),
    "C15": dict(
        note="Random streams (classes with and without the callstack fields, every field kind, labels as text, numbers and mappings described early, late or never, loaded map files, streams cut anywhere) go through the real converter and the real command line tool; the file is parsed by a strict JSON reader written in TLA+ and compared entry by entry with what Convert.tla derives from the stream's bytes.",
        models=[dict(module="MC_Json", cfg="MC_Json.cfg")],
        traces=[dict(variant="asan", driver="d_conv", mode="chrome", spec="TraceConvert", quick=6000, thorough=150000, chunk_max=800)],
        assumptions=["texts are UTF-8", "field names of one flattened event differ", "label, duration and thread fields have the library's types", "labelled means a label that is not empty"]),
    "C16": dict(
        note="Exhaustive model of the attach-and-merge algorithm over every properly nested family of scopes on a small time axis (broken sort detected); random families (equal starts, zero durations, recursion, several threads, any stream order, large times) through the real converter and command line tool, every written file validated against CallGraph.tla.",
        models=[dict(module="CallGraphImpl", cfg="MC_Graph_ok.cfg"), dict(module="CallGraphImpl", cfg="MC_Graph_ok2.cfg", tier="thorough", workers=8), dict(module="CallGraphImpl", cfg="MC_Graph_bug.cfg", expect="error")],
        traces=[dict(variant="asan", driver="d_conv", mode="graph", spec="TraceGraph", quick=8000, thorough=200000, chunk_max=1000)],
        assumptions=["labels have no line breaks", "identical intervals and empty intervals at the edge of another may nest either way", "at most 12 scopes per thread"]),
    "C25": dict(
        note="Ownership model (cells, classes, register) of create, set, copy, assign, move, merge, edit and destroy, exhaustive for small sizes and refining the value semantics of Events.tla; broken variants (forgotten values, shared values, classes not kept) detected. Random histories over real events under address sanitizer with every live event reported after each operation and the heap balanced at the end; events of real readers kept beyond the reader and the class register; class lookups against the declared families.",
        models=[dict(module="EventsImpl", cfg="MC_Events_ok.cfg"), dict(module="EventsImpl", cfg="MC_Events_ok2.cfg", tier="thorough", workers=8),
                dict(module="EventsImpl", cfg="MC_Events_bug1.cfg", expect="error"), dict(module="EventsImpl", cfg="MC_Events_bug2.cfg", expect="error"),
                dict(module="EventsImpl", cfg="MC_Events_bug3.cfg", expect="error"), dict(module="EventsImpl", cfg="MC_Events_bug4.cfg", expect="error")],
        traces=[dict(variant="asan", driver="d_events", spec="TraceEvents", quick=4000, thorough=150000, chunk_max=500),
                dict(variant="asan", driver="d_events", mode="lookup", spec="TraceEvents", quick=2000, thorough=60000, chunk_max=250),
                dict(variant="asan", driver="d_wire", mode="keep", spec="TraceWire", quick=1600, thorough=60000, chunk_max=200)],
        assumptions=["a name is set once per event", "fields given to set_value outlive the event"]),
    "C21": dict(
        note="Both scanning loops modelled step by step and compared with the declarative meaning of a command line for all small tables and vectors (broken variants detected); random tables, prefixes and argument vectors through the real parsers, with every value, the help text, the resulting buffer size, its effect on a new thread's timeline and the init/deinit count validated.",
        models=[dict(module="CliImpl", cfg="MC_Cli_ok.cfg"), dict(module="CliImpl", cfg="MC_Cli_ok2.cfg", tier="thorough"), dict(module="CliImpl", cfg="MC_Cli_bug1.cfg", expect="error"),
                dict(module="CliImpl", cfg="MC_Cli_bug2.cfg", expect="error"), dict(module="CliImpl", cfg="MC_Cli_bug3.cfg", expect="error")],
        traces=[dict(variant="asan", driver="d_cli", spec="TraceCli", quick=16000, thorough=400000, chunk_max=2000)],
        assumptions=["one parse per parser object", "values asked for only after a successful parse", "option names are not empty"]),
    "C24": dict(
        note="The real generator runs over random source trees, options and regular expressions; LabelMap.tla derives from the files' bytes which labels they hold and the headers, the Lua file and the map are compared with it; the map is then loaded by the client. Histories of map loads, stream mappings and lookups of the client's map are validated against the same module.",
        traces=[dict(variant="asan", driver="d_map", spec="TraceMap", quick=12000, thorough=300000, chunk_max=2000)],
        assumptions=["a tracepoint statement stands on a line of its own", "names of searched directories do not look like source files", "map files are well formed", "maps are loaded before the stream is read"]),
    "C22": dict(
        note="The library is built with the hooks; random sequences of all four functions, their hook-free variants, strdup and new/delete, with every subset of hooks and re-registrations, on two threads, sizes from zero to impossible; every hook call with its arguments and every result, the contents of all blocks, and when the block was there and when it was gone are validated against AllocHooks.tla.",
        traces=[dict(variant="hooks", driver="d_hooks", spec="TraceHooks", quick=8000, thorough=200000, chunk_max=1000)],
        assumptions=["hooks allocate with the hook-free variants only", "hooks are not replaced while a call is running", "the C library is glibc"]),
    "C19": dict(
        note="Exhaustive model of the timeline's creation, unwinding and group counting with every allocation failing or not, and broken variants; random call histories of the whole core library with a user allocator that fails chosen allocations, every call's effect on blocks, descriptors, deliveries and results validated against AllocLib.tla, under sanitizers.",
        models=[dict(module="AllocImpl", cfg="MC_Alloc_ok.cfg")] + [dict(module="AllocImpl", cfg="MC_Alloc_bug%d.cfg" % k, expect="error") for k in (1, 2, 3, 4)],
        traces=[dict(variant="asan", driver="d_alloc", spec="TraceAlloc", quick=10000, thorough=400000, chunk_max=1500),
                dict(variant="asanc", driver="d_alloc", spec="TraceAlloc", quick=1200, thorough=50000, chunk_max=300)],
        assumptions=["failures during ht_init itself are not injected (it has no way to report them)", "memory of the C and C++ runtime (FILE, std::thread, thread-local storage) is not the library's", "one calling thread; the global timeline on a thread of its own"]),
    "C23": dict(
        note="Models of the trace wrapper (one event per call, names once and first) and of the client's threads and interpreter lock (order, completeness, no callback after stop, every call returns), each with broken variants; random Python programs of traced calls (keyword arguments, methods, recursion, exceptions, toggles, threads) whose dump files are validated against TracePyCore.tla, and clients reading random streams from files and servers validated byte for byte against Wire.tla, with the extension modules under sanitizers.",
        models=[dict(module="PyCoreImpl", cfg="MC_PyCore_ok.cfg")] + [dict(module="PyCoreImpl", cfg="MC_PyCore_%s.cfg" % k, expect="error") for k in ("recheck", "raise", "early", "resay", "stale")]
             + [dict(module="PyClientImpl", cfg="MC_PyClient_%s_none.cfg" % k) for k in ("cb", "poll")] + [dict(module="PyClientImpl", cfg="MC_PyClient_%s.cfg" % k, expect="error") for k in ("cb_hold", "cb_nogil", "cb_eos", "cb_wait", "cb_late", "poll_lifo")],
        traces=[dict(variant="pymod", driver="d_pycore", spec="TracePyCore", quick=400, thorough=12000, chunk_max=200),
                dict(variant="pymod", driver="d_pyclient", spec="TracePyClient", quick=400, thorough=8000, chunk_max=100)],
        assumptions=["the threads of a traced program have ended before the interpreter does", "tracing is switched and listeners are registered while no other thread runs traced functions", "a label is resolvable for listeners registered before the name was first traced", "a client is stopped or dropped before the interpreter exits, and not stopped from inside its callback"]),
    "C26": dict(
        note="Model of a context's book-keeping (no tick reported twice or lost, failed probes without trace; broken variants detected); random histories of several contexts over real child processes (odd names, computing and allocating, stopped while read, killed) and made-up ones (counters beyond 32 bits, huge memory) under a controlled clock and sanitizers, every result validated against Usage.tla.",
        models=[dict(module="UsageImpl", cfg="MC_Usage_none.cfg")] + [dict(module="UsageImpl", cfg="MC_Usage_%s.cfg" % k, expect="error") for k in ("lazy", "keep", "failmoves")],
        traces=[dict(variant="asan", driver="d_usage", spec="TraceUsage", quick=1200, thorough=40000, chunk_max=150)],
        assumptions=["Linux", "time passes between two probes of a context", "a process that has ended but was not collected may be read or not", "100 clock ticks per second"]),
    "C27": dict(
        note="Model of the trace points of C code (label and timeline handed to the once-function through one shared slot; broken variants detected); every macro of tracepoint.h and global_timeline.h, compiled as C and as C++ against the library built as C++ and as C, on 2-4 threads with timelines of their own or the global ones under controlled schedules (nested, recursive, left by exceptions, texts spoiled as soon as allowed), every announcement and event validated against Points.tla.",
        models=[dict(module="PointsImpl", cfg="MC_Points_ok.cfg"), dict(module="PointsImpl", cfg="MC_Points_full.cfg", tier="thorough", workers=8), dict(module="PointsImpl", cfg="MC_Points_nolock.cfg", expect="error"), dict(module="PointsImpl", cfg="MC_Points_process.cfg", expect="error")],
        traces=[dict(variant="sched", driver="s_points", spec="TracePoints", quick=3000, thorough=100000, chunk_max=1000),
                dict(variant="schedc", driver="s_points", spec="TracePoints", quick=2000, thorough=60000, chunk_max=1000)],
        assumptions=["a thread uses a static trace point with one timeline and one library session (the announcement is made once per thread)", "dynamic texts of different timelines with the same listeners have different hashes", "texts of uncached trace points stay until their event is delivered", "sequentially consistent memory"]),
    "C28": dict(
        note="Models of the tool (order of the headers for every include relation and directory order of four headers; writing of the files by overlapping and killed runs), broken variants detected. The tool runs on the tree with directory entries, configuration options, paths, language and compilers at random, runs overlap or die at any file operation, and whatever lies in the directory is compiled, linked into a program of two files and run (Amalg.tla). The histories of C01, C03, C05-C07, C10, C11, C17 and C18 are run on the amalgamated library, compiled as C and as C++ and seen only through its header, and validated against the same specifications.",
        models=[dict(module="AmalgImpl", cfg="MC_Amalg_ok.cfg"), dict(module="AmalgImpl", cfg="MC_Amalg_full.cfg", tier="thorough", workers=8), dict(module="AmalgImpl", cfg="MC_Amalg_bug.cfg", expect="error"),
                dict(module="HeaderOrder", cfg="MC_Header_ok.cfg"), dict(module="HeaderOrder", cfg="MC_Header_bug.cfg", expect="error")],
        traces=[dict(variant="py", driver="d_amalg.py", spec="TraceAmalg", quick=56, thorough=2000, chunk_max=60)]
               + [dict(variant=v, driver=d, spec=s, quick=q, thorough=q * 25, chunk_max=400, **({"mode": m} if m else {}))
                  for v in ("amalgc", "amalgcpp")
                  for d, m, s, q in (("d_core", "deliver", "TraceCore", 240), ("d_core", "init", "TraceCore", 160), ("d_core", "feat", "TraceCore", 160), ("d_core", "groups", "TraceCore", 160),
                                     ("d_callstack", None, "TraceCallstack", 80), ("d_labels", None, "TraceLabels", 80), ("d_dump", None, "TraceDump", 80), ("d_meta", None, "TraceMeta", 32), ("d_wire", "round", "TraceWire", 32))],
        assumptions=["options HT_MUTEX_IMPL_CUSTOM and other platforms' branches are not compiled", "static trace points of C code need pthreads, as documented", "C++ is compiled with -fpermissive (conversions of void* are not judged)", "an event class of the user is declared in one file (the header's macros also define it)"]),
    "C29": dict(
        note="Model of the listener walking over events with nested fields in any order, every text it prints is checked and unambiguous; broken variants detected. The listener is given the events of generated streams through the parser, and what it prints for each, and at the end, is compared with the event's fields (DebugText.tla, sharing the number formats of Convert.tla).",
        models=[dict(module="DebugPrint", cfg="MC_Debug_ok.cfg"), dict(module="DebugPrint", cfg="MC_Debug_full.cfg", tier="thorough", workers=8)] + [dict(module="DebugPrint", cfg="MC_Debug_%s.cfg" % b, expect="error") for b in ("char", "flat", "count", "skip")],
        traces=[dict(variant="asan", driver="d_wire", mode="debug", spec="TraceDebug", quick=600, thorough=20000, chunk_max=100)],
        assumptions=["the output stream takes everything that is written"]),
}
NOT_APPLICABLE = {}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Every pushed event is delivered exactly once, whole and in order",
  "Every listener registered on a timeline receives each event pushed to that timeline after its registration exactly once, complete and unmodified, in push order, whatever the buffer capacity, event sizes and serialisation mode. When flush or destroy of the timeline returns, nothing pushed before is still undelivered. A listener never sees anything that was not pushed, and nothing after it was unregistered.",
  ["inputs", "histories", "configurations"], "for every buffer capacity (0 included), serialised or not, every mix of event classes and sizes, every sequence of push/flush/register/unregister/destroy, any number of listeners",
  "Tests push a handful of fixed-size events into one or two capacities with one listener; boundary cases of size against remaining space, oversize events, many listeners and long histories are not reached.",
  ["lib/timeline.c", "lib/timeline_listener.c", "lib/include/internal/bag.h", "lib/include/hawktracer/event_macros.h"],
  [("flush-before-overflow, bypass for oversize events", "ht_timeline_push_event"), ("fan-out over registered listeners", "ht_timeline_listener_container_notify_listeners")],
  ["listener callback (data, size, serialized)"])
p("C02", "Concurrent use of a thread-safe timeline loses, repeats or tears nothing",
  "When several threads push events to and flush one thread-safe timeline, every listener still receives every event exactly once and whole, all listeners see the same order, and an event whose push returned before another push began is delivered before it. After the last flush returns nothing is left undelivered, and no schedule deadlocks or corrupts memory.",
  ["schedules"], "for every interleaving of any number of threads calling push and flush on a timeline created thread-safe",
  "The suite has no test that uses one timeline from two threads; a data race shows only under particular interleavings.",
  ["lib/timeline.c", "lib/mutex.cpp"], [("per-timeline lock around buffer update and delivery", "ht_timeline_push_event, ht_timeline_flush")],
  ["listener callbacks", "push/flush call and return"])
p("C03", "Listener groups: one per name, isolated otherwise, each listener released once",
  "Timelines created with the same listener-group name share one set of listeners, however creations race and whichever timeline the listener was registered through, while differently named and unnamed timelines are isolated from each other. Each listener is destroyed exactly once: when listeners are unregistered, or when the last timeline of an unnamed group is destroyed, or (named group) when both the library is deinitialised and its last timeline is gone; it is never called afterwards. Per-thread global timelines all feed the one global group, and deliver what they hold when their thread ends.",
  ["schedules", "histories"], "for every interleaving of timeline creation/destruction, listener registration and pushes by several threads, any number of listeners and names (registering a listener does not overlap deliveries of the same group)",
  "Tests create timelines from a single thread with one or two listeners; check-then-act races between creators, reference counts over long create/destroy histories and the global timeline of exiting threads are not sampled.",
  ["lib/timeline_listener.c", "lib/registry.c", "lib/global_timeline.cpp"], [("find-or-create in registry", "ht_find_or_create_listener"), ("reference count", "ht_timeline_listener_container_ref/unref")],
  ["listener callbacks and destroy callbacks"])
p("C04", "Event and thread identifiers are unique under concurrency",
  "No two calls that hand out an event identifier, on any threads, ever return the same value, and one provider's identifiers only grow in the order of calls that do not overlap. A thread keeps the same non-zero thread identifier for its whole life and no two threads, alive or finished, ever share one.",
  ["schedules", "histories"], "for every interleaving of identifier requests from any number of threads",
  "Tests ask for identifiers from threads that run one after another; lost updates need two threads inside the increment together.",
  ["lib/event_id_provider.cpp", "lib/thread.c"], [("atomic increment", "ht_event_id_provider_next"), ("thread-local caching of a global counter", "ht_thread_get_current_thread_id")],
  ["returned identifiers"])
p("C05", "The dump file holds the metadata and exactly the delivered events",
  "The file written by a file dump listener is, once it is flushed or stopped and as long as writing succeeds, byte for byte the stream's metadata followed by the serialised form of every event delivered to it, whole and in delivery order, for every internal buffer size and for serialised and unserialised input. Concurrent deliveries, flushes and a stop never tear, lose or repeat an event; what was delivered before the stop is in the file, what is delivered after a stop is not, and a second stop or a destroy after a stop changes nothing.",
  ["inputs", "schedules", "histories", "configurations"], "for every buffer size (0 for serialised streams), event size, mix of serialised/unserialised deliveries, and every interleaving of deliveries, flush, stop, destroy",
  "Tests use two buffer sizes, events smaller than the buffer and one thread.",
  ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c"], [("chunked copy through a bounded buffer", "ht_listener_buffer_process_*"), ("listener mutex and stopped flag", "ht_file_dump_listener_*")],
  ["content of the file"])
p("C06", "Every stream describes itself before it uses a class",
  "Whatever a listener receives as metadata starts with the byte-order event and then describes every event class registered so far, each exactly once, with its identifier, name and all its fields (at most 255; name, type, size, kind) in declaration order. So a reader that knows only the four bootstrap classes can decode every event of those classes that follows; class identifiers are dense, unique and stable, and this stays true for any number of classes, for names of any length, for concurrent registration and after the library was deinitialised and initialised again.",
  ["inputs", "histories", "schedules", "configurations"], "for every set of registered classes (any number, name lengths, field lists), serialised or raw metadata, and every init/deinit history",
  "Tests count metadata events for the few classes of the test binary in one process-wide initialisation.",
  ["lib/registry.c", "lib/system_info.c", "lib/timeline_listener.c", "lib/init.c"], [("metadata push", "ht_timeline_listener_push_metadata"), ("class registry", "ht_registry_register_event_klass")],
  ["bytes passed to the metadata callback", "dump file prefix"])
p("C07", "Reading a stream gives back the events that were written",
  "For every event class built from integers, strings and other event structures, with distinct field and class names, and every field value, an event that was serialised into a stream is reported by the parser once, at its place in the stream, with the same class, timestamp, identifier and field values. This holds for little- and big-endian streams, for nested and flattened event views, for inherited fields, extreme integers, and strings of any length and content, empty, absent (NULL) or with bytes above 127.",
  ["inputs", "programs", "configurations"], "for all field types, values, inheritance depths, string lengths/contents, both byte orders, both parser modes",
  "Unit tests check one or two events with small values; integration tests use ASCII labels.",
  ["lib/include/hawktracer/event_macros.h", "lib/events.c", "parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event.cpp", "parser/event_klass.cpp", "parser/include/hawktracer/parser/endianness_convert.hpp"],
  [("serialise/size functions generated from the field list", "HT_EVENT_SERIALIZE_FUNCTION_DEF"), ("field-driven decoding", "ProtocolReader::_read_event")],
  ["bytes of the stream", "events passed to the reader's listeners"])
p("C08", "Damaged or truncated input ends cleanly after a correct prefix",
  "For any byte sequence whatsoever the reader terminates, without crashing, hanging or reading outside its data, and what it reports before stopping is exactly the complete, well-formed events at the front of the sequence. A stream cut at any byte yields precisely the events that were complete before the cut; an event of an undescribed class ends the reading.",
  ["inputs", "crash_points"], "for every truncation point of valid streams, every single- and multi-byte corruption, and arbitrary bytes",
  "Tests feed only complete, well-formed streams.",
  ["parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event_klass.cpp", "parser/file_stream.cpp"], [("error propagation from the stream reads", "ProtocolReader::_read_event")],
  ["events passed to the reader's listeners", "process outcome"])
p("C09", "The stream reader always completes and stops",
  "After start, waiting for completion returns on every schedule once the stream has ended, and by then every event of the stream has been reported to every listener, once, in stream order. Stopping returns on every schedule, whatever the reader is doing, also twice, without a start, or while a stream has no data to offer (stop is not called from inside a listener); after stop returns no listener is called any more, and end-of-stream is then reported.",
  ["schedules", "histories"], "for every interleaving of the reading thread, the waiting/stopping threads and the data source",
  "Tests wait on one finished file; a lost wake-up or a join on a blocked read needs a particular interleaving.",
  ["parser/protocol_reader.cpp", "parser/include/hawktracer/parser/protocol_reader.hpp"], [("running flag, condition variable, join", "ProtocolReader::stop / wait_for_complete / _read_events")],
  ["start/stop/wait call and return", "listener calls"])
p("C10", "Every traced scope yields exactly one correct duration event",
  "For every properly nested sequence of scope starts and stops on a timeline, of any depth and mix of event classes, each stop emits exactly one event, for the innermost open scope, carrying the start's timestamp and identifier, that start's label and other fields, the caller's thread identifier, and a duration equal to the stop time minus the start time. Scopes still open emit nothing.",
  ["histories", "programs"], "for all nested start/stop histories (depth beyond every internal capacity), label values and event classes, on any number of threads each with its own timeline",
  "Tests nest at most three scopes of two classes.",
  ["lib/feature_callstack.c", "lib/stack.c", "lib/scoped_tracepoint.c", "lib/include/hawktracer/scoped_tracepoint.hpp", "lib/monotonic_clock.cpp"], [("stack of open events", "ht_feature_callstack_start/stop, ht_stack_push/pop")],
  ["events delivered to listeners"])
p("C11", "A cached label is announced once and before use, and names the right text",
  "On a timeline, the first use of a label delivers one mapping event (identifier, text) before any event that uses the returned identifier, later uses deliver none, the same label (static labels: the same address) always returns the same identifier and distinct labels distinct ones. Re-sending the map delivers every known label exactly once with its original text, for dynamic labels also when the caller's string has been changed or freed since; this holds for any number of labels and, if enabled as thread-safe, for concurrent callers.",
  ["inputs", "histories", "schedules"], "for all label sets (any count, length, static or dynamic) and call histories, and all interleavings of callers",
  "Tests add one or two labels from one thread.",
  ["lib/feature_cached_string.c", "lib/hash_map.c", "lib/include/internal/hash.h", "lib/include/hawktracer/string_scoped_tracepoint.h"], [("hash map from identifier to label", "ht_feature_cached_string_add_mapping*, push_map")],
  ["mapping events delivered to listeners", "returned identifiers"])
p("C12", "Each TCP client receives metadata and then whole events, and harms nobody",
  "Every client that connects to a TCP listener receives the stream's metadata followed by an uninterrupted run of whole events in delivery order, starting at an event boundary and, if it stays connected and keeps reading until the listener is stopped, ending with the last one; every event delivered after the client was accepted is in it. A client connecting, disconnecting or reading slowly at any moment neither loses nor damages data of other clients nor ends the traced process, and stop and destroy return on every schedule as long as clients keep reading or disconnect, are safe to repeat or to race with deliveries, and close the connections.",
  ["schedules", "fault_sequences", "histories"], "for every interleaving of connects, disconnects, partial sends, deliveries, stop and destroy, and every buffer size",
  "The only TCP listener test is disabled; the integration tests use one well-behaved client.",
  ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp", "lib/listener_buffer.c"], [("push mutex, client list mutex, accept thread", "ht_tcp_listener_*, ht_tcp_server_*")],
  ["bytes received by clients", "process outcome"])
p("C13", "The network stream hands over exactly the received bytes, then ends",
  "A TCP client stream (read by one thread) yields exactly the bytes the server sent, in order and of any value, however they are split into packets or read calls, and reports the end only after the last of them. Reads, start and stop return on every schedule once the peer has closed or stop was called, also if stop races with a blocked read, and a stopped stream can be started again.",
  ["schedules", "inputs", "fault_sequences"], "for every split of the data, every mixture of single-byte and block reads, and every interleaving of receiver thread, reader, peer close and stop",
  "No unit test covers the class; integration tests send ASCII data over loopback.",
  ["client_utils/tcp_client_stream.cpp", "client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp"], [("receive thread, queue, condition variable", "TCPClientStream::_run/read_byte/read_data/stop")],
  ["values returned by read calls"])
p("C14", "Tasks run when due, never early, and exactly as their mode says",
  "On each tick every scheduled task that is due runs exactly once and no other task runs; a first run is due one period after scheduling, and later runs one period after the previous due time (delays ignored) or after the previous run (timer restarted). A task that asks to end, or is removed, never runs again and removal reports truthfully whether the task existed; callbacks may themselves schedule and remove tasks; identifiers are unique, and the optimal tick period is the greatest common divisor of the non-zero periods of the live tasks.",
  ["histories", "inputs"], "for all sequences of schedule/remove/tick, clock advances (delays included), periods and modes, any number of tasks",
  "Tests check one or two tasks for a few ticks.",
  ["lib/task_scheduler.c"], [("next-action time per task", "ht_task_scheduler_tick")],
  ["task callbacks", "return values"])
p("C15", "Chrome trace output is valid JSON with one entry per labelled event",
  "For every event stream the chrome-tracing converter writes a syntactically valid JSON document, at any point where it is stopped, containing exactly one complete-event entry per labelled event (one with a non-empty label field) in stream order and nothing else. Each entry has the event's label text (resolved through the mappings seen or loaded so far, the number itself if unknown), timestamp and duration in microseconds, thread identifier, and every remaining field with its value.",
  ["inputs", "histories"], "for all streams, label texts (quotes, backslashes, control characters), field types and values, and mapping orders",
  "No test parses the converter's output as JSON or uses special characters.",
  ["client/chrome_trace_converter.cpp", "client/converter.cpp", "client/tracepoint_map.cpp"], [("entry formatting", "ChromeTraceConverter::process_event")],
  ["output file"])
p("C16", "Callgrind output preserves nesting, call counts and time",
  "For every set of nested or disjoint scopes of a thread, labels without line breaks, the call graph written for that thread attributes each scope to the innermost scope that encloses it (identical or touching intervals may nest either way), merges scopes with the same label under the same parent, and records the right number of calls. Total time of a node is the sum of its scopes' durations, self time is total minus children, and so the self times of a thread add up to the time of its outermost scopes; each thread has its own file.",
  ["inputs", "histories"], "for every family of properly nested intervals (equal starts and zero durations included), labels and threads, in any stream order",
  "Tests cover five fixed shapes without equal timestamps.",
  ["client/call_graph.cpp", "client/callgrind_converter.cpp"], [("sort by start then attach by containment", "CallGraph::make")],
  ["output files", "call graph"])
p("C17", "Initialisation is counted and re-initialisation starts clean",
  "Any number of nested initialise/deinitialise pairs leaves the library usable until the last deinitialise and changes nothing in between: registered classes keep their identifiers, groups keep their listeners. After the last deinitialise everything the library allocated is released except what live timelines still need, which can still be used and destroyed safely, and a fresh initialise works like the first; surplus deinitialise calls do nothing.",
  ["histories"], "for all sequences of init/deinit interleaved with class registration, timeline creation and destruction",
  "Tests initialise once per process (one test program destroys a timeline after deinit).",
  ["lib/init.c", "lib/registry.c", "lib/posix_mapped_tracepoint.c"], [("initialisation counter", "ht_init/ht_deinit")],
  ["is-initialized query", "class identifiers", "allocator balance"])
p("C18", "Timeline features: one instance per class, right lookup, released once",
  "A feature class gets a unique identifier at its first registration and later registrations are refused and change nothing; at most the maximum number of classes can be registered and further ones are refused. Enabling a feature succeeds exactly if its class is registered and the timeline has none of that class yet; lookup returns precisely the enabled instance; every instance handed over is destroyed exactly once: at once if refused, else when its timeline is destroyed.",
  ["histories", "schedules"], "for all sequences of register/enable/lookup/destroy over any number of classes and timelines, concurrent registrations included",
  "Tests register one or two feature classes from one thread.",
  ["lib/timeline.c", "lib/registry.c", "lib/include/hawktracer/feature.h"], [("feature slot table and registry counter", "ht_timeline_set_feature, ht_registry_register_feature")],
  ["error codes", "lookup results", "destroy callbacks"])
p("C19", "Allocation goes through the user's allocator, balances, and may fail safely",
  "Every block of memory the core library uses is obtained from, resized by and returned to the user-supplied allocator exactly once, so after everything is destroyed nothing is outstanding. If any single allocation or any set of allocations fails after initialisation, a creation or registration call that needed it reports failure (no object or an error code) and releases what it had acquired (a named listener group already registered may stay with the library), an event or scope whose own memory cannot be had is lost and no other, nothing crashes, and the library's other objects keep working.",
  ["fault_sequences", "histories"], "for every position (and combination) of failing allocations in every creation/registration/usage history",
  "Tests fail a few chosen allocations of bag, stack and timeline creation.",
  ["lib/alloc.c", "lib/timeline.c", "lib/timeline_listener.c", "lib/hash_map.c", "lib/stack.c", "lib/feature_cached_string.c", "lib/feature_callstack.c", "lib/task_scheduler.c", "lib/listeners/file_dump_listener.c", "lib/listeners/tcp_listener.c"],
  [("single allocator entry point", "ht_alloc/ht_realloc/ht_free"), ("error paths of constructors", "*_create/_init")],
  ["allocator calls", "return values and error codes"])
p("C20", "File and source streams deliver the file's bytes and nothing else",
  "A file stream returns exactly the bytes of the file in order, for any mixture of single-byte and block reads; a block read succeeds only if all requested bytes were available, and at the end single-byte reads report the end. A source description that names an existing file opens that file, one that is a well-formed IPv4 address with optional port opens a connection to that address and port (default port if none), and one that is clearly neither is refused.",
  ["inputs", "histories"], "for all file contents, all read sequences and all source descriptions",
  "Tests read a few short fixed contents and four descriptions.",
  ["parser/file_stream.cpp", "client_utils/stream_factory.cpp"], [("stdio reads", "FileStream::read_byte/read_data"), ("description scanner", "make_stream_from_string")],
  ["returned bytes and results"])
p("C21", "Command lines are interpreted exactly as documented",
  "The converter's option parser accepts a command line exactly if every argument is a registered option (with a value where one is needed) and every mandatory option is present, and then reports exactly the given values, the first one if repeated, and defaults otherwise. The library's own parser picks out only its own options wherever they stand, sets the global buffer size only for a well-formed in-range number, and leaves everything else untouched.",
  ["inputs"], "for all argument vectors over any option set, library options in any position",
  "Tests try a dozen fixed vectors.",
  ["client_utils/command_line_parser.cpp", "lib/command_line_parser.c"], [("option table scan", "CommandLineParser::parse, ht_command_line_parse_args")],
  ["parse result and values"])
p("C22", "Allocation hooks fire exactly once around each call with its arguments",
  "While hooks are registered (hooks allocate only through the hook-free variants and are not replaced during a running call), each malloc, calloc, realloc and free of the process calls its registered pre-hook once before and its post-hook once after the real operation, with the call's own arguments, the returned pointer and the registered user data; hooks that are not registered are skipped. The hook-free variants call none, and in all cases the memory operation itself behaves as without hooks.",
  ["histories", "inputs"], "for all sequences of allocation calls, subsets of registered hooks and re-registrations",
  "Tests make one call per function with all hooks set.",
  ["lib/platform/linux/alloc_hooks.c"], [("hook wrappers over the C library", "malloc/calloc/realloc/free")],
  ["hook calls", "results of the memory operations"])
p("C23", "Python: traced calls give one event each, clients see the true values",
  "In Python, while tracing is enabled, every call through the trace decorator of a function, method or other callable that has a name, with any arguments, returning or raising, nested or recursive, on any thread, puts exactly one event with that name into the dump file (complete when the interpreter has exited), per thread in the order in which the calls end; while it is disabled, none. Result, arguments and exception are unchanged in all cases. The Python client hands over every event of a stream, in order, as a class name and a dictionary with all its fields and their exact values (signed, unsigned and strings of any bytes), by polling or by callback, all of them once the end is reported and no callback after stop returned; its methods return, at any time and in any order, without hanging or crashing the interpreter.",
  ["programs", "inputs", "schedules"], "for all Python call trees (arguments, exceptions, recursion, methods, toggles, threads), all streams and all sequences of client calls",
  "Tests trace one simple function and read one event.",
  ["bindings/python3/hawktracer_core_python.cpp", "bindings/python3/hawktracer_client_python.cpp", "bindings/python3/client_context.cpp"], [("trace decorator object", "hawktracer_core_python.cpp"), ("event queue / callback bridge", "client_context.cpp")],
  ["events in the stream", "Python dictionaries"])
p("C24", "Label maps: every tracepoint gets one number and the maps agree",
  "The label generator finds every tracepoint label of the searched files (each tracepoint on a line of its own), numbers the labels uniquely and consecutively from the start value (continuing across languages), and writes the same numbers into the generated headers and the map file. A client that loads map files resolves every number to the label of the last map that defines it, labels received in the stream take precedence from then on, and unknown numbers resolve to themselves.",
  ["inputs", "histories"], "for all source trees, label sets, languages and sequences of map loads and stream mappings",
  "Tests use one C++ and one Lua file; map loading is untested.",
  ["tools/generate_tracepoint_labels.py", "client/tracepoint_map.cpp"], [("regex scan and numbering", "LanguageSupport.get_labels"), ("number to label map", "TracepointMap")],
  ["generated files", "resolved labels"])
p("C25", "Reader-side containers keep events valid while anyone holds them",
  "An event object copied, moved, assigned or merged from another has the same fields and values as its source had, deep-copied (strings and nested events included), and stays valid and unchanged after the source is modified or destroyed, with nothing leaked or freed twice. Lookup by name finds exactly the fields the event has, nested fields included for class lookups, and reports absence otherwise.",
  ["histories", "inputs"], "for all sequences of create/set/copy/move/assign/merge/destroy over events with any field kinds",
  "Tests copy and move one event with one or two fields.",
  ["parser/event.cpp", "parser/include/hawktracer/parser/event.hpp", "parser/event_klass.cpp"], [("deep copy and ownership of values", "Event::Value")],
  ["values read back", "allocator balance"])
p("C26", "The usage probes report what the system accounts to the process",
  "A CPU usage context reports the percentage of processor time its process used (user and system together) since the context's previous successful probe, its creation being the first, so that no time is counted twice or lost; a memory usage context reports the process's virtual, shared and resident memory in bytes, each only where asked for. This holds whatever the process's name, numbers and state. When the process cannot be read the probes report an error, and later results are as if the failed probe had not been made.",
  ["inputs", "histories"], "for every sequence of probes by any number of contexts over processes that compute, allocate, end and have any name, with any amount of time passing between probes",
  "Tests probe the current process once or twice and look at signs only; odd process names, large counters, failed probes between others and several contexts are not sampled.",
  ["lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"], [("parsing of /proc/<pid>/stat and statm", "_get_process_time, ht_memory_usage_get_usage"), ("difference to the previous probe", "ht_cpu_usage_get_percentage")],
  ["probe results"])
p("C27", "Every trace point names its code, on its thread's timeline",
  "Each time a trace point macro (plain, static, dynamic, numbered or function; C or C++; on a given timeline or the calling thread's global one) is passed, exactly one event for that scope reaches the listeners of that timeline once the scope has ended (normally, early or by an exception), in the order in which scopes end. The event carries the text or number the trace point was given, or an identifier which was announced before on the same timeline with exactly that text; a text is announced at most once per identifier and timeline and only if a trace point was given it. Threads passing the same trace point at the same time do not disturb each other.",
  ["schedules", "programs", "inputs"], "for all interleavings of threads passing any of the macros' trace points, nested and repeated in any way",
  "Tests pass a handful of trace points on one thread and compare one event; racing first passes of a static trace point are not sampled.",
  ["lib/include/hawktracer/string_scoped_tracepoint.h", "lib/include/hawktracer/scoped_tracepoint.h", "lib/include/hawktracer/scoped_tracepoint.hpp", "lib/include/hawktracer/global_timeline.h", "lib/posix_mapped_tracepoint.c", "lib/scoped_tracepoint.c"], [("one announcement per thread and trace point", "HT_TP_STRACEPOINT, ht_pthread_mapped_tracepoint_enter/leave/add_mapping"), ("scope end", "ScopedTracepoint, _ht_callstack_timeline_scoped_cleanup")],
  ["events and announcements at the listener"])
p("C28", "The amalgamated library is the library",
  "tools/amalgamate.py makes one header and one C or C++ source file that stand for the library: in whatever order the file system lists the directories, whatever options the configuration has and however the paths are written, the files compile as C99 or C++11 and later, the header can be included by any number of files of a program (C and C++), and the program that results behaves as with the library itself (delivery, initialisation, features, listener groups, call stacks, labels, dump files, metadata and wire format). Each of the files is at any time either not there or complete, also while runs into the same directory overlap and after a run is killed; a file that was there never disappears and a finished run leaves all of its files.",
  ["inputs", "configurations", "crash points", "schedules"], "for all directory orders, configurations, languages, overlaps and deaths of runs",
  "The tests do not run the tool at all; the project's continuous integration compiles one configuration in the one order its file system happens to have, and links it with nothing.",
  ["tools/amalgamate.py", "cmake/test_amalgamation.cmake", "lib/include/hawktracer", "lib"], [("the order of the headers", "HeadersDB._get_header_graph, Graph.topology_sort"), ("complete files", "replaced_file"), ("one header in many files", "event_macros_impl.h, HT_DECLS_BEGIN/END in the headers")],
  ["what is in the output directory at each file operation of the tool, compiled and run; events at listeners of programs linked with the amalgamated library"])
p("C29", "The debugging listener prints every event truthfully",
  "For each event it is given, the debugging listener of the parser library prints the name of the event's class and every field of the event exactly once, with its type, its name and its value: numbers of every width and sign in decimal, texts as they are, and the fields of a nested event, to any depth, indented below the field that holds it. Its statistics give, for each class that occurred, exactly how many events of that class it was given, and the number of all events. Nothing else is printed.",
  ["inputs", "histories"], "for all sequences of events of any classes, with any field kinds, values and nesting",
  "The tests do not cover this listener.",
  ["parser/debug_event_listener.cpp", "parser/include/hawktracer/parser/debug_event_listener.hpp"], [("walk over the fields", "print_event, print_field_value"), ("counts", "DebugEventListener::_process_event, print_statistics")],
  ["text on the standard output"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))

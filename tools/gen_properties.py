#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the text stays reviewable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=s) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("P01", "A timeline delivers every pushed event to every listener once, in order",
 "Every event pushed to a timeline is handed to each listener registered at hand-over time exactly once, complete, unchanged and in push order, and never split over two notifications. This holds for every buffer capacity (including zero), every event size, every number of listeners, with and without serialisation, and for every order of pushes, flushes, listener registrations and removals. A flush or the destruction of the timeline leaves nothing undelivered.",
 ["histories", "inputs", "configurations"],
 "all operation sequences up to the stated depth over {push of 6 event shapes, flush, register, unregister all, destroy} x buffer capacities 0..N x {serialised, raw} x listener counts crossing every growth threshold",
 "tests push two or three equal-size events into one buffer size; losing, duplicating or splitting an event needs a particular fill level, an event larger than the buffer, or a listener set that was grown or cleared before",
 ["lib/timeline.c", "lib/timeline_listener.c", "lib/include/internal/bag.h"],
 ["timeline buffer fill level", "listener set"],
 [("buffer-full flush and oversize bypass", "lib/timeline.c ht_timeline_push_event"), ("listener fan-out", "lib/timeline_listener.c notify")],
 ["listener callback"])

prop("P02", "A thread-safe timeline loses, repeats or mixes no event under any schedule",
 "When several threads push to and flush one timeline created as thread-safe, each listener receives every event exactly once and byte-for-byte intact, events of one thread arrive in that thread's push order, and notifications of that timeline never overlap in time. This holds for every interleaving of the threads.",
 ["schedules"],
 "all interleavings (up to the stated preemption bound) of 2-3 threads that push events of different sizes and flush, over buffer capacities around the event sizes",
 "a test runs a few schedules out of the astronomically many; the windows are a few instructions wide",
 ["lib/timeline.c", "lib/mutex.cpp", "lib/timeline_listener.c"],
 ["timeline buffer and fill level", "timeline lock"],
 [("timeline lock around push and flush", "lib/timeline.c"), ("mutex", "lib/mutex.cpp")],
 ["listener callback"])

prop("P03", "Same-named timelines share one listener set and differently named ones do not",
 "Timelines created with the same listener-set name, in any order and from any threads (including the per-thread global timeline), share one listener set: a listener registered through any of them receives the events of all of them, and a listener never receives events of timelines with another name or no name. The destroy callback of a listener runs exactly once, only after the last timeline that uses the set and the library itself have released it or all listeners are explicitly removed, and no listener is called after that. This holds for every interleaving of creation, registration, delivery and destruction in different threads as long as registration does not overlap a delivery to the same set.",
 ["schedules", "histories"],
 "all histories up to the stated depth over create(name a|b|none)/register/push/destroy/deinit, and all interleavings of 2-3 threads creating, using and destroying same-named timelines",
 "two threads touching the global timeline for the first time at the same instant never happens in a unit test",
 ["lib/timeline_listener.c", "lib/registry.c", "lib/global_timeline.cpp"],
 ["named listener-set registry", "listener-set reference count"],
 [("find or create of the named set", "lib/timeline_listener.c ht_find_or_create_listener"), ("reference counting", "lib/timeline_listener.c ref/unref")],
 ["listener callback", "listener destroy callback"])

prop("P04", "Event ids and thread ids are unique and stable under any schedule",
 "Event identifiers drawn from one provider start at 0 and, over all threads and timelines that use it, every value is handed out exactly once without gaps; each thread sees its own identifiers increase. Every thread obtains a non-zero thread identifier that never changes during its life and differs from that of every other thread.",
 ["schedules"],
 "all interleavings of 2-3 threads drawing 1-3 identifiers each from default and private providers, directly and through pushed events",
 "duplicate identifiers need two threads inside the same few instructions",
 ["lib/event_id_provider.cpp", "lib/thread.c", "lib/timeline.c"],
 ["identifier counter", "thread identifier counter"],
 [("atomic increment", "lib/event_id_provider.cpp"), ("thread-local id", "lib/thread.c")],
 ["public id functions", "ids in delivered events"])

prop("P05", "Each event class gets one id and every stream describes all classes exactly",
 "Registering an event class any number of times, from any threads, yields one identifier that no other class has, and registering a class never changes the identifier of another. The metadata handed to a new listener or written at the start of a dump announces the byte order first and then every class registered so far exactly once with its name, identifier, and all fields with the right order, type, size and signedness, for any number of classes and any name lengths, in serialised and raw form.",
 ["histories", "schedules", "inputs"],
 "all registration orders and multiplicities over a pool of classes, all class counts crossing the growth and chunk thresholds, name lengths 1..600, and all interleavings of 2-3 threads registering overlapping sets of classes or reading metadata",
 "tests register a handful of classes once, from one thread, and never decode the metadata they get",
 ["lib/registry.c", "lib/timeline_listener.c", "lib/system_info.c", "lib/event_utils.c"],
 ["class registry", "class identifier"],
 [("registration under lock", "lib/registry.c ht_registry_register_event_klass"), ("metadata chunking", "lib/registry.c push classes")],
 ["metadata bytes", "returned identifiers"])

prop("P06", "A file dump holds metadata and then exactly the accepted events",
 "The file written by a file-dump listener consists of the metadata followed by exactly the serialised bytes of the events delivered to it before it was stopped, in delivery order, for every internal buffer size and every sequence of deliveries (serialised or raw), flushes, stop and destroy. After a stream flush returns, everything delivered so far is in the file even if the process dies immediately; at every other instant the file is a prefix of that byte sequence. Deliveries after stop are ignored and stopping twice is harmless, also when deliveries, flushes and stop come from different threads.",
 ["histories", "crash_points", "schedules", "configurations"],
 "all operation sequences up to the stated depth x listener buffer sizes 0..N with the on-disk content inspected after every operation (crash point), and all interleavings of delivery, flush and stop threads",
 "tests read the file after one fixed sequence; the loss needs a particular buffer fill at a particular operation, or a stop racing a delivery",
 ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c"],
 ["listener buffer", "output file"],
 [("listener buffer fill and flush", "lib/listener_buffer.c"), ("stop/flush under lock", "lib/listeners/file_dump_listener.c")],
 ["file content"])

prop("P07", "A trace cut off at any byte still decodes to exactly its complete events",
 "If a trace ends at an arbitrary byte (the traced program crashed, the disk filled up or the connection dropped), the reader delivers exactly the events that are completely contained in it, in order and with the right values, then reports end of stream, and never crashes, hangs or delivers a partial event.",
 ["crash_points", "inputs"],
 "every byte prefix of every trace in a family of histories covering all event kinds, both decoding modes and both byte orders, via file and socket style streams",
 "tests never truncate a stream; each cut position is a different state of the decoder",
 ["parser/protocol_reader.cpp", "parser/file_stream.cpp", "parser/event.cpp"],
 ["decoder position"],
 [("end-of-data detection", "parser/protocol_reader.cpp, parser/file_stream.cpp")],
 ["reader event callback", "end of stream"])

prop("P08", "What is traced is what is decoded: events survive encode and decode unchanged",
 "For every event class built from signed and unsigned integers of all widths and strings, directly or by inheritance, encoding an event and decoding the stream yields the same class, timestamp, id and field values, in flat and in nested decoding mode. A stream whose numbers are stored in the opposite byte order decodes to the same values, and strings of any length and any byte content (except the terminator) are preserved.",
 ["inputs", "configurations"],
 "cross product of field kinds x boundary values x class shapes (plain, derived, twice derived, every adjacent pair of field kinds) x string lengths across buffer doubling thresholds x all byte values x {flat, nested} x {native, swapped}",
 "one test event with small values of one shape is decoded; sign extension, byte order and string growth only show on other values",
 ["lib/include/hawktracer/event_macros.h", "lib/events.c", "parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event_klass.cpp", "parser/event.cpp", "parser/include/hawktracer/parser/endianness_convert.hpp"],
 ["serialised bytes", "decoded event"],
 [("encoder", "lib/include/hawktracer/event_macros.h"), ("decoder", "parser/protocol_reader.cpp")],
 ["decoded event values"])

prop("P09", "Waiting for or stopping the reader always returns, with all events delivered",
 "Once the stream has ended, waiting for completion returns in every schedule, any number of threads may wait, and by then every event of the stream has been handed to every registered callback, in stream order; end-of-stream is reported. Stopping the reader at any moment, also while the stream is idle, returns in every schedule, after which no callback runs and destruction is safe; a callback may stop the reader that calls it, and no later event is handed over then. If no thread can be started, start reports it and waiting returns; a reader that was stopped or has reached the end can be started again and reads the stream anew.",
 ["schedules"],
 "all interleavings of the reader thread with waiting, polling, stopping and destroying threads over finite, idle and slowly arriving streams",
 "a lost wake-up needs the stream to end between the predicate check and the wait",
 ["parser/protocol_reader.cpp", "client_utils/tcp_client_stream.cpp"],
 ["running flag", "condition variable"],
 [("completion signalling", "parser/protocol_reader.cpp"), ("stop/join", "parser/protocol_reader.cpp")],
 ["reader API return", "event callbacks"])

prop("P10", "Every TCP client receives metadata and then a gap-free stream of whole events",
 "Each client that connects to the TCP listener receives the metadata and then, starting at an event boundary, every event sent from then on, whole, in order, without gaps or repetitions, up to the point where the connection or listener ends; this holds for any number of clients connecting at any moment relative to pushes, for every buffer size, and for any way the network splits transmissions. A client that disconnects or fails does not disturb the other clients or the traced program.",
 ["schedules", "fault_sequences", "configurations"],
 "all interleavings of pushing threads, connecting clients and the accepting thread over buffer sizes around the event size, with all short-write and send-failure patterns up to the stated number of deviations",
 "the only test connects nothing; joining between two halves of an event or a short write needs exact timing",
 ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp", "lib/listener_buffer.c"],
 ["client set", "listener buffer"],
 [("accept and metadata hand-over", "lib/tcp_server.cpp, lib/listeners/tcp_listener.c"), ("send loop", "lib/tcp_server.cpp")],
 ["bytes received per client"])

prop("P11", "Stopping or destroying a TCP listener is safe, final and always returns",
 "Stopping or destroying the TCP listener returns in every schedule, whatever other threads are pushing or connecting; everything accepted before it is sent to the connected clients, after which their connections are closed and later pushes are ignored. Stopping twice, stopping and then destroying, and starting a new listener on the same port all work, and no connection, socket or memory is leaked or used after release.",
 ["schedules", "histories"],
 "all interleavings of stop/destroy with pushes, connecting and failing clients, plus all sequences over create/stop/push/destroy up to the stated depth",
 "the shutdown path is exercised once, with no clients and no concurrent activity",
 ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp"],
 ["listener state", "sockets"],
 [("stop protocol", "lib/listeners/tcp_listener.c, lib/tcp_server.cpp")],
 ["return of stop/destroy", "client connection state"])

prop("P12", "The TCP client stream yields exactly the bytes sent, then end of stream",
 "Reading from the TCP client stream yields exactly the byte sequence the peer sent, for every byte value and every way the network segments it, in any mix of single-byte and block reads, and reports end of stream exactly when the peer's data is used up. A reader blocked on the stream is woken in every schedule when data arrives, the peer closes, or the stream is stopped; stopping always returns. A start that fails, also for lack of a socket or a thread, reports it, leaves nothing open, and can be repeated.",
 ["schedules", "inputs", "fault_sequences"],
 "all segmentations of short byte strings, all byte values, all read-call mixes, and all interleavings of the receiving thread, the reading thread, peer close and stop",
 "no test uses the socket stream; the lost wake-up and the segmentation cases depend on timing",
 ["client_utils/tcp_client_stream.cpp", "client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp"],
 ["receive queue", "connection state"],
 [("receive queue hand-over", "client_utils/tcp_client_stream.cpp")],
 ["bytes returned by the stream"])

prop("P13", "Every tracepoint is reported with its own label, duration, thread and nesting",
 "For every properly nested sequence of tracepoint starts and stops on a timeline, each stop reports exactly the innermost open tracepoint, with the label and fields it was started with, its start time, a duration equal to stop time minus start time, and the identifier of the current thread; reports come in the order of the stops. This holds for any nesting depth, any mix of numeric, string and user-defined tracepoint kinds and for scoped tracepoints left on any path.",
 ["histories", "inputs"],
 "all start/stop sequences up to the stated depth over 5 tracepoint kinds of different sizes, deep nestings across every growth and shrink threshold, and per-thread use in all interleavings",
 "tests nest two or three tracepoints of one kind; stack growth, shrink and mixed sizes are not visited",
 ["lib/feature_callstack.c", "lib/stack.c", "lib/scoped_tracepoint.c", "lib/include/hawktracer/scoped_tracepoint.hpp"],
 ["open tracepoint stack"],
 [("stack push/pop", "lib/stack.c"), ("report on stop", "lib/feature_callstack.c")],
 ["delivered tracepoint events"])

prop("P14", "A string identifier is always explained by a mapping before it can be used",
 "Mapping a static or dynamic string returns an identifier, and by the time the call returns in any thread the timeline has already taken exactly one mapping event connecting that identifier to that string; asking again for the same string returns the same identifier without a new event, and different strings never share an identifier. Re-pushing the map emits every mapping known so far exactly once. This holds for every sequence of labels, including labels that collide in the hash, labels whose storage is reused afterwards, and for all interleavings when the feature is thread-safe.",
 ["histories", "schedules", "inputs"],
 "all call sequences up to the stated depth over static and dynamic labels (equal, colliding, bucket-sharing, empty, reused buffers) and all interleavings of 2-3 threads mapping equal, different and colliding labels",
 "tests use a handful of distinct labels on one thread",
 ["lib/feature_cached_string.c", "lib/hash_map.c", "lib/posix_mapped_tracepoint.c"],
 ["label maps"],
 [("find or insert label", "lib/feature_cached_string.c"), ("hash map", "lib/hash_map.c")],
 ["mapping events", "returned identifiers"])

prop("P15", "The task scheduler runs each task when due and never otherwise",
 "On each tick exactly the tasks whose due time has been reached run, once each; afterwards a task that asked to continue is due again one period later, counted from its previous due time or from its execution according to its mode, and a task that asked to stop or was removed never runs again. Task identifiers are unique for the life of the scheduler, removal reports whether the task existed - also when a task's callback removes tasks, its own included - and the suggested tick period is the greatest common divisor of the non-zero periods. Durations written with the HT_DUR macros are exact for every operand whose result fits into 64 bits.",
 ["histories"],
 "all sequences up to the stated depth over schedule (2 modes x periods 0,2,3 x stays/leaves), remove, tick and clock advance, with task counts crossing the growth and shrink thresholds",
 "tests run single tasks against the wall clock",
 ["lib/task_scheduler.c", "lib/include/internal/bag.h"],
 ["task list"],
 [("tick loop with removal", "lib/task_scheduler.c")],
 ["task callbacks", "returned values"])

prop("P16", "A timeline owns each enabled feature once and releases it exactly once",
 "Each feature kind registered gets its own slot, at most the advertised maximum of kinds can be registered, and registering a kind again fails without changing it, from any threads. Enabling a feature on a timeline succeeds only if the kind is registered and not already enabled there; lookup returns exactly the enabled instance of that timeline and nothing for kinds never enabled or never registered; a refused instance is released immediately and an accepted one exactly once when the timeline is destroyed.",
 ["histories", "schedules"],
 "all sequences up to the stated depth over register/enable/lookup/destroy on several kinds and two timelines including the full table, and all interleavings of 2-3 threads registering the same or different kinds",
 "tests never fill the table, never look up an unregistered kind and never register concurrently",
 ["lib/timeline.c", "lib/registry.c", "lib/include/hawktracer/feature.h"],
 ["feature table"],
 [("slot assignment", "lib/registry.c ht_registry_register_feature"), ("set/get feature", "lib/timeline.c")],
 ["lookup result", "feature destroy callback"])

prop("P17", "Exhaustion of memory or threads when creating is reported and breaks nothing",
 "If any single memory request fails, or all requests fail from some point on, during creation of timelines, listeners, features, schedulers or tasks, registration of listeners or classes, or string mapping, the call reports failure (or still succeeds completely) - likewise if the system refuses a TCP listener its socket, port or thread -, nothing already existing is damaged, and everything can afterwards be used and destroyed normally. After everything is destroyed, every block obtained from the user-supplied allocator has been returned to it exactly once; without one, repeating a whole life cycle leaves nothing more on the heap.",
 ["fault_sequences", "histories"],
 "for every scenario in the catalogue, failure of the k-th request for every k, both once and persistently, plus the fault-free allocator balance; every refusable system call of the TCP listener",
 "tests fail all requests of one call at once; each single failing request takes a different cleanup path",
 ["lib/timeline.c", "lib/timeline_listener.c", "lib/registry.c", "lib/listeners/file_dump_listener.c", "lib/feature_cached_string.c", "lib/feature_callstack.c", "lib/task_scheduler.c", "lib/hash_map.c", "lib/stack.c", "lib/alloc.c"],
 ["allocator state"],
 [("cleanup paths", "all create functions")],
 ["return values", "allocator balance"])

prop("P18", "The Chrome converter always writes valid JSON with exactly the traced spans",
 "For every trace the Chrome converter produces a document that is valid JSON and contains exactly one complete event per labelled trace event, in order, with the resolved label, start and duration in microseconds, thread and all further fields with their values. Labels and string fields may contain any characters, numeric labels are resolved through mapping events and map files and otherwise shown as numbers, and an empty trace gives an empty list.",
 ["inputs", "histories"],
 "all traces up to the stated length over an alphabet of event kinds, every character in labels and string fields, boundary values of every numeric field type, mapping before/after/missing",
 "no test covers the converter; quoting and value formatting depend on content",
 ["client/chrome_trace_converter.cpp", "client/converter.cpp", "client/tracepoint_map.cpp"],
 ["output document"],
 [("event formatting", "client/chrome_trace_converter.cpp"), ("label resolution", "client/converter.cpp, client/tracepoint_map.cpp")],
 ["output file"])

prop("P19", "The callgrind converter attributes every call and all time to the right caller",
 "For every properly nested set of spans of a thread, in any arrival order, the callgrind output lists for each calling context the correct number of calls, inclusive time and self time, so that time is conserved: self time plus the inclusive time of callees equals the inclusive time, and threads never mix. This includes spans that share start or end times and repeated or recursive labels.",
 ["inputs", "histories"],
 "all ordered forests up to the stated number of spans x label assignments from a small alphabet x duration patterns including zero-length gaps x threads",
 "tests check two fixed call graphs without ties",
 ["client/call_graph.cpp", "client/callgrind_converter.cpp"],
 ["call graph"],
 [("call graph construction", "client/call_graph.cpp"), ("output", "client/callgrind_converter.cpp")],
 ["output file"])

prop("P20", "Initialisation nests, and every initialised period produces decodable traces",
 "For every sequence of initialise and uninitialise calls the library is initialised exactly while there are more initialise than effective uninitialise calls, repeated initialisation changes nothing, and a surplus uninitialise is harmless. In every initialised period, including periods after a complete shutdown, timelines, features and listeners work and every dump starts with complete metadata so that its events can be decoded.",
 ["histories"],
 "all sequences up to the stated depth over initialise, uninitialise, use (create timeline with features, dump, decode) and register user class",
 "tests initialise once per process",
 ["lib/init.c", "lib/registry.c"],
 ["initialisation counter", "class registry"],
 [("init/deinit", "lib/init.c"), ("registry init/deinit", "lib/registry.c")],
 ["initialised query", "decoded dump"])

prop("P21", "Command-line options of library and tools are honoured for every argument list",
 "For every argument list, the library applies the value following its own options wherever they appear, reports but survives malformed, out-of-range or missing values leaving the setting unchanged, and ignores foreign arguments. The tools' option parser accepts exactly the argument lists made of registered options with their values and all mandatory options, and returns for every option the value given first, or the default.",
 ["inputs"],
 "all argument lists up to the stated length over an alphabet of valid, invalid, duplicate, prefix-like and value-looking tokens, against a reference parser",
 "tests check a few fixed argument lists",
 ["lib/command_line_parser.c", "client_utils/command_line_parser.cpp", "lib/global_timeline.cpp"],
 ["global timeline buffer size", "option map"],
 [("library parser", "lib/command_line_parser.c"), ("tool parser", "client_utils/command_line_parser.cpp")],
 ["buffer size", "parser results"])

prop("P22", "A damaged trace never crashes or hangs the reader",
 "For any damage to a trace (changed, removed, inserted or repeated bytes or whole events) the reader terminates on its own, without crashing, hanging or touching invalid memory, and every event it delivered before the damaged position equals the undamaged one.",
 ["inputs", "fault_sequences"],
 "every single-byte replacement by a set of characteristic values, every single-byte deletion, and every deletion, duplication or swap of whole events, at every position of a family of small traces",
 "tests only read well-formed streams",
 ["parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event_klass.cpp", "parser/event.cpp"],
 ["decoder state", "class register"],
 [("class lookup and field decoding", "parser/protocol_reader.cpp, parser/klass_register.cpp")],
 ["reader termination", "event callback"])

prop("P23", "A live client decodes exactly the events traced while it is connected",
 "With a TCP listener on a timeline, a client using the TCP stream and the protocol reader decodes, for every interleaving of the traced threads, the listener's threads and the client and for every fragmentation by the network, exactly the events pushed and flushed while it was connected: each once, with the pushed values, in the order of their thread, described before use, for clients that connect before, during or after other events, alone or several at once; a client that leaves disturbs neither the traced program nor the other clients; everything ends when the timeline is destroyed.",
 ["interleavings", "inputs"],
 "all interleavings up to the preemption bound of writer threads, listener threads and client threads of the real library and the real client library, joined by a simulated network that may split every transfer",
 "tests exercise the listener and the client stream separately over a loopback socket with one schedule each",
 ["lib/listeners/tcp_listener.cpp", "lib/listeners/tcp_server.cpp", "client_utils/tcp_client_stream.cpp", "parser/protocol_reader.cpp", "lib/timeline.c"],
 ["timeline buffer", "client list of the listener", "class descriptions stored for late clients", "client receive queue", "decoder state"],
 [("timeline delivers to the listener", "lib/timeline.c"), ("listener sends and accepts", "lib/listeners/tcp_listener.cpp, lib/listeners/tcp_server.cpp"), ("client receives and decodes", "client_utils/tcp_client_stream.cpp, parser/protocol_reader.cpp")],
 ["decoded events of each client", "termination of all threads"])

prop("P24", "The Python client hands over every event with its values",
 "The Python module's Client gives a program every event of the trace it was started on, once and in order, as (class name, dictionary) with exactly the fields of the event and their values: integers of every width with their sign, any text, through poll_event() as well as through the callback. Every sequence of calls on a client (start, poll_event, wait_for_eos, eos, stop, starting again, calls before start, bad arguments, dropping the client with unread events or during callbacks, callbacks that raise) either works or raises a Python exception; none crashes or blocks the interpreter, and reading events does not keep memory or references.",
 ["inputs", "histories"],
 "all boundary values of all field kinds next to each other, all texts of one byte and of a range of lengths, all event sequences and all call sequences up to a depth, in polling and callback mode, in the real interpreter",
 "the Python bindings have no tests of their own values, lifetimes or call orders",
 ["bindings/python3/client_context.cpp", "bindings/python3/hawktracer_client_python.cpp", "parser/protocol_reader.cpp", "client_utils/stream_factory.cpp"],
 ["queue of unread events", "reference to the callback", "reader thread and interpreter lock", "klasses that events refer to"],
 [("event converted to a dictionary", "bindings/python3/client_context.cpp"), ("calls on the client object", "bindings/python3/hawktracer_client_python.cpp")],
 ["tuples returned by poll_event and passed to callbacks", "exceptions", "memory kept", "references to the callback"])

prop("P25", "Tracing a Python function records every call and changes nothing else",
 "A Python function or other callable decorated with trace behaves as it does undecorated: it receives the same arguments (by position and by keyword, bound to its object when it is a method), returns the same value and raises the same exception, whether tracing is enabled, disabled, toggled during a call or not initialised, and whatever the callable's name is or if it has none. Every call of a decorated function made while tracing is enabled is recorded once, when it ends, as a call inside the traced calls that were active on its thread, under a label that maps to exactly that function's name and to no other; calls made while tracing or the decorator is disabled are not. Everything recorded is in the registered files when the program ends.",
 ["inputs", "histories"],
 "all trees of calls over ten kinds of callables with exceptions and toggling, all pairs of names, all sequences of the module's functions for every setting of the environment variable, pairs of threads, in the real interpreter up to its end",
 "the module's tests check six single calls, and that a name occurs somewhere in the file",
 ["bindings/python3/hawktracer_core_python.cpp", "lib/feature_callstack.c", "lib/global_timeline.cpp", "lib/listeners/file_dump_listener.c"],
 ["map of names to labels", "tracing and decorator switches", "call stack of the thread's timeline", "buffers not yet written"],
 [("call of a traced function", "bindings/python3/hawktracer_core_python.cpp"), ("end of the interpreter", "bindings/python3/hawktracer_core_python.cpp")],
 ["results and exceptions of the traced program", "decoded trace file"])
prop("P26", "CPU and memory probes report what the kernel says about the process",
 "ht_cpu_usage_get_percentage() returns the processor time the process used since the previous successful probe of the same context (or its creation), user and system, as a percentage of the elapsed time, for the process the context was created for, whatever the process is called and whatever the other values are; ht_memory_usage_get_usage() returns exactly the virtual, resident and shared sizes in bytes of that process in the outputs that were asked for. A process that cannot be read gives a negative value or an error and leaves the outputs alone, and the next successful probe is right again; contexts do not influence each other.",
 ["inputs", "histories", "faults"],
 "all command names, field values, tick rates and page sizes of an alphabet of special cases; all histories of probes up to a depth in which the process is missing or unreadable at any probe",
 "tests probe their own live process and check that the value is not negative",
 ["lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"],
 ["last probe and its processor time", "parsed /proc files"],
 [("stat is parsed", "lib/platform/linux/cpu_usage.c"), ("statm is parsed", "lib/platform/linux/memory_usage.c")],
 ["returned percentage", "returned sizes and error codes"])
prop("P27", "Allocation hooks see every call and leave the allocator as it is",
 "With the allocation hooks built in, every call of malloc, calloc, realloc and free calls exactly the hooks registered for it, the pre-hook before and the post-hook after, with the call's arguments, its result (NULL in pre-hooks) and the registered user data; the skip-hook variants call no hooks and can be used inside hooks; registering again replaces all hooks. The functions keep the meaning they have in C for every size, including zero, overflow and failure: contents are preserved or zeroed, blocks are aligned, a failed realloc leaves the block.",
 ["inputs", "histories"],
 "all subsets of the eight hooks with every operation, and all histories of operations up to a depth on two blocks, with and without hooks that allocate themselves",
 "tests register one hook at a time and make one call",
 ["lib/platform/linux/alloc_hooks.c", "lib/include/hawktracer/alloc_hooks.h"],
 ["registered hooks", "heap blocks"],
 [("hooked functions", "lib/platform/linux/alloc_hooks.c")],
 ["hook calls with arguments", "returned blocks and their contents"])

prop("P28", "Every tracepoint label in the sources gets one number, the same everywhere",
 "The label generator (tools/generate_tracepoint_labels.py) finds every tracepoint label of the C, C++ and Lua sources below the search directory, of any length and in any file whatever its other text, gives each label of a language exactly one number, never gives two labels the same number, numbers them from 1 without gaps, and writes exactly these pairs into each output that was asked for; the client resolves every number of the generated map to the label and its language.",
 ["inputs"],
 "every form of a source line x label x surrounding text, every sequence of labels over every set of files up to a length, every number of labels x subset of the outputs",
 "the tests look at one fixed source file",
 ["tools/generate_tracepoint_labels.py", "client/tracepoint_map.cpp"],
 ["set of labels seen", "next number across languages"],
 [("labels collected and numbered", "tools/generate_tracepoint_labels.py"), ("map loaded", "client/tracepoint_map.cpp")],
 ["generated header", "generated Lua file", "generated map", "labels resolved by the client"])

prop("P29", "The single-file library keeps every guarantee of the library",
 "The library generated as one C or one C++ file by tools/amalgamate.py is complete and self-contained, and a program built with it - in C or C++, with its POSIX threads, locks, clock and thread-local timelines, or configured without threads - gets the same behaviour as from the library: events delivered once and in order under every schedule, unique ids, shared listener sets, correct tracepoints, string mappings, file dumps and TCP streams, safe stopping, tasks run when due, nothing lost, leaked or used after its release.",
 ["schedules", "histories", "configurations"],
 "the scenarios of P01-P06, P10, P11, P13-P17, P20 and P23 on the generated C file, and parts of them on the C++ file and on a C file without threads",
 "no test links the generated file, whose C implementation of threads, locks, ids, clock and global timelines is compiled nowhere else",
 ["tools/amalgamate.py", "lib/tcp_server.cpp", "lib/mutex.cpp", "lib/event_id_provider.cpp", "lib/global_timeline.cpp", "lib/monotonic_clock.cpp", "lib/scoped_tracepoint.c", "lib/include/hawktracer/macros.h"],
 ["locks, threads, ids and thread-local timelines of the C implementation"],
 [("C implementations selected", "lib/mutex.cpp, lib/tcp_server.cpp, lib/global_timeline.cpp, lib/event_id_provider.cpp"), ("file generated", "tools/amalgamate.py")],
 ["notifications", "bytes received by TCP clients", "files", "returned values"])

prop("P30", "Decoded events own their values and reading gives everything back",
 "An event object owns the strings and parts it holds. A copy (constructed or assigned, also onto an event that already holds values, or onto itself) has the same values and shares nothing with the original; it stays valid and unchanged when the original, the reader, the stream and the class register are gone, in nested and in flat mode. Merging adds the fields the event does not have and keeps the values of those it has, and setting a field that is already set keeps its value; the time of an event is that of its timestamp field. When all events are gone, every string and part has been released exactly once: reading or converting a trace, whole or cut anywhere, leaves no memory allocated and no file open.",
 ["histories", "inputs"],
 "every history up to the stated length over {create, set each kind of field, copy, assign, move, merge, drop} on two and three events; every trace of a family of classes (inheritance, fields of one name in base and derived class, struct fields), whole and cut at every byte, in both modes, with listeners that keep copies",
 "tests build one or two events and drop them; a value that leaks, is shared by a copy or refers to a class that is gone looks right in a test",
 ["parser/event.cpp", "parser/include/hawktracer/parser/event.hpp", "parser/protocol_reader.cpp", "parser/klass_register.cpp", "client/converter.cpp", "client/callgrind_converter.cpp"],
 ["values of an event", "classes an event refers to", "partly read event"],
 [("ownership of values", "parser/event.cpp Value, merge, set_value"), ("values read before an error", "parser/protocol_reader.cpp _read_event, _read_struct")],
 ["values of events and their copies", "allocated bytes", "open files"])

prop("P32", "A source description leads to the file or the address it names, or nowhere",
 "The description of a data source given to the clients (and to the Python client) names an existing file, also one whose name looks like an address, or an IPv4 address with or without a port; without one it means port 8765. A file is read from its first byte to its last, whatever bytes it holds and in whatever pieces it is asked for, and again from the first byte when the stream is started again; then it ends, and a file is never taken for a continuous stream. For an address, nothing is contacted before the stream is started, and then exactly that address and port, once. A description that is neither is refused, and no description ever leads to an address or a port other than the one written in it: numbers out of range are not cut to size.",
 ["inputs"],
 "every address over six to eight values per octet and ten ports, every port up to 69999 (699999), every value up to 1099 in every octet, every string of up to 7 (8) of the characters of addresses with and without the beginning of an address, eleven file names x eight sizes x three contents x three read patterns x three ways to name the file",
 "tests look at whether a handful of descriptions is accepted, not where they lead",
 ["client_utils/stream_factory.cpp", "client_utils/tcp_client_stream.cpp", "parser/file_stream.cpp"],
 ["accepted descriptions", "address and port contacted", "bytes read from a file"],
 [("description", "client_utils/stream_factory.cpp make_stream_from_string"), ("file", "parser/file_stream.cpp read_data, read_byte"), ("connection", "client_utils/tcp_client_stream.cpp start")],
 ["make_stream_from_string", "Stream start, read_byte, read_data", "the --source option of the clients"])
prop("P33", "The debug listener prints every event with all its values and counts them",
 "A DebugEventListener prints each event it is given when it is given it, completely and once: the class name, then every field of the event with its type name, its name and its value, the parts of a nested event below their field. Integers of every width are printed as decimal numbers with their sign, strings as they are, pointers as addresses. This holds for every sequence of events, read from a trace in nested or flat mode and in either byte order, and any nesting depth. Its statistics list exactly the classes it has been given events of, each with the number of these events, and their sum, at any moment, for each listener on its own.",
 ["inputs", "histories"],
 "every 8-bit value, 16-bit values over eight (all) high bytes, the neighbours of every power of two in 32 and 64 bits, every string of up to 3 (4) of eight kinds of characters alone and after 5000 (70000) others; every sequence of up to 4 (5) events of six classes x mode x byte order; every history of up to 6 (8) events and statistics of two listeners; nesting to depth 12 (39)",
 "no test uses the debug listener",
 ["parser/debug_event_listener.cpp", "parser/include/hawktracer/parser/debug_event_listener.hpp"],
 ["counts per class", "values printed"],
 [("values", "parser/debug_event_listener.cpp print_field_value, print_event"), ("counts", "parser/debug_event_listener.cpp print_statistics")],
 ["standard output", "DebugEventListener::print_statistics"])
prop("P31", "The class register tells exactly the classes and fields announced so far",
 "At every moment while a trace is read, and afterwards, the class register of the reader knows exactly the well-known classes and those announced so far, by identifier and by name, each with the fields announced so far, in order, once each, with their names, type names, kinds and sizes, and with the class of a struct field when it was announced before. Searching a class for a field finds its own fields, and with inherited ones also those of the struct fields whose class is known, and nothing else. This holds for every order of announcements: derived classes before their bases, types nobody announces, two classes of one name, announcements that are repeated. A description that makes no sense (a kind or size that does not exist, a field of an unknown class, a class that contains itself) leaves the classes as they were. Other threads can ask while the reader is running: answers only grow, and objects handed out stay valid, also when the register is gone.",
 ["inputs", "histories", "schedules"],
 "every sequence of announcements up to the stated length over three classes and fields of seven types, every kind x size of a field, chains of up to 40 (120) classes announced from either end, all questions after every announcement; all interleavings (up to a preemption bound) of the reading thread with one and two asking threads",
 "tests announce one class, its base first, and ask when reading is over; a search through a base that is not known yet, or a class seen half-announced by another thread, never happens there",
 ["parser/klass_register.cpp", "parser/event_klass.cpp", "parser/include/hawktracer/parser/klass_register.hpp", "parser/include/hawktracer/parser/event_klass.hpp"],
 ["known classes", "fields of a class"],
 [("announcements", "parser/klass_register.cpp handle_register_events"), ("search through struct fields", "parser/event_klass.cpp _get_field")],
 ["KlassRegister and EventKlass queries"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

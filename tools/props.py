PROPS = []


def P(id, title, statement, over, forall, tests, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, tests=tests, files=files, mech=mech, **kw))


P("C01", "Every event pushed to a timeline reaches each listener once, in order",
  "For every timeline configuration (capacity, serialization, thread safety) and every sequence of pushes and flushes, the bytes a registered listener receives after the final flush are exactly the concatenation of the pushed events, each complete, unmodified, once, and in push order; buffering never splits an event between two notifications. With a thread-safe timeline this holds for events pushed by several threads at once (each thread's events in its order, no event torn or lost).",
  ["inputs", "schedules", "histories"], "all event values, event sizes, capacities including smaller than one event, push/flush sequences, thread interleavings",
  "Tests push a handful of fixed events with one capacity; buffer-boundary coincidences and interleavings are not sampled.",
  ["lib/timeline.c", "lib/timeline_listener.c", "lib/include/hawktracer/timeline.h"],
  [("push with flush when the event does not fit", "lib/timeline.c:ht_timeline_push_event"), ("flush", "lib/timeline.c:ht_timeline_flush")], observe=["listener callback"])
P("C02", "Serialized events have the documented packed layout",
  "For every event class and all field values, the serialized form of an event is its class id, timestamp and id followed by every declared field in declaration order (parents first), integers little-endian in their declared width without padding, strings as their bytes plus a terminating zero; the reported serialized size equals the number of bytes written, and no byte outside that range is touched.",
  ["inputs", "programs"], "all event classes incl. user-declared ones with struct fields, all field values, all strings incl. NULL",
  "Tests compare a few literal events.", ["lib/include/hawktracer/event_macros_impl.h", "lib/include/hawktracer/events.h", "lib/events.c"],
  [("generated serializers and size functions", "lib/include/hawktracer/event_macros_impl.h")])
P("C03", "A listener's output buffer emits the input bytes unchanged and in order",
  "For every buffer size (including zero and sizes smaller than one record) and every sequence of writes and flushes, the concatenation of the chunks handed to the output is exactly the concatenation of the data written, with nothing lost, duplicated, reordered or read/written outside the buffer.",
  ["inputs", "histories"], "all buffer sizes, chunk sizes, contents, flush points, raw and serialized events", "Tests use one buffer size and a few writes.",
  ["lib/listener_buffer.c", "lib/include/internal/listener_buffer.h"], [("buffer fill, flush and bypass", "lib/listener_buffer.c")])
P("C04", "A trace file contains metadata first, then exactly the delivered events",
  "A file listener writes the stream metadata followed by the serialized form of exactly the events its timeline delivered, in order; after a flush with stream flush everything delivered so far is in the file, after stop or destruction everything is, the stream is closed exactly once, and events delivered after stop are ignored. Concurrent delivery, flush and stop neither tear records nor touch a closed stream.",
  ["inputs", "histories", "schedules"], "all timeline capacities, listener buffer sizes, event values, sequences of push/flush/stop, raw or serialized timelines, interleavings", "Tests write one small trace.",
  ["lib/listeners/file_dump_listener.c", "lib/listener_buffer.c", "lib/registry.c"], [("mutex-protected buffered writer", "lib/listeners/file_dump_listener.c")])
P("C05", "Stream metadata describes every registered class completely",
  "The metadata pushed to a listener starts with the endianness record and then describes every registered class and every field of it exactly once, in registration order, with its name, type name, size, data type and signedness, for any number of classes and any name lengths (a class with its fields up to 4 KiB), identically for raw and serialized delivery.",
  ["inputs", "programs"], "all sets of classes, numbers of fields, name lengths, field types", "Tests look at a few classes; crossing of the internal buffer boundary is not sampled.",
  ["lib/registry.c"], [("metadata buffering", "lib/registry.c:ht_registry_push_all_klass_info_events")])
P("C06", "Event ids are unique and increase within a timeline",
  "Ids handed out by one id provider are distinct and consecutive from its start value, whatever the number of threads calling it; every event pushed through the helper macros to timelines sharing a provider gets its own id.",
  ["schedules", "inputs"], "all interleavings of callers", "Tests call it sequentially.", ["lib/event_id_provider.cpp", "lib/timeline.c"], [("atomic counter", "lib/event_id_provider.cpp")])
P("C07", "Thread ids are unique per thread and stable",
  "Within the process every thread gets its own thread id, it keeps the same id for its lifetime, and no two threads ever share one.",
  ["schedules"], "all interleavings of first calls", "Tests do not race first calls.", ["lib/thread.c"], [("thread-local id from a global counter", "lib/thread.c")])
P("C08", "Call stack start/stop pair up last-in-first-out and report exact spans",
  "For every properly nested sequence of span starts and stops (any mix of integer, string and custom events, any depth) each stop emits exactly one event for the innermost open span, with that span's label, start timestamp, id, thread id and a duration equal to the difference of the two clock readings; nothing else is emitted.",
  ["inputs", "histories"], "all nesting patterns and depths, labels, clock readings", "Tests cover depth two with fixed labels.",
  ["lib/feature_callstack.c", "lib/stack.c"], [("stack of open events", "lib/feature_callstack.c")])
P("C09", "Containers (bag, hash map, stack) behave as their abstract models",
  "For every sequence of operations a bag holds exactly the values added and not removed, a stack returns pushed byte blocks last-in-first-out unchanged, and a hash map maps each key to the value inserted for it and reports the previous one; growing and shrinking never loses, duplicates or corrupts elements or touches memory outside them.",
  ["inputs", "histories"], "all operation sequences, values, keys, capacities", "Tests use short fixed sequences.", ["lib/bag.c", "lib/hash_map.c", "lib/stack.c"], [("resizing", "lib/bag.c, lib/stack.c")])
P("C10", "A failed allocation is reported, leaks nothing and corrupts nothing",
  "After successful initialization, whichever single memory allocation fails, the operation that needed it reports the failure (or drops only its own event), the process does not crash, everything stays usable and consistent afterwards (starts and stops stay paired), and after tear-down no memory remains allocated.",
  ["fault_sequences"], "every allocation failing at every point of the scenarios", "Tests do not inject allocation failures except in isolated units.",
  ["lib/timeline.c", "lib/feature_callstack.c", "lib/feature_cached_string.c", "lib/hash_map.c", "lib/bag.c", "lib/stack.c", "lib/task_scheduler.c", "lib/registry.c", "lib/listeners/file_dump_listener.c"], [("error paths", "all constructors")])
P("C11", "Scheduled tasks run when due, never early, and never after removal",
  "For every sequence of scheduling, removing and ticking, a tick runs exactly the tasks whose period has elapsed since their reference time, each at most once per tick, never a removed or finished task; the next run is based on the configured mode (start or end of the previous run), and a task is removed when its callback says so.",
  ["inputs", "histories"], "all periods, clock advances, operation sequences, callback durations", "Tests use a few fixed periods.", ["lib/task_scheduler.c"], [("tick", "lib/task_scheduler.c:ht_task_scheduler_tick")])
P("C12", "Command line parsing: recognised options take effect, the rest is left alone",
  "Parsing the library's command line sets the registry size exactly to the (in-range, decimal) value given, reports help or errors for malformed, missing or out-of-range values, ignores arguments of others, never reads outside the argument array and never modifies it.",
  ["inputs"], "all argument vectors", "Tests sample a few vectors.", ["lib/command_line_parser.c"], [("parser", "lib/command_line_parser.c")])
P("C13", "Initialization nests and can be repeated",
  "For every sequence of init and deinit calls the library is usable exactly while inits outnumber deinits; classes stay registered with the same ids across nested and repeated initialization, and after the last deinit everything the library allocated is released.",
  ["histories"], "all sequences of init, deinit and use", "Tests initialize once.", ["lib/init.c", "lib/registry.c"], [("init counter", "lib/init.c")])
P("C14", "Writing a trace and reading it back returns the same events",
  "Every stream the library produces (metadata, then events of registered classes made of integers, strings and embedded or inherited events, with any field values) is parsed back by the client-side reader into the same classes and the same sequence of events with the same field names, types and values, and nothing else. (Pointer and floating point fields are not supported by the reader.)",
  ["inputs", "programs"], "all event values, user-declared classes, stream contents", "Tests parse hand-written byte arrays.", ["parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event.cpp", "lib/registry.c", "lib/include/hawktracer/event_macros_impl.h"], [("reader", "parser/protocol_reader.cpp"), ("writer", "lib/include/hawktracer/event_macros_impl.h")])
P("C15", "Malformed or truncated input never crashes or hangs the reader",
  "For every byte stream, including truncated, corrupted or hostile ones, the reader terminates, reports only complete events of known classes to its listener and nothing after a class description that makes no sense, and can be started again; it never crashes, leaks, throws out of its thread or accesses memory outside its buffers.",
  ["inputs", "fault_sequences"], "all byte streams", "Tests feed well-formed streams.", ["parser/protocol_reader.cpp", "parser/klass_register.cpp", "parser/event.cpp", "parser/file_stream.cpp"], [("bounds and class checks", "parser/protocol_reader.cpp")])
P("C16", "The class register mirrors the described classes",
  "After any sequence of class and field descriptions the register holds exactly the classes described, each under the id and name of its first description, with its fields in the order described; descriptions which make no sense (unknown class, repeated id or name, a class containing itself) change nothing; lookups by id and by name agree, unknown ones yield nothing, and the core classes are known from the start. It can be read from one thread while another one adds to it.",
  ["inputs", "histories", "schedules"], "all description sequences", "Tests add one or two classes.", ["parser/klass_register.cpp", "parser/event_klass.cpp"], [("register", "parser/klass_register.cpp")])
P("C17", "Byte-order conversion restores values for every type and value",
  "Values read from a stream of the opposite byte order are converted to their original value for every integer width, signedness and value, in event headers, fields and embedded events; values of the same byte order are left unchanged.",
  ["inputs"], "all values of all widths, both byte orders", "Tests use a few constants.", ["parser/include/hawktracer/parser/endianness_convert.hpp", "parser/protocol_reader.cpp"], [("endianness converter", "parser/include/hawktracer/parser/endianness_convert.hpp")])
P("C18", "The Chrome trace output is valid JSON describing exactly the received spans",
  "For every sequence of received events, the file written by the Chrome-tracing converter is well-formed JSON whose trace events are exactly the received call-stack spans, in order, each with its label (resolved through the tracepoint map, escaped), thread id, start and duration in microseconds, and its other fields as arguments.",
  ["inputs", "histories"], "all labels and values, numbers of events", "Tests check one literal output.", ["client/chrome_trace_converter.cpp", "client/tracepoint_map.cpp"], [("JSON writer", "client/chrome_trace_converter.cpp")])
P("C19", "Call graph: nesting and costs follow from the spans",
  "For every set of properly nested spans, whatever the order of arrival, the callgrind output (one file per thread) puts each span under the smallest span containing it (among equal spans, the one reported last is the caller), merges calls with the same label under the same caller, and accounts self cost and inclusive cost such that a call's self cost plus its callees' inclusive cost is the sum of its spans' durations.",
  ["inputs", "histories"], "all sets of properly nested spans incl. equal timestamps", "Tests use a few spans.", ["client/call_graph.cpp", "client/callgrind_converter.cpp"], [("graph construction", "client/call_graph.cpp"), ("costs", "client/callgrind_converter.cpp")])
P("C20", "Label ids resolve to the last label mapped to them",
  "A tracepoint map resolves a span's label to the text it carries or to the label announced last for its id in the stream or in the given map files (lines: category, quoted label, id), an unknown id to its number, for every file content, number of files and mapping order; unreadable or malformed files are skipped or end at the malformed line without a crash.",
  ["inputs", "histories"], "all mapping sequences and file contents", "Tests cover a few.", ["client/tracepoint_map.cpp"], [("map", "client/tracepoint_map.cpp")])
P("C21", "The client's command line parser accepts exactly the declared options",
  "For every argument vector and set of declared options the client's parser succeeds exactly when each argument is a declared option with its value or a declared flag and all mandatory ones are there; then each option has the value given first; the help text lists every declared option; it never crashes or reads outside the vector.",
  ["inputs"], "all argument vectors", "Tests sample a few.", ["client_utils/command_line_parser.cpp"], [("parser", "client_utils/command_line_parser.cpp")])
P("C22", "Stream source strings are classified correctly",
  "For every source description: an existing file is opened as a file; otherwise an IPv4-like address (four numbers) is connected to, at the given port when that is a valid number up to 65535 and at the default port otherwise; anything else yields no stream; and it never crashes.",
  ["inputs"], "all strings", "Tests sample a few.", ["client_utils/stream_factory.cpp"], [("factory", "client_utils/stream_factory.cpp")])
P("C23", "A TCP listener streams metadata then events to every client and survives faults",
  "Each connected client receives the metadata first and then the complete records delivered afterwards, in order, none missing; clients that disconnect, sends that are partial, interrupted or fail, servers that cannot be set up, stop (repeated, too) and destruction at any moment neither crash the process, block forever (provided clients read), give anyone part of a record, nor leak memory or sockets.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of connect, deliver, disconnect, stop", "Tests connect one client.", ["lib/listeners/tcp_listener.c", "lib/tcp_server.cpp", "lib/listener_buffer.c"], [("client list under mutex", "lib/tcp_server.cpp"), ("pushing, joining and stopping", "lib/listeners/tcp_listener.c")], observe=["bytes received by each client", "socket calls"])
P("C24", "Allocation hooks report every heap operation and leave its result unchanged",
  "With the allocation hooks library every malloc, calloc, realloc and free behaves as without it, and calls each registered hook exactly once, the one before and the one after the operation, with its arguments and result; operations done inside hooks call no hooks, so hooks that allocate neither recurse nor deadlock; unregistered hooks are not called.",
  ["inputs", "histories"], "all sizes, results and nesting", "Tests do not cover hooks.", ["lib/platform/linux/alloc_hooks.c", "lib/include/hawktracer/alloc_hooks.h"], [("wrappers", "lib/platform/linux/alloc_hooks.c")])
P("C25", "CPU and memory usage are parsed correctly from the system files",
  "For every content of the system's process status files the reported CPU usage is the process' share of the time elapsed between two readings, in percent, and the reported memory figures are those in the file, in bytes; missing, short, unreadable or malformed files yield an error or zero instead of a crash.",
  ["inputs"], "all file contents", "Tests read the real files once.", ["lib/platform/linux/cpu_usage.c", "lib/platform/linux/memory_usage.c"], [("parsers", "lib/platform/linux")])
P("C26", "Clock and duration macros are exact in 64 bits",
  "The monotonic clock returns its nanosecond reading without truncation and never goes backwards when the system clock does not, and the duration conversion macros return the exact number of nanoseconds (microseconds, ...) for every argument expression whose result fits 64 bits.",
  ["inputs"], "all arguments and clock readings", "Tests use small constants.", ["lib/monotonic_clock.cpp", "lib/include/hawktracer/duration_conversion.h"], [("conversion", "lib/include/hawktracer/duration_conversion.h")])
P("C27", "Every thread has its own global timeline feeding the shared listeners",
  "Each thread sees one global timeline of its own for its whole life; listeners registered on any of them receive the events of all threads, complete and in each thread's order, callstack spans and cached labels alike, never more than the configured buffer size late, including those still buffered when the thread ends.",
  ["schedules"], "all interleavings of threads creating, using and ending", "Tests use one thread.", ["lib/global_timeline.cpp"], [("thread-local timeline", "lib/global_timeline.cpp")])
P("C28", "A custom allocator serves all of the library's memory",
  "With a custom allocator installed, every block the library's timelines, features, listeners and registries use comes from it and is returned to it exactly once, with the user data given, and it is never asked to release a null pointer nor, since size 0 means releasing, for a block of size 0.",
  ["histories", "configurations"], "all uses of the library", "Tests only check the setter.", ["lib/alloc.c"], [("allocator indirection", "lib/alloc.c")])
P("C29", "Timeline features: own slot, correct owner, safe lookup",
  "Every feature class gets its own id once, a timeline returns exactly the feature object set for the class and none for others or for unregistered classes, replacing is refused or handled as reported by the return code, and destroying the timeline destroys each of its features exactly once.",
  ["histories"], "all sequences of registration, set, get", "Tests use one feature.", ["lib/timeline.c", "lib/include/internal/feature.h"], [("feature table", "lib/timeline.c")])
P("C30", "Timelines with the same name share listeners; others do not",
  "A listener registered on any timeline of a name receives the events of all timelines of that name and of no other, whatever the order of creation, registration, unregistration and destruction, including timelines of one name created concurrently by several threads; after unregistering all listeners none is called.",
  ["histories", "schedules"], "all operation sequences and interleavings of creation", "Tests use one or two timelines.", ["lib/timeline_listener.c", "lib/timeline.c"], [("named containers", "lib/timeline_listener.c")])
P("C31", "Cached labels keep one identifier each and are announced exactly once",
  "Each label added to a timeline gets an identifier that stays the same for that label and differs from other labels' identifiers; the first addition emits exactly one mapping event with identifier and text, later ones none, also with several threads; pushing the map emits every known label exactly once.",
  ["inputs", "histories", "schedules"], "all labels, operation sequences, interleavings", "Tests use one label.", ["lib/feature_cached_string.c", "lib/hash_map.c"], [("hash maps under lock", "lib/feature_cached_string.c")])
P("C32", "A scoped tracepoint records one span per execution of its scope",
  "However a scope holding a scoped tracepoint is left (end, return, break, continue, goto, exception), exactly one span is recorded for it, when it is left, innermost first, with its label; static and dynamic label variants additionally announce the label before its first span.",
  ["programs", "inputs"], "all exits from nested scopes", "Tests leave scopes normally.", ["lib/include/hawktracer/scoped_tracepoint.h", "lib/include/hawktracer/scoped_tracepoint.hpp", "lib/include/hawktracer/string_scoped_tracepoint.h", "lib/scoped_tracepoint.c", "lib/posix_mapped_tracepoint.c"], [("destructor / cleanup attribute", "lib/include/hawktracer/scoped_tracepoint.hpp")])
P("C33", "The label generator gives each label one identifier, alike in all outputs",
  "For every set of source files the label generator assigns each distinct marked label exactly one identifier, identifiers are distinct across languages and consecutive from 1, and header, Lua file and map file agree on them, so a client resolves each recorded identifier to its label.",
  ["inputs", "programs"], "all source texts and file sets", "Its tests use one fixed file set.", ["tools/generate_tracepoint_labels.py"], [("scanner and writers", "tools/generate_tracepoint_labels.py")])
P("C34", "A TCP reader receives every byte sent and always completes",
  "A reader of a TCP stream gets exactly the bytes the server sent, in order and whatever the packet sizes, then the end of the stream, once; it completes and reports so once the connection ends, and can be stopped at any moment, also while the server is idle, without hanging, losing a wake-up or using a closed socket; it can then be started again.",
  ["schedules", "inputs", "histories", "fault_sequences"], "all interleavings of receiving, reading, disconnecting and stopping; all byte values and packet sizes", "Tests use one packet sequence and no stop in between.",
  ["client_utils/tcp_client_stream.cpp", "parser/protocol_reader.cpp"], [("receiving thread and queue", "client_utils/tcp_client_stream.cpp"), ("reading thread and completion", "parser/protocol_reader.cpp")])
P("C35", "The Python bindings record calls and deliver events faithfully",
  "A function traced from Python behaves exactly as untraced: same arguments, result and error. Each call made while tracing is enabled is recorded with its name, announced once under an identifier of its own, and reaches the trace file before the interpreter ends. A Python client gets each event of its stream once, in order, with the recorded class name, integers of every width and sign, and strings, by polling or callback; no use of it, from any thread and at any moment, hangs, crashes, enters the interpreter without its lock or unbalances a reference count.",
  ["inputs", "schedules", "histories"], "all names, values, call sequences and interleavings of reader, callback and Python threads",
  "Tests call four traced functions and read no values through the client.", ["bindings/python3"],
  [("traced call and label table", "bindings/python3/hawktracer_core_python.cpp"), ("events to Python objects, callback and queue", "bindings/python3/client_context.cpp"), ("client object", "bindings/python3/hawktracer_client_python.cpp")])
P("C36", "The client program writes the requested conversion to the requested file",
  "For every recording, complete or broken off, every choice of format, output path (date placeholders and paths of any length included) and map files: the client program succeeds exactly when its arguments are complete and known and the source can be read, and then the file named (with the date filled in; one file per thread for call profiles) holds the conversion of exactly the recorded spans, labels resolved by the stream and the map files; otherwise it reports failure and, unless it only then finds the source unreadable, writes nothing.",
  ["inputs"], "all recordings, formats, output paths and map files", "No test runs the client program.",
  ["client/main.cpp"], [("argument handling and output path", "client/main.cpp"), ("reader to converter", "client/main.cpp")])

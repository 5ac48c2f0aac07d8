"""Which harnesses decide which property, and within what bounds."""


import sysconfig
PYINC = ["-I" + sysconfig.get_paths()["include"]]


class Job:
    def __init__(self, name, harness, comps=("lib",), defs=None, tdefs=None, threads=False, preempt=2, tpreempt=3, time=200, ttime=1500,
                 witness=8, steps=3000000, mem=3500, opts=(), reach=(), known=None, bounds="", shadow=False, cflags=(), extra_src=(), drop=(), thorough_only=False, eopt=("-O0", "-Xclang", "-disable-O0-optnone")):
        self.name, self.harness, self.comps = name, harness, comps
        self.defs, self.tdefs, self.threads = dict(defs or {}), dict(tdefs or {}), threads
        self.preempt, self.tpreempt, self.time, self.ttime = preempt, tpreempt, time, ttime
        self.witness, self.steps, self.mem, self.opts = witness, steps, mem, list(opts)
        self.reach, self.known, self.bounds, self.shadow = reach, known, bounds, shadow
        self.eopt = list(eopt)
        self.cflags, self.extra_src, self.drop, self.thorough_only = list(cflags), extra_src, drop, thorough_only


COMMON_ASSUMPTIONS = [
    "x86-64 Linux, clang 18 front end; the library is built from /repo's sources with the project's default feature set",
    "memory model: sequential consistency at the granularity of source-level accesses",
    "heap: fresh memory has arbitrary fixed content (0xBE); freed memory is never reused (use-after-free is detected instead)",
    "libc/libstdc++ functions outside the repository behave as the models in /verif/rt; every witness checked natively cross-checks them",
]
ASSUME = {}
JOBS = {}


def prop(pid, jobs, assume=()):
    JOBS[pid] = jobs
    ASSUME[pid] = list(assume)


# decided by CrossHair (Python code, symbolic execution over Z3) instead of the engine: py/run_labels.py
EXTERNAL = {
    "C33": "2..4 marked lines (labels of 1..2, one of 1..8, characters over the whole identifier alphabet; equal or not as the solver chooses) and arbitrary printable lines of 0..2 characters, spread over up to 3 files of 6 names in nested directories; every choice of header, Lua file and map; separate search directories; 0..2 blanks around a marker. Default patterns; files are text",
}


def jobs(pid):
    return JOBS[pid]


def assumptions(pid):
    return COMMON_ASSUMPTIONS + ASSUME[pid]


prop("C02", [
    Job("format", "c02_format.c", bounds="every core class and 4 user-declared classes; all field values; strings NULL or 0..3 bytes", defs={"SLEN": 3}, tdefs={"SLEN": 8}),
])
prop("C03", [
    Job("bytes", "c03_buffer.c", defs={"MODE": 0, "MAXBUF": 6, "CHUNKS": 3, "CLEN": 7}, tdefs={"MAXBUF": 12, "CHUNKS": 4, "CLEN": 14}, bounds="buffer size 0..MAXBUF, CHUNKS chunks of 0..CLEN arbitrary bytes, explicit flush anywhere"),
])
prop("C01", [
    Job("ser_%d" % lo, "c01_delivery.c", defs={"MODE": 1, "OPS": 3, "CAPLO": lo, "CAPHI": lo + 43}, tdefs={"OPS": 4}, bounds="serialized; capacity CAPLO..CAPHI; OPS operations out of 5 event shapes (20..129 bytes) and flush; all field values") for lo in (0, 44, 88)
] + [
    Job("raw_%d" % lo, "c01_delivery.c", defs={"MODE": 0, "OPS": 3, "CAPLO": lo, "CAPHI": lo + 43}, tdefs={"OPS": 4}, bounds="raw; as above") for lo in (0, 44, 88)
])
JOBS["C01"] += [
    Job("mt_ser", "c01_mt.c", threads=True, defs={"MODE": 1, "NT": 2, "PUSHES": 2}, bounds="2 threads x 2 pushes on a thread-safe timeline, capacities 0/40/48/100/1000, all schedules with at most the stated preemptions"),
    Job("mt_raw", "c01_mt.c", threads=True, defs={"MODE": 0, "NT": 2, "PUSHES": 2, "WITH_FLUSH": 1}, bounds="as mt_ser, raw events, one thread also flushes"),
]
JOBS["C03"] += [Job("events_%d" % lo, "c03_events.c", defs={"LO": lo, "HI": hi, "EVENTS": 2}, tdefs={"EVENTS": 3}, bounds="buffer size LO..HI, EVENTS events of 7 shapes (20..329 bytes), delivered in any grouping") for lo, hi in ((0, 60), (61, 130), (320, 350))]
prop("C05", [
    Job("fields", "c05_meta.c", defs={"CLASSES": 1, "SYMFIELDS": 1}, tdefs={"CLASSES": 2}, bounds="core classes + CLASSES+1 user classes with 0..3 fields of every data type/signedness/size; serialized and raw"),
    Job("many", "c05_meta.c", defs={"CLASSES": 20, "SYMFIELDS": 0}, tdefs={"CLASSES": 40}, bounds="CLASSES+1 user classes, up to 25 fields each, first name 1..90 bytes long: metadata crosses its internal buffer at every alignment; serialized and raw"),
    Job("ids", "c05_meta.c", defs={"CLASSES": 1, "SYMFIELDS": 0, "FILL": 270, "MAXX": 300}, bounds="more than 256 classes; serialized and raw"),
    Job("mt_reg", "c05_mt.c", threads=True, defs={"PUSH": 0}, bounds="2 threads register the same 2 classes, in either order; all schedules with at most the stated preemptions"),
    Job("mt_push", "c05_mt.c", threads=True, defs={"PUSH": 1, "NK": 1}, tdefs={"NK": 2}, bounds="one thread registers NK classes while another pushes the metadata to a listener", preempt=1, tpreempt=2),
])
prop("C04", [
    Job("file_ser", "c04_file.c", defs={"SERIALIZE": 1, "OPS": 2}, tdefs={"OPS": 4}, bounds="timeline capacity 0/100, listener buffer 0/1/37/100/4096/20000, OPS operations of 6 kinds (2 event shapes with all field values, timeline flush, listener flush with and without stream flush incl. failing, stop)"),
    Job("file_raw", "c04_file.c", defs={"SERIALIZE": 0, "OPS": 2}, tdefs={"OPS": 4}, bounds="as file_ser, raw events"),
    Job("mt", "c04_mt.c", threads=True, defs={"PUSHES": 1}, tdefs={"PUSHES": 2}, bounds="2 threads delivering PUSHES records while a third flushes or stops; listener buffer 0/5/8/12/64; all schedules within the preemption bound"),
])
prop("C06", [Job("ids", "c06_ids.c", threads=True, defs={"NT": 2, "CALLS": 2}, tdefs={"NT": 3}, bounds="NT threads x CALLS ids from a new provider, the default provider, or through timelines; all schedules within the preemption bound")])
prop("C07", [Job("tid", "c07_tid.c", threads=True, defs={"NT": 3}, bounds="NT threads and the main thread, any start order, one possibly started after the others ended; all schedules within the preemption bound", preempt=3, tpreempt=5)])
prop("C08", [
    Job("ops", "c08_callstack.c", defs={"OPS": 5, "DEEP": 0}, tdefs={"OPS": 7}, bounds="OPS start/stop operations of 4 kinds, timeline capacity 0/100/4000; all labels, arbitrary non-decreasing clock"),
    Job("deep", "c08_callstack.c", defs={"OPS": 2, "DEEP": 140}, tdefs={"DEEP": 300, "OPS": 3}, bounds="DEEP nested spans (internal stack grows and shrinks), then OPS operations"),
])
prop("C11", [
    Job("sched", "c11_sched.c", defs={"OPS": 4}, tdefs={"OPS": 5}, bounds="OPS operations (schedule, remove, wait+tick) plus a final tick; periods and waits 0..255, both modes, callbacks that take time and keep or drop their task"),
    Job("cb_times", "c11_cb.c", defs={"NT": 2, "TICKS": 2, "SYMT": 1, "MODE": 2}, tdefs={"NT": 3}, bounds="NT tasks whose callbacks remove any task, their own included, or schedule another one; TICKS ticks; periods and waits 0..255, both modes"),
    Job("cb_remove", "c11_cb.c", defs={"NT": 3, "TICKS": 1, "SYMT": 0, "MODE": 0}, tdefs={"MODE": 2}, bounds="as cb_times; periods and waits 0 or 5"),
    Job("cb_ticks", "c11_cb.c", defs={"NT": 2, "TICKS": 3, "SYMT": 0, "MODE": 1}, tdefs={"MODE": 2}, bounds="as cb_times; periods and waits 0 or 5"),
    Job("many", "c11_many.c", defs={"NTASK": 18}, tdefs={"NTASK": 40}, bounds="NTASK tasks with 2*NTASK removal patterns; gcd of 3 periods out of 0..12"),
])
prop("C09", [Job("bag_%s" % n, "c09_bag.c", defs={"PART": i, "OPS": 4, "GROW": 0}, tdefs={"OPS": 6}, bounds="initial capacity 1..4, OPS operations (add any value, remove any element, clear)") for i, n in enumerate(("uint64", "ptr", "int"))] + [
    Job("bag_grow", "c09_bag.c", defs={"PART": 1, "OPS": 3, "GROW": 33}, tdefs={"GROW": 130, "OPS": 4}, bounds="GROW elements, then OPS operations"),
    Job("bag_grow_u64", "c09_bag.c", defs={"PART": 0, "OPS": 3, "GROW": 17}, tdefs={"GROW": 65}, bounds="GROW elements, then OPS operations"),
    Job("stack", "c09_bag.c", defs={"PART": 3, "OPS": 4, "GROW": 0}, tdefs={"OPS": 6}, bounds="initial capacity 1/8/15, OPS pushes (0..40 arbitrary bytes) and pops"),
    Job("stack_grow", "c09_bag.c", defs={"PART": 3, "OPS": 3, "GROW": 12}, tdefs={"GROW": 40, "OPS": 4}, bounds="GROW elements, then OPS operations, then all popped"),
    Job("map", "c09_map.c", defs={"OPS": 3, "GROW": 0}, tdefs={"OPS": 4}, bounds="OPS inserts/lookups with arbitrary 41-bit keys in 2 buckets"),
    Job("map_grow", "c09_map.c", defs={"OPS": 2, "GROW": 9}, tdefs={"GROW": 20}, bounds="GROW colliding keys, then OPS inserts/lookups with arbitrary keys"),
])
prop("C12", [
    Job("args", "c12_cmd.c", defs={"ARGS": 3, "LEN": 2}, tdefs={"ARGS": 4, "LEN": 3}, bounds="up to ARGS+1 arguments: arbitrary foreign strings up to 2 bytes, the option with any number up to LEN digits, garbage, overflow, missing value, near-miss option, help"),
    Job("init", "c12_cmd.c", defs={"ARGS": 2, "LEN": 1, "VIA_INIT": 1}, tdefs={"ARGS": 3, "LEN": 2}, bounds="as args, through ht_init, called first or again"),
    Job("num", "c12_num.c", bounds="all 1..4 digit numbers; numbers around 2^32, 2^63, 2^64 and with leading zeros, with up to 3 arbitrary digits"),
])
prop("C10", [Job("%s" % n, "c10_alloc.c", defs={"PART": i}, bounds="every single allocation of the scenario fails in turn, after ht_init: " + d) for i, (n, d) in enumerate((
    ("timeline", "timeline creation (named/anonymous, thread-safe or not), 18 listeners, oversized event"), ("callstack", "enabling, 40 nested spans"), ("labels", "enabling (first/last allocations of each table), 12 colliding static and 3 dynamic labels"),
    ("file", "file listener, buffered and unbuffered"), ("scheduler", "scheduler with 18 tasks, id provider"), ("registry", "20 classes, 12 named groups")))])
prop("C13", [Job("init", "c13_init.c", defs={"OPS": 5}, tdefs={"OPS": 7}, bounds="OPS operations out of init, deinit, class registration, timeline in a named group, metadata")])
prop("C28", [Job("allocator", "c28_allocator.c", defs={"OPS": 1}, tdefs={"OPS": 2}, bounds="timeline of any kind with any features, OPS operations of 6 kinds, 0/20 listeners")])
prop("C26", [Job("clock", "c26_clock.cpp", bounds="all 64-bit clock readings below 2^63; all 8/16-bit values and expressions, all 32-bit signed and unsigned values of the duration macros")])
prop("C27", [Job("global", "c27_global.c", threads=True, defs={"NT": 2, "PUSHES": 1, "WITH_MAIN": 1}, tdefs={"PUSHES": 2}, preempt=1, tpreempt=2, bounds="NT threads and the main thread, PUSHES spans each, buffer size 0/40/1024, 2 listeners; all schedules within the preemption bound")])
prop("C29", [
    Job("ops", "c29_feature.c", opts=("--eager",), defs={"KL": 3, "OPS": 4, "MANY": 0}, tdefs={"OPS": 5}, bounds="3 feature classes, 2 timelines, OPS operations (register, set, get)"),
    Job("many", "c29_feature.c", defs={"KL": 40, "OPS": 0, "MANY": 1}, bounds="40 feature classes: more than a timeline can hold"),
])
prop("C30", [
    Job("groups", "c30_groups.c", defs={"NTL": 2, "OPS": 4, "BATCH": 1}, tdefs={"NTL": 3}, bounds="NTL timelines in 2 named groups or anonymous, thread-safe or not; OPS operations (register BATCH listeners, push, unregister all, destroy)"),
    Job("batch", "c30_groups.c", defs={"NTL": 1, "OPS": 5, "BATCH": 18}, bounds="1 timeline, batches of 18 listeners (the list grows), OPS operations", tdefs={"OPS": 6}),
    Job("mt", "c30_mt.c", threads=True, defs={"CHURN": 0}, tdefs={"CHURN": 1}, bounds="2 threads creating timelines of one named group concurrently"),
])
JOBS["C29"].append(Job("ops_lazy", "c29_feature.c", defs={"KL": 3, "OPS": 3, "MANY": 0}, tdefs={"OPS": 4}, bounds="as ops, with OPS operations left symbolic"))
prop("C31", [
    Job("labels", "c31_labels.c", defs={"OPS": 3}, tdefs={"OPS": 4}, bounds="OPS operations: 3 static labels (two pointers, equal or different text), dynamic labels of 0..2 bytes over a 2-letter alphabet and of 40 bytes, push_map"),
    Job("mt", "c31_mt.c", threads=True, bounds="2 threads adding the same or different labels to a thread-safe timeline; all schedules within the preemption bound"),
    Job("collision", "c31_known.c", known="dynamic labels with equal djb2 hashes (\"ab\" and \"bA\") get the same identifier, so the second one is never announced", bounds="two different 2-byte labels with equal djb2 hashes"),
])
prop("C32", [
    Job("cxx", "c32_cxx.cpp", bounds="nested scopes of every C++ tracepoint macro; at each of 6 points the code goes on, returns, breaks, continues or throws; loops of 0..2 iterations; all integer labels"),
    Job("c", "c32_c.c", bounds="nested scopes of the C tracepoint macros; return, break, continue, goto at 6 points; loops of 0..2 iterations; all integer labels"),
])
O1 = ("-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-jump-tables", "-fno-pic")
PARSER = dict(eopt=O1, preempt=0, tpreempt=0, comps=("lib", "parser"), drop=("debug_event_listener.cpp",))
KREG = dict(eopt=O1, comps=("lib", "parser"), drop=("debug_event_listener.cpp",), threads=True)
prop("C17", [
    Job("conv", "c17_conv.cpp", bounds="all values of all 8 integer types", **PARSER),
    Job("reader", "c17_reader.cpp", bounds="little- and big-endian streams, flat and nested, events with 8 fields and an embedded event with 4 fields of any types; all values", **PARSER),
])
prop("C14", [Job("%s" % n, "c14_roundtrip.cpp", steps=60000000, defs={"EVENTS": 1, "SLEN": 2, "FLAT": fl, "TWICE": 0}, tdefs={"EVENTS": 2, "SLEN": 3, "TWICE": 1}, bounds="metadata and EVENTS events out of 7 classes (integers of every width, strings, inheritance, embedded events), possibly the metadata again; strings NULL, up to SLEN bytes or 300 bytes; all values; timeline capacity 0/100/4000; from memory or a file; %s events" % n, **PARSER) for fl, n in enumerate(("nested", "flat"))])
prop("C16", [Job("register_%d" % i, "c16_register.cpp", steps=60000000, defs={"MT": 0, "OPS": 3, "ONLY": i}, tdefs={"OPS": 4}, bounds="every sequence of OPS class and field descriptions over 3 class ids (one of a core class), 2 names each, 2 field names; the last one with every size and data type; the second description is about class %d" % i, **PARSER) for i in range(3)] + [
    Job("mt", "c16_register.cpp", steps=60000000, defs={"MT": 1, "OPS": 1, "ONLY": 0}, preempt=1, tpreempt=2, bounds="one thread describes 2 classes while another looks them up by id or name or lists all classes, with 4 or 13 classes before; all schedules within the preemption bound", **KREG)])
prop("C15", [
    Job("bytes_nested", "c15_hostile.cpp", steps=20000000, defs={"MODE": 0, "LEN": 44, "FLAT": 0}, tdefs={"LEN": 64}, bounds="LEN arbitrary bytes, possibly 1 or 2 fewer; nested events", **PARSER),
    Job("bytes_flat", "c15_hostile.cpp", steps=20000000, defs={"MODE": 0, "LEN": 44, "FLAT": 1}, tdefs={"LEN": 64}, bounds="as bytes_nested, flat events", **PARSER),
    Job("classes_nested", "c15_hostile.cpp", steps=20000000, defs={"MODE": 1, "FIELDS": 1, "LEN": 4, "FLAT": 0}, tdefs={"FIELDS": 2, "LEN": 24}, bounds="class descriptions with FIELDS fields of any type, size and class, recursive and unknown ones included, then an event of any class, LEN arbitrary bytes, cut anywhere; nested events", **PARSER),
    Job("classes_flat", "c15_hostile.cpp", steps=20000000, defs={"MODE": 1, "FIELDS": 1, "LEN": 4, "FLAT": 1}, tdefs={"FIELDS": 2, "LEN": 24}, bounds="as classes_nested, flat events", **PARSER),
])
CLIENT = dict(preempt=0, tpreempt=0, shadow=True, eopt=O1, steps=60000000, comps=("lib", "parser", "client", "client_utils"), drop=("debug_event_listener.cpp",))
prop("C18", [Job("chrome", "c18_chrome.cpp", defs={"EVENTS": 2}, tdefs={"EVENTS": 3}, bounds="EVENTS events out of 6 kinds (mapping, integer label mapped or not, text label of 0..2 arbitrary bytes, name, no label, extra fields of every type); all times, durations, threads", **CLIENT)])
prop("C19", [
    Job("one", "c19_calls.cpp", defs={"SPANS": 3, "THREADS": 1, "LABELS": 3}, tdefs={"SPANS": 4}, bounds="SPANS properly nested spans of one thread in every nesting, 3 labels, all times and durations, equal ones included", **CLIENT),
    Job("two", "c19_calls.cpp", defs={"SPANS": 3, "THREADS": 2, "LABELS": 2}, tdefs={"SPANS": 4}, bounds="as one, with two threads interleaved and 2 labels", **CLIENT),
])
prop("C20", [
    Job("history", "c20_map.cpp", defs={"OPS": 3, "FREE": 0, "LEN": 0}, tdefs={"OPS": 4}, bounds="OPS operations (announce a label, load one of two files, a list of files with missing ones, look up); 6 x 6 file contents", **CLIENT),
    Job("text", "c20_map.cpp", defs={"OPS": 1, "FREE": 1, "LEN": 4}, tdefs={"LEN": 6}, bounds="a map file of \"c l \" and up to LEN arbitrary bytes", **CLIENT),
])
prop("C21", [
    Job("args", "c21_cmd.cpp", defs={"ARGS": 3, "LEN": 3, "PAIRS": 0}, tdefs={"ARGS": 4, "LEN": 4}, reach=("accepted", "refused"), bounds="2 prefixes, every subset of 4 options (values, flags, mandatory ones, a refused combination), up to ARGS arguments out of the options, arbitrary strings up to LEN bytes and a near miss", **CLIENT),
    Job("pairs", "c21_cmd.cpp", defs={"ARGS": 4, "LEN": 1, "PAIRS": 1}, tdefs={"ARGS": 6}, reach=("accepted", "refused"), bounds="ARGS arguments: options, each followed by an arbitrary string up to LEN bytes", **CLIENT),
])
prop("C22", [Job("source", "c22_source.cpp", defs={"LEN": 3}, tdefs={"LEN": 6}, threads=True, bounds="arbitrary strings up to LEN bytes; every well-formed address with 1 to 3 digits per number and ports of up to 6 digits; too few numbers; existing files, one named like an address", **CLIENT)])
MAIN = dict(CLIENT, comps=CLIENT["comps"] + ("client_main",))
prop("C36", [
    Job("recordings", "c36_main.cpp", defs={"ARGS": 0, "EVENTS": 3}, tdefs={"EVENTS": 4}, reach=("converted",), bounds="up to EVENTS spans out of 3 kinds of label on 2 threads, all times and durations, possibly broken off in the last one; a label told by the stream or not, with or without map files; both formats", **MAIN),
    Job("arguments", "c36_main.cpp", defs={"ARGS": 1, "EVENTS": 1}, reach=("converted", "refused"), bounds="one span; 4 formats, 5 output paths (default, plain, with a date, longer than 127 bytes as such or by its date), 3 map arguments; missing source, missing argument, help, unknown option", **MAIN),
])
prop("C25", [
    Job("cpu", "c25_proc.c", defs={"PART": 0, "DIGITS": 1, "ROUNDS": 1}, tdefs={"DIGITS": 2}, bounds="command names with parentheses and blanks, extreme and arbitrary other fields, CPU times of DIGITS digits each, 3 time spans; floating-point operations are evaluated per value (the solver enumerates them)"),
    Job("memory", "c25_proc.c", defs={"PART": 1, "DIGITS": 6}, tdefs={"DIGITS": 12}, bounds="sizes of 1..DIGITS digits, every subset of the results"),
    Job("malformed", "c25_proc.c", defs={"PART": 2, "BYTES": 4}, tdefs={"BYTES": 6}, bounds="missing files, files cut short, BYTES arbitrary bytes at several places"),
])
prop("C23", [
    Job("seq", "c23_tcp.c", threads=True, preempt=0, tpreempt=1, defs={"RAW": 0, "FAULTS": 0, "OPS": 4, "PUSHES": 0, "NBUF": 3}, tdefs={"OPS": 5, "NBUF": 4}, bounds="OPS steps: client connects, 1 or 2 records delivered at once, client disconnects; listener buffer 0/4/7/64; stopped, stopped twice and destroyed, destroyed only, client connecting at the end"),
    Job("raw", "c23_tcp.c", threads=True, preempt=0, tpreempt=1, defs={"RAW": 1, "FAULTS": 0, "OPS": 4, "PUSHES": 0, "NBUF": 4}, tdefs={"OPS": 5}, bounds="as seq, unserialized events"),
    Job("faults", "c23_tcp.c", threads=True, preempt=0, defs={"RAW": 0, "FAULTS": 3, "OPS": 3, "PUSHES": 0, "NBUF": 2}, tdefs={"FAULTS": 3, "OPS": 3, "NBUF": 4}, bounds="as seq; socket, setsockopt, bind or listen fails, or the first FAULTS sends are interrupted, fail or are partial"),
    Job("join", "c23_tcp.c", threads=True, preempt=2, tpreempt=3, defs={"RAW": 0, "FAULTS": 0, "OPS": 0, "PUSHES": 1, "NBUF": 1}, bounds="as mt, one delivery larger than the listener buffer"),
    Job("mt", "c23_tcp.c", threads=True, preempt=1, tpreempt=2, tdefs={"NBUF": 3}, defs={"RAW": 0, "FAULTS": 0, "OPS": 0, "PUSHES": 2, "NBUF": 2}, bounds="a client connects while a thread delivers PUSHES times, the listener is stopped before or after; all schedules within the preemption bound"),
])
TCP = dict(eopt=O1, steps=60000000, comps=("lib", "parser"), extra_src=("client_utils/tcp_client_stream.cpp",), drop=("debug_event_listener.cpp",), threads=True)
prop("C34", [
    Job("large", "c34_tcp.cpp", defs={"PART": 2}, preempt=0, tpreempt=0, bounds="4000 bytes in 3 packets up to 1900 bytes; 3 reads of 1, 1023, 1024, 1025 or 2600 bytes", **TCP),
    Job("bytes", "c34_tcp.cpp", defs={"PART": 0, "BYTES": 3, "OPS": 3}, preempt=1, tpreempt=2, tdefs={"OPS": 4}, bounds="BYTES arbitrary bytes in up to 3 packets of any size, then the connection is closed, fails or stays idle; OPS reads of 1 or 2 bytes; connection refused at first, waiting or not; started again, stopped or destroyed at any point", **TCP),
    Job("reader", "c34_tcp.cpp", defs={"PART": 1, "AGAIN": 0}, preempt=1, tpreempt=2, bounds="an event cut into packets at 4 places; the reader is awaited, stopped at any moment, by its own callback, or while another thread waits; all schedules within the preemption bound", **TCP),
    Job("again", "c34_tcp.cpp", defs={"PART": 1, "AGAIN": 1}, preempt=0, tpreempt=1, bounds="as reader, then started again with or without being stopped", **TCP),
])
PYCLIENT = dict(eopt=O1, steps=60000000, comps=("lib", "parser"), extra_src=("bindings/python3/hawktracer_client_python.cpp", "bindings/python3/client_context.cpp"), drop=("debug_event_listener.cpp",), threads=True, cflags=PYINC)
prop("C35", [
    Job("core", "c35_core.cpp", extra_src=("bindings/python3/hawktracer_core_python.cpp",), defs={"CALLS": 2}, tdefs={"CALLS": 3}, cflags=PYINC, bounds="CALLS calls of 2 functions (named with any letter, equal or not; unnamed; with a name that is not a string or not encodable), which return, fail, call each other or switch tracing; decorator and tracing switched anywhere; with and without keywords, trace file, environment variable; the interpreter ends"),
    Job("values", "c35_client.cpp", defs={"PART": 0, "SLEN": 2}, tdefs={"SLEN": 3}, preempt=0, tpreempt=0, bounds="an event with integers of all sizes, any values, and a string, class name or field name of up to SLEN arbitrary bytes; polled or passed to a callback", **PYCLIENT),
] + [
    Job("moments%d" % m, "c35_client.cpp", defs={"PART": 1, "EVENTS": 1, "OPS": 3 if m & 1 else 2, "MOMENTS": m}, tdefs={"EVENTS": 2}, preempt=1, tpreempt=1, bounds="EVENTS events, then the stream %s; %s; OPS operations (wait, stop, poll, eos, another thread waiting or stopping, start again); all schedules within the preemption bound" % ("stays idle" if m & 1 else "ends", ("polled", "passed to a callback that may stop the client", "passed to a callback that fails")[m // 2]), **PYCLIENT)
    for m in range(5)
])
prop("C24", [Job("hooks", "c24_hooks.c", comps=("hooks",), defs={"OPS": 4}, tdefs={"OPS": 5}, bounds="OPS steps: registering any subset of the 8 hooks, malloc/calloc/realloc/free with all sizes, null blocks, failing or not, from hooks that allocate or free themselves")])

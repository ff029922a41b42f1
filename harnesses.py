"""Which harnesses decide which property, and with what bounds / assumptions."""
SEQ = lambda *g, **k: dict(kind="seq", groups=list(g), **k)
CONC = lambda *g, **k: dict(kind="conc", groups=list(g), **k)
HARNESSES = {
    "p01_seq": SEQ("lib", sources=["ht_events.c"]),
    "p02_conc": CONC("lib", sources=["ht_events.c"]),
    "p03_seq": SEQ("lib", sources=["ht_events.c"]),
    "p03_conc": CONC("lib", sources=["ht_events.c"]),
    "p04_conc": CONC("lib", sources=["ht_events.c"]),
    "p20_seq": SEQ("lib", sources=["ht_events.c"]),
    "p05_seq": SEQ("lib", sources=["ht_events.c"]),
    "p05_conc": CONC("lib", sources=["ht_events.c"]),
    "p06_seq": SEQ("lib", sources=["ht_events.c"]),
    "p06_conc": CONC("lib", sources=["ht_events.c"]),
    "p13_seq": SEQ("lib", sources=["ht_events.c", "p13_c.c"]),
    "p13_conc": CONC("lib", sources=["ht_events.c", "p13_c.c"]),
    "p14_seq": SEQ("lib", sources=["ht_events.c"]),
    "p14_conc": CONC("lib", sources=["ht_events.c"]),
    "p15_seq": SEQ("lib", sources=["ht_events.c"]),
    "p16_seq": SEQ("lib", sources=["ht_events.c"]),
    "p16_conc": CONC("lib", sources=["ht_events.c"]),
    "p17_seq": SEQ("lib", sources=["ht_events.c"]),
    "p17_conc": CONC("lib", sources=["ht_events.c"]),
    "p21_seq": SEQ("lib", "parser", "client_utils", "client", sources=["ht_events.c"], extra=["client/main.cpp"], extra_defs=["-Dmain=ht_client_main"]),
    "p12_conc": CONC("lib", "parser", "client_utils"),
    "p09_conc": CONC("lib", "parser", "client_utils", sources=["ht_events.c"]),
    "p10_conc": CONC("lib", sources=["ht_events.c"]),
    "p11_conc": CONC("lib", sources=["ht_events.c"]),
    "p08_seq": SEQ("lib", "parser", sources=["ht_events.c"]),
    "p07_seq": SEQ("lib", "parser", sources=["ht_events.c"]),
    "p22_seq": SEQ("lib", "parser", sources=["ht_events.c"]),
    "p18_seq": SEQ("lib", "parser", "client_utils", "client", sources=["ht_events.c"], extra=["client/main.cpp"], extra_defs=["-Dmain=ht_client_main"]),
    "p19_seq": SEQ("lib", "parser", "client_utils", "client", sources=["ht_events.c"], extra=["client/main.cpp"], extra_defs=["-Dmain=ht_client_main"]),
    "p23_conc": CONC("lib", "parser", "client_utils", sources=["ht_events.c"]),
    "p26_seq": SEQ("lib", link=["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fopen64", "open", "open64", "openat", "sysconf", "getpagesize", "getpid"))]),
    "p27_seq": SEQ(variant="plain", extra=["lib/platform/linux/alloc_hooks.c"], extra_defs=["-DHT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED"]),
    "p25_seq": SEQ("lib", "python_core", python="embed"),
    "p24_conc": CONC("lib", "parser", "client_utils", "python_client", exclude=("client_utils/stream_factory.cpp",), python="modelled"),
    "p31_seq": SEQ("lib", "parser", sources=["ht_events.c"]),
    "p32_seq": SEQ("client_utils", "parser", "lib"),
    "p33_seq": SEQ("lib", "parser"),
    "p31_conc": CONC("lib", "parser", sources=["ht_events.c"]),
    "p30_seq": SEQ("lib", "parser", "client_utils", "client", sources=["ht_events.c"]),
    "p28_seq": SEQ("lib", "parser", "client_utils", "client", python="embed"),
    "p24_seq": SEQ("lib", "parser", "client_utils", "python_client", python="embed"),
}
# P29: the scenarios of other properties on the library generated as a single file
def _again(tag, single, **which):
    for h, scenarios in which.items():
        d = dict(HARNESSES[h], main=h, single=single, scenarios=scenarios)
        d["groups"] = [g for g in d["groups"] if g != "lib"]; d["share"] = {"p11_conc": 5, "p10_conc": 3, "p13_seq": 3, "p13_conc": 2, "p23_conc": 2}.get(h, 1)
        HARNESSES["p29_%s_%s" % (tag, h)] = d
_again("c", ("c", True), p01_seq="", p02_conc="direct,mixed,flush", p03_seq="", p03_conc="open_same,users,close_open,register,global,global_first",
       p04_conc="default_two,private_providers,pushed_events,shared_timeline,thread_ids_two", p05_conc="same_classes,read_meanwhile", p06_conc="stop,flush",
       p10_conc="join,join_buffered,leave,short_sends", p11_conc="push,connect,connect_stop_twice,destroy,sequences", p13_seq="", p13_conc="static_site,dynamic,c_site,nested",
       p14_conc="dyn_same,static_same,push_map", p15_seq="", p16_conc="same,last_slot", p17_seq="", p17_conc="tcp_create,tcp_clients", p20_seq="", p23_conc="before,any_time_coarse")
_again("gcc42", ("c", True), p04_conc="private_providers,pushed_events,shared_timeline")
HARNESSES["p29_gcc42_p04_conc"]["single_flags"] = []     # the atomic operations for the gcc that clang says it is
_again("cpp", ("cpp", True), p01_seq="", p04_conc="default_two,thread_ids_two", p11_conc="connect,sequences", p13_conc="static_site", p20_seq="")
_again("nothreads", ("c", False), p01_seq="", p13_seq="nested,time,depths,two_timelines,scopes,c_scopes,labelled", p14_seq="many,lengths", p15_seq="histories,many", p16_seq="limit,builtin", p17_seq="default_allocator,features,strings,classes")
A_CONC = ["sequentially consistent memory (no weak-memory reorderings)",
          "sockets, files and clocks are the simulated ones of mc/conc_rt.cpp"]
A_SEQ = ["values outside the stated alphabets are not visited", "64-bit little-endian Linux build"]
PROPERTIES = {
    "P01": dict(harnesses=["p01_seq"], rule="every operation sequence up to the stated depth over the alphabet, times configurations", assumptions=A_SEQ),
    "P02": dict(harnesses=["p02_conc"], rule="every schedule with at most the stated number of preemptions", assumptions=A_CONC),
    "P03": dict(harnesses=["p03_seq", "p03_conc"], rule="every history up to the stated depth; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P04": dict(harnesses=["p04_conc"], rule="every schedule with at most the stated number of preemptions", assumptions=A_CONC),
    "P20": dict(harnesses=["p20_seq"], rule="every history up to the stated depth", assumptions=A_SEQ),
    "P05": dict(harnesses=["p05_seq", "p05_conc"], rule="every registration history up to the stated depth, every class count and name length in the stated ranges; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P06": dict(harnesses=["p06_seq", "p06_conc"], rule="every operation history up to the stated depth x buffer sizes, file content inspected after every operation; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC + ["a crash loses what stdio still buffers and nothing else (page cache survives process death)"]),
    "P13": dict(harnesses=["p13_seq", "p13_conc"], rule="every properly nested start/stop sequence up to the stated length x kinds x buffer sizes, every nesting depth up to the stated one, every exit path of the scoped scenarios, every choice of time steps; every schedule of tracing threads with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P14": dict(harnesses=["p14_seq", "p14_conc", "p13_conc"], rule="every sequence of mapping operations up to the stated length over labels that include hash collisions, every label count and length in the stated ranges; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P15": dict(harnesses=["p15_seq"], rule="every history of schedule, remove, time step and tick up to the stated length; every table size and stop/remove pattern in the stated ranges; every set of periods from the stated alphabet", assumptions=A_SEQ + ["callbacks do not tick or destroy their scheduler"]),
    "P16": dict(harnesses=["p16_seq", "p16_conc"], rule="every history of registering, enabling and destroying up to the stated length, every number of kinds up to the maximum and beyond; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P29": dict(harnesses=sorted(h for h in HARNESSES if h.startswith("p29_")), rule="the scenarios of P01-P06, P10, P11, P13-P17, P20 and P23 (quick: part of the concurrent ones) on the library generated as a single C file; P01, P04, P11, P13, P20 on the single C++ file; P01, P13-P17 on the C file without threads", assumptions=A_CONC + A_SEQ + ["the C file is compiled as C99 by clang, with the POSIX implementations"], budget=420),
    "P33": dict(harnesses=["p33_seq"], rule="every value of the 8 and 16-bit fields and the corners of wider ones, every string up to the stated length over the stated characters, every sequence of events of six classes up to the stated length, every history of two listeners up to the stated length, every nesting depth up to the bound", assumptions=A_SEQ),
    "P32": dict(harnesses=["p32_seq"], rule="every address over the stated octets and ports, every port number up to 69999 (699999), every string up to the stated length over the characters of addresses, every file name x size x content x read pattern of the stated lists", assumptions=A_SEQ),
    "P31": dict(harnesses=["p31_seq", "p31_conc"], rule="every sequence of class and field announcements up to the stated length; every kind and size of a field; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC),
    "P30": dict(harnesses=["p30_seq"], rule="every history of operations on event objects up to the stated length; every trace of the stated family, whole and cut at every byte, in both decoding modes", assumptions=A_SEQ),
    "P17": dict(harnesses=["p17_seq", "p17_conc"], rule="every creating call x every single failing memory request x failing once or from then on x table sizes in the stated ranges", assumptions=A_SEQ + ["only the user-supplied allocator fails; operator new and the C library do not"]),
    "P21": dict(harnesses=["p21_seq"], rule="every argument list up to the stated length over the token alphabets, every output path length in the stated range", assumptions=A_SEQ),
    "P12": dict(harnesses=["p12_conc"], rule="every schedule with at most the stated number of preemptions, every segmentation of the stated byte strings, every read-call pattern of the stated scenarios", assumptions=A_CONC + ["one thread reads the stream; it is started and stopped by one thread at a time"]),
    "P09": dict(harnesses=["p09_conc"], rule="every schedule with at most the stated number of preemptions", assumptions=A_CONC + ["the reader is started by one thread, and stopped by one thread at a time or from inside its own callbacks"]),
    "P10": dict(harnesses=["p10_conc"], rule="every schedule with at most the stated number of preemptions, every short-write and send-failure pattern with at most the stated number of deviations, every buffer size in the stated range", assumptions=A_CONC),
    "P11": dict(harnesses=["p11_conc"], rule="every schedule with at most the stated number of preemptions; every operation sequence up to the stated length", assumptions=A_CONC),
    "P08": dict(harnesses=["p08_seq"], rule="every class shape of up to the stated number of fields of all kinds and up to two base classes, every boundary value of every field kind, every string length in the stated range and every byte value, every sequence of events up to the stated length, in both decoding modes and both byte orders", assumptions=A_SEQ),
    "P07": dict(harnesses=["p07_seq"], rule="every byte prefix of every trace of the stated family x both decoding modes x both byte orders x file, buffer and connection style streams", assumptions=A_SEQ),
    "P22": dict(harnesses=["p22_seq"], rule="every single damage of the stated kinds at every position of every trace of the stated family; every pair of whole-event damages (thorough); every sequence of odd descriptions up to the stated length", assumptions=A_SEQ),
    "P18": dict(harnesses=["p18_seq"], rule="every trace up to the stated length over the event alphabet x map files, every character and every string up to the stated length over the special characters in every string position, every boundary value of every numeric field and label type, every cut of a trace", assumptions=A_SEQ + ["strings are valid UTF-8 (JSON cannot carry anything else)", "field names are C identifiers, start and duration are 64-bit fields as the library writes them"]),
    "P19": dict(harnesses=["p19_seq"], rule="every ordered forest up to the stated number of spans x labels x every pattern of shared start and end times x arrival orders, whose nesting follows from the intervals (and from the order of completion where two nested spans are equal)", assumptions=A_SEQ + ["labels do not contain line breaks (the callgrind format cannot carry them)"]),
    "P23": dict(harnesses=["p23_conc"], rule="every schedule with at most the stated number of preemptions", assumptions=A_CONC),
    "P26": dict(harnesses=["p26_seq"], rule="every command name, field values, tick rate and page size of the stated alphabets, every history of probes up to the stated length with unreadable files at every probe", assumptions=A_SEQ + ["the kernel's files are complete or absent, not cut in the middle of a number", "the clock advances between two probes of one context"]),
    "P27": dict(harnesses=["p27_seq"], rule="every subset of the hooks with every operation, every history of operations up to the stated length on two blocks", assumptions=A_SEQ),
    "P25": dict(harnesses=["p25_seq"], rule="every tree of traced calls up to the stated number of calls over ten kinds of callables, every pair of names, every sequence of module calls up to the stated length", assumptions=A_SEQ + ["the file listener is registered before the timeline's buffer is full for the first time"]),
    "P28": dict(harnesses=["p28_seq"], rule="every form of a source line x label x context, every sequence of labels over every set of files up to the stated length, every subset of the outputs", assumptions=A_SEQ + ["one tracepoint per line, as the tool's patterns say"]),
    "P24": dict(harnesses=["p24_seq", "p24_conc"], rule="every boundary value of every field kind, every text of the stated ranges, every sequence of events and of calls up to the stated length, through polling and through callbacks; every schedule with at most the stated number of preemptions", assumptions=A_SEQ + A_CONC + ["the interpreter lock is an unfair mutex of a modelled CPython in p24_conc"]),
}

"""What each check runs: engines, number of runs and wall-clock cap (seconds) per tier."""

_CLI_REAL = ["libhext", "htmlext (main, File, Json, ProgramOptions, ErrorOutput)", "gumbo", "libstdc++ iostreams", "glibc",
             "boost regex and program_options", "RapidJSON"]
_CLI_STUB = ["kernel: open/read/lseek/stat/mmap/write/ioctl/... on files, pipes and standard streams (seccomp user-space emulation)"]

ENGINE_INFO = {
    "cli": dict(real=_CLI_REAL, stub=_CLI_STUB),
    "clifast": dict(real=_CLI_REAL, stub=_CLI_STUB),
}

ENGINE_INFO["mem"] = dict(
    real=["libhext", "gumbo", "libstdc++", "boost regex", "a user program calling the C++ API in one thread"],
    stub=["memory allocator (operator new/delete in front of AddressSanitizer's malloc): decides which allocations fail",
          "user-supplied matches, tests, captures, pipes and functions: scripted to throw or re-enter"])
ENGINE_INFO["thr"] = dict(
    real=["libhext, compiled with clang's thread instrumentation", "gumbo", "libstdc++", "boost regex", "a multi-threaded user program calling the C++ API"],
    stub=["thread scheduler (one thread runs at a time; the plan switches at memory accesses, atomics, locks, allocations and user components)",
          "mutexes, read-write locks, condition variables, once, function-local statics", "ThreadSanitizer runtime (own vector clocks)",
          "memory allocator (arena; decides reuse, filling, placement and which allocations fail)", "user-supplied components: scripted to throw"])
_MEM_TIME = "simulated_steps: basic blocks of libhext executed. No clock exists in the code; its time is the order of allocations and component invocations."

_CLI_TIME = ("simulated_steps: basic blocks of libhext and htmlext executed; simulated_syscalls: file system calls answered by the "
             "simulated kernel. The program has no clock; its time is the order of its system calls.")

_THR_TIME = ("simulated_steps: instrumented memory accesses of libhext on the simulated processor; simulated_sync_points: atomics, locks, allocations and user components. "
             "No clock exists in the code.")

_BSTUB = ["operator new and delete of the process (preloaded; decides which of libhext's allocations fail, fills and checks memory)"]
ENGINE_INFO["bpy"] = dict(real=["libhext", "Python binding (SWIG 4 output of pyhext.i, wrapper classes)", "CPython 3.12", "gumbo", "libstdc++", "boost regex"],
                          stub=_BSTUB + ["CPython's MEM and OBJ allocators (decide which allocations fail, quarantine, account)"])
ENGINE_INFO["brb"] = dict(real=["libhext", "Ruby binding (SWIG 4 output of rbhext.i, wrapper classes)", "Ruby 3.2", "gumbo", "libstdc++", "boost regex"],
                          stub=_BSTUB + ["the moments of Ruby's garbage collections (calls of the binding into Ruby are interposed)"])
ENGINE_INFO["bphp"] = dict(real=["libhext", "PHP binding (SWIG 4 output of phphext.i, wrapper classes)", "PHP 8.3", "gumbo", "libstdc++", "boost regex"], stub=_BSTUB)
ENGINE_INFO["bnd"] = dict(real=["libhext", "Node.js binding", "node-addon-api", "Node.js 22", "gumbo", "libstdc++", "boost regex"],
                          stub=_BSTUB + ["Node-API calls of the binding (interposed; fail or collect garbage first as planned)"])
_BIND_TIME = "evaluations: calls into the binding; interpreter_processes: simulated program lifetimes. No clock exists in the code; its time is the order of allocations, interpreter calls and collections."
_BIND_RULE = ("Each run is one program: it draws documents, templates and an order of constructions, extractions, deletions and collections, and repeats each call under "
              "planned failures positioned among the allocations (or interpreter calls) that the same call makes undisturbed; every outcome is compared with libhext's own "
              "results. Non-trivial: a failure or a collection fired inside a call, or a call failed by itself.")

PROPS = {
    "C14": dict(engines={"bpy": dict(quick=(9000, 60), thorough=(300000, 600))}, time_note=_BIND_TIME, rule=_BIND_RULE),
    "C15": dict(engines={"brb": dict(quick=(5000, 60), thorough=(150000, 600))}, time_note=_BIND_TIME, rule=_BIND_RULE),
    "C16": dict(engines={"bphp": dict(quick=(20000, 50), thorough=(600000, 600))}, time_note=_BIND_TIME, rule=_BIND_RULE),
    "C22": dict(engines={"bnd": dict(quick=(5000, 60), thorough=(150000, 600))}, time_note=_BIND_TIME, rule=_BIND_RULE),
    "C01": dict(
        engines={"thr": dict(quick=(14000, 50), thorough=(600000, 600))}, time_note=_THR_TIME,
        rule="Each run shares rules and documents among two or three simulated threads that extract, match, capture, copy and parse under one serial and up to four planned "
             "schedules, with failing allocations, throwing components and exhausted budgets; every outcome is compared with the same call alone in a fresh process, "
             "and every access is checked for races and freed memory. Non-trivial: a switch or fault happened."),
    "C02": dict(
        engines={"thr": dict(quick=(14000, 50), thorough=(600000, 600))}, time_note=_THR_TIME,
        rule="Each run gives threads copies of the same rules and components, which they mutate, assign, extend, move, swap, destroy and use under planned schedules; every "
             "copy is compared with a rule of the same value built in a fresh process, user components check that they belong to the copy that invokes them, "
             "and every access is checked for races and freed memory. Non-trivial: a switch or fault happened."),
    "C03": dict(
        engines={"thr": dict(quick=(14000, 50), thorough=(600000, 600))}, time_note=_THR_TIME,
        rule="Each run performs a history of parses (also failing ones), extractions, copies and destructions on objects at varying addresses, in one to three threads, under "
             "an allocator that reuses, fills and places memory as planned; every outcome is compared with the same call alone in a fresh process. Non-trivial: a switch or fault happened."),
    "C09": dict(
        engines={"clifast": dict(quick=(14000, 40), thorough=(400000, 420)), "cli": dict(first=10**7, quick=(800, 25), thorough=(20000, 150))},
        time_note=_CLI_TIME,
        rule="Each run draws templates, documents, options, the kind of every input (regular file, FIFO, standard input, redirected standard input) and a "
             "delivery plan (short and interrupted reads, wrong stat sizes, one file descriptor, short and interrupted writes), runs htmlext once undisturbed "
             "and once under the plan, and compares both with the library. Non-trivial: at least one planned fault fired."),
    "C10": dict(
        engines={"clifast": dict(quick=(16000, 40), thorough=(400000, 420)), "cli": dict(first=10**7, quick=(800, 20), thorough=(20000, 150))},
        time_note=_CLI_TIME,
        rule="As C09, but one or two inputs fail: open errors, directories, missing files, read errors after any number of bytes and calls, invalid templates. "
             "Non-trivial: a failure fired or a template was rejected."),
    "C11": dict(
        engines={"clifast": dict(quick=(12000, 40), thorough=(300000, 420)), "cli": dict(first=10**7, quick=(500, 25), thorough=(12000, 150))},
        time_note=_CLI_TIME,
        rule="As C09, but standard output fails: disk full after n bytes, or an error after any sequence of complete, short and interrupted writes. "
             "Non-trivial: a write fault fired."),
    "C23": dict(
        engines={"clifast": dict(quick=(12000, 40), thorough=(400000, 420)), "cli": dict(first=10**7, quick=(800, 20), thorough=(20000, 150))},
        time_note=_CLI_TIME,
        rule="As C09, but allocations of htmlext fail: one, a few, all from one on, or all large ones, positioned among the allocations of the undisturbed run. "
             "Non-trivial: an allocation failed."),
    "C04": dict(
        engines={"mem": dict(quick=(9000, 45), thorough=(500000, 600))}, time_note=_MEM_TIME,
        rule="Each run draws documents, templates and rules assembled from components, and a list of operations (parse, build, copy, assign, append, extract, match, "
             "capture, ...), each repeated with different failing allocations (one, a burst, all from one on, all large ones) chosen among the allocations that the "
             "same operation makes undisturbed. Non-trivial: at least one allocation failed."),
    "C05": dict(
        engines={"mem": dict(quick=(7000, 50), thorough=(400000, 600))}, time_note=_MEM_TIME,
        rule="As C04, with user components that throw when invoked or copied and limited budgets; after every fault the operation is repeated undisturbed and every "
             "rule and document of the world is compared with its recorded behaviour. Non-trivial: at least one fault fired."),
    "C06": dict(
        engines={"mem": dict(quick=(10000, 45), thorough=(500000, 600))}, time_note=_MEM_TIME,
        rule="Each run assembles rules from user-supplied and library components and lets one invocation throw one of several kinds of exceptions, or lets invocations "
             "start nested calls (same rule, other rule, exhausted budget, copies, parsing, failing ones). Non-trivial: a component threw or re-entered."),
    "C07": dict(
        engines={"mem": dict(quick=(10000, 30), thorough=(400000, 420)), "thr": dict(quick=(4000, 20), thorough=(150000, 240))}, time_note=_MEM_TIME,
        rule="Each run draws rules and documents, determines the threshold and probes budgets around it, far from it and beyond 32 bits, in seeded order, "
             "also with re-entering components and failing allocations in between. Non-trivial: at least one budget was exhausted."),
    "C08": dict(
        engines={"mem": dict(quick=(12000, 45), thorough=(600000, 600))}, time_note=_MEM_TIME,
        rule="Each run performs a seeded history of constructions, copies, moves, assignments, swaps, container operations, destructions and extractions under "
             "AddressSanitizer with leak accounting and compares every extraction with a reference. Non-trivial: more than three steps."),
    "C12": dict(
        engines={"mem": dict(quick=(12000, 40), thorough=(600000, 420)), "clifast": dict(quick=(4000, 20), thorough=(150000, 240))}, time_note=_MEM_TIME,
        rule="Each run damages templates (cut, flip, drop, duplicate, zero, overwrite) and parses them from buffers that end at an inaccessible page, from buffers followed "
             "by inviting text and, in htmlext, from simulated files. Non-trivial: every run."),
    "C13": dict(
        engines={"mem": dict(quick=(12000, 45), thorough=(600000, 600))}, time_note=_MEM_TIME,
        rule="Each run damages documents and extracts from them with several rules, from buffers that end at an inaccessible page and from buffers followed by inviting "
             "text, unlimited and limited. Non-trivial: every run."),
}

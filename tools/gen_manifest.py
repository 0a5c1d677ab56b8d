#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties that have a check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection: "
MEM = SIM + "libhext and a user program in one process, "
THR = SIM + "libhext and a multi-threaded user program under a simulated scheduler and allocator, "
BIND = SIM + "the real binding and libhext in a real interpreter run by a simulator that owns the allocator, "
CLAIMED = {
 "C01": dict(technique=THR + "seeded schedules", level="exploration",
   level_note="Sampled switch points (up to 24 per schedule) on sequentially consistent memory with a vector-clock race detector, which also covers reorderings that data-race-free code cannot see. Oracle: the same call alone in a fresh process. Threads started by the library itself are not scheduled."),
 "C02": dict(technique=THR + "seeded histories of copies", level="exploration",
   level_note="Oracle: a rule of the same value built in a fresh process; component ownership; race detector; freed memory."),
 "C03": dict(technique=THR + "seeded histories, reuse and content of memory", level="exploration",
   level_note="Oracle: the same call alone in a fresh process (fresh statics, fresh memory)."),
 "C04": dict(technique=MEM + "seeded allocation failures", level="exploration",
   level_note="Sampled failure points among all operator new calls of the operation; gumbo's malloc calls are not failed (gumbo exits the process by design of that library). Oracle: the same operation undisturbed, live bytes, live components."),
 "C05": dict(technique=MEM + "seeded faults followed by an undisturbed retry", level="exploration",
   level_note="Oracle: recorded behaviour of every rule on every document before the fault."),
 "C06": dict(technique=MEM + "seeded throws and re-entrance of user components", level="exploration",
   level_note="Oracle: the exception that was thrown, invocation counters, reference results of nested calls."),
 "C07": dict(technique=MEM + "seeded budgets, orders and disturbances", level="exploration",
   level_note="Oracle: sibling groups counted in the parse tree (rules without nested rules); one measured threshold otherwise."),
 "C08": dict(technique=MEM + "seeded object histories with freed memory quarantined", level="exploration",
   level_note="Oracle: reference results of the original objects, AddressSanitizer, live bytes."),
 "C12": dict(technique=MEM + "seeded damage of template bytes; also through htmlext on the simulated kernel", level="exploration",
   level_note="Storage faults applied to the template text; oracle: error type, position inside the text, independence of what follows the text, sanitizers, step limit."),
 "C13": dict(technique=MEM + "seeded damage of document bytes", level="exploration",
   level_note="Storage faults applied to the document; oracle: self-consistency across memory placements, allowed errors, sanitizers; the work bound is a generous step limit. Deep nesting beyond the stack is out of scope (recursion in gumbo and hext)."),
 "C09": dict(technique=SIM + "the real htmlext on a simulated kernel, seeded delivery of its inputs", level="exploration",
   level_note="Sampled deliveries; oracle: undisturbed run of the same bytes plus the library's own results in a separate process. Trusts the seccomp-based kernel model and the JSON reader."),
 "C10": dict(technique=SIM + "the real htmlext on a simulated kernel, seeded open and read failures", level="exploration",
   level_note="Sampled failures at sampled byte and call positions; oracle: which faults fired and the library's verdict on the templates."),
 "C11": dict(technique=SIM + "the real htmlext on a simulated kernel, seeded write failures", level="exploration",
   level_note="Sampled write failures; the first refused write is persistent and EPIPE is delivered with SIGPIPE ignored; oracle: the undisturbed output."),
 "C23": dict(technique=SIM + "the real htmlext on a simulated kernel and allocator, seeded allocation failures", level="exploration",
   level_note="Sampled failing operator new calls (RapidJSON's and gumbo's malloc calls are not failed: they do not check them); oracle: the undisturbed run and the library's verdict. --help is left to Boost."),
 "C14": dict(technique=BIND + "seeded allocation failures in libhext and in CPython's allocator", level="exploration",
   level_note="Real CPython 3.12 on the simulator's allocator. Oracle: libhext's own results, the script's own outcome, live blocks over repetitions. Allocations made by SWIG's argument handling and CPython's collector are not failed."),
 "C15": dict(technique=BIND + "seeded points of (compacting) garbage collection and failing allocations in libhext", level="exploration",
   level_note="Real Ruby 3.2. Collections happen before calls of the binding into Ruby, or at every allocation (GC.stress). Ruby's own allocations are not failed and no leak claim is made (rb_raise jumps over C++ frames by SWIG's design)."),
 "C16": dict(technique=BIND + "seeded allocation failures in libhext", level="exploration",
   level_note="Real PHP 8.3. PHP's own allocations are not failed (PHP ends the script by design)."),
 "C22": dict(technique=BIND + "seeded failures of Node-API calls and of allocations in libhext, seeded collections", level="exploration",
   level_note="Real Node.js 22 in its predictable single-threaded mode, real node-addon-api. A Node-API call does not fail while an exception is being created (node-addon-api ends the process by design)."),
}
NA = {
 "C17": "A pure function of (template, document): no schedule, time, I/O, fault or multi-party behaviour for it to depend on, so a simulator has nothing to decide; its history- and fault-dependent side is claimed by C03 and C13.",
 "C18": "A pure function of (template, document), as C17.",
 "C19": "A pure function of (node, pipe chain), as C17.",
 "C20": "A pure function of (results, options); the delivery- and fault-dependent side is claimed by C09 to C11.",
 "C21": "A pure function of the template text; acceptance of damaged text without failure is claimed by C12.",
}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = dict(NA)
    for p in props:
        if p["id"] not in CLAIMED and p["id"] not in na:
            na[p["id"]] = "Check under construction; not claimed yet."
    m = {"version": 1,
         "setup_cmd": "bash setup.sh",
         "checks": [dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
                         evidence_file=f"evidence/{i}.json", **c) for i, c in sorted(CLAIMED.items())],
         "not_applicable": [dict(property=i, reason=r) for i, r in sorted(na.items())],
         "notes": "Replay a violation with: bash run.sh --replay <file>. Known and fixed findings: known_findings.txt."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()

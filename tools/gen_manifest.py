#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from run.py's table of properties."""
import importlib.util, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("run", os.path.join(HERE, "run.py"))
run = importlib.util.module_from_spec(spec); spec.loader.exec_module(run)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
 "arena": "deterministic simulation with fault injection: seeded histories over real arenas on a simulated block allocator and clock, reference-model oracle",
 "string": "deterministic simulation with fault injection: seeded histories over real strings on a simulated heap, block allocator and stream buffer, std::string reference model",
 "astring": "deterministic simulation with fault injection: seeded histories over real arena strings of several arenas on a simulated block allocator with failing blocks, std::string reference model",
 "vector": "deterministic simulation with fault injection: seeded histories over real vectors with injected allocation failures and throwing elements, std::vector reference model",
 "opt": "deterministic simulation with fault injection: seeded histories over real option parsers in a simulated environment with failing allocations, reference parser",
 "thread": "deterministic simulation: real threads under a seeded scheduler at every memory access and lock, vector-clock race detection, single-threaded reference results",
}
NOTE = {
 "arena": "Seeded search, not exhaustive: evidence that no explored history, placement or fault sequence breaks the property. Trusts the reference model in sim/arena_world.cc, AddressSanitizer and the compiler.",
 "string": "Seeded search, not exhaustive. Trusts libstdc++'s std::string and streams as the reference, AddressSanitizer and the compiler.",
 "vector": "Seeded search, not exhaustive. Trusts libstdc++'s std::vector as the reference, AddressSanitizer and the compiler.",
 "opt": "Seeded search, not exhaustive. Trusts the reference parser in sim/opt_world.cc, libstdc++, AddressSanitizer and the compiler.",
 "thread": "Seeded search over schedules of a bounded number of threads, sequentially consistent executions plus happens-before race detection; weak-memory reorderings of relaxed atomics are not simulated. Trusts the compiler's -fsanitize=thread instrumentation.",
}
NA = {
 "C18": "Pure integer arithmetic: no schedule, clock, fault, I/O or multi-party behaviour for the property to depend on, so simulation cannot decide it (its use inside the arena is covered by C01, C02 and C04).",
}
NOTE["astring"] = NOTE["string"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in run.PROPS:
        w = run.PROPS[i]["world"]
        checks.append(dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="python3 run.py check " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[w], level="exploration", level_note=NOTE[w]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Simulator for this property is not built yet.")))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams the simulation needs (block_alloc/block_dealloc, arena hooks, allocators, stream buffers, malloc, clocks, pthread calls) exist already or are reached by link-time wrapping and compiler instrumentation. Commits in /repo are fix: commits only, see known_findings.json and DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

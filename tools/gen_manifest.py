#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties without an entry here are listed as not claimed yet."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
X, F = "exploration", "fault_enumeration"
CHECKS = {
 "C01": (X, "model-based runtime monitoring on a monitoring flash",
         "Random histories over 11 geometries and all cache kinds, every result compared with a dictionary, re-opened copies compared completely. Trusts the in-memory NOR flash model."),
 "C02": (X, "model-based runtime monitoring on a monitoring flash",
         "Random histories with out-of-order iterator pops over 11 geometries, one to six pages and all cache kinds, compared with a list model and with re-opened copies."),
 "C03": (F, "crash injection at byte granularity with a model of allowed states",
         "Histories cut at every byte of the writes and erases of a call, then re-opened, repeated crashes during recovery. Erases are cut at ascending prefixes."),
 "C04": (F, "crash injection at byte granularity with a model of allowed states",
         "Histories cut at every byte of the writes and erases of a call, then re-opened, repeated crashes during recovery. Erases are cut at ascending prefixes."),
 "C05": (F, "fault and cancellation injection at every flash access, same object continues, model of allowed states",
         "Failing reads, writes, erases and dropped futures at random and enumerated accesses, all cache kinds, any next call."),
 "C06": (F, "fault and cancellation injection at every flash access, same object continues, model of allowed states",
         "Failing reads, writes, erases and dropped futures at random and enumerated accesses, all cache kinds, any next call."),
 "C07": (X, "differential monitoring: cached and uncached storage in lock step",
         "Results and flash bytes compared after each call, with erase-alls, re-creation with the same cache and interrupted calls."),
 "C08": (X, "flash access monitor under normal, faulty, damaged and arbitrary content workloads",
         "Range, alignment, emptiness, page coverage and buffer alignment of every access."),
 "C09": (X, "flash word program-count monitor",
         "Write counts per word and 0 to 1 transitions, per erase cycle, with the allowance for erased headers derived from the independent decoder."),
 "C10": (X, "erase order monitor",
         "Order, spread and justification of every page erase."),
 "C11": (F, "bit flip injection into stored items with an independent decoder as oracle",
         "Up to three flips in headers, any number in data; every item accounted for afterwards. Runs of 0xFF in an item with a damaged length are a recorded finding."),
 "C12": (F, "transient read disturbance injection, differential against the undisturbed run",
         "One disturbed read per call at random positions, results and flash bytes compared."),
 "C13": (X, "arbitrary content fuzzing with panic, access budget and range monitors",
         "Random, structured, mutated and foreign images in all geometries; every call; works after erase-all."),
 "C14": (F, "sweep of the refusal and eviction decisions of the map against a model of its capacity",
         "Fill levels, item sizes and key counts around every limit; refused calls leave content and flash as they were allowed to."),
 "C16": (F, "fault injection at every flash access of a call, identity of the reported error",
         "Each access of each call fails once; the caller has to see exactly that error."),
 "C17": (X, "round-trip, guard-byte and hostile-input monitoring of the built-in types",
         "Every type with edge and random values, every shorter buffer, mutated and arbitrary input, and stored through the map."),
 "C20": (X, "golden images of version 8.0.1 and an independent decoder and encoder as oracles",
         "88 committed images, every image written by histories decoded independently, images of the independent encoder read and continued."),
 "C21": (X, "constructor results against an arithmetic specification, followed by monitored use",
         "51 geometries at and around all limits with structured and random range ends; smallest pages are used with up to 300 pages."),
 "C23": (F, "buffer lengths as injected faults, model of the content",
         "Random and every length from zero, on the same storage and on copies, iterators continued with longer buffers."),
 "C18": (X, "model-based runtime monitoring of the buffered queue",
         "Ring and list model over several ring sizes and geometries, failing and full flash, short buffers."),
 "C19": (X, "interrupts injected at every critical section and suspension point, threads, acceptance log and waker monitor",
         "Enqueues happen inside the critical-section boundaries and between polls; the log of accepted items decides what flash must hold."),
 "C15": (X, "model-based monitoring of refusals and evictions",
         "Push sizes around all limits, decoded layout decides what must be accepted, refused or evicted."),
 "C22": (X, "flash traffic monitor of read calls, access budgets",
         "No writes on reads, repeatability and access counts per call against a bound with slack of three."),
 "C24": (X, "trial pushes on copies of the flash",
         "Reported numbers compared with actual pushes on a copy and with the decoded layout."),
 "C25": (X, "differential flash read accounting, cached and uncached storage in lock step",
         "Reads and bytes per call compared between cached and uncached, and against what each kind of cache must save, for all cache kinds and geometries."),
}
checks = []
for p in props:
    if p["id"] not in CHECKS:
        continue
    level, tech, note = CHECKS[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "technique": tech, "level": level, "level_note": note})
na = [{"property": p["id"], "reason": "its check is still being built"} for p in props if p["id"] not in CHECKS]
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything is observed through the flash traits and the public API."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")

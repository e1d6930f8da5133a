#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = "deterministic simulation with fault injection"
claims = {
 "C01": ("exploration", T + ": seeded editing sessions on several interleaved sources with torn reloads and rejected edits, against a fresh parse after every step",
         "Seeded sampling; the fresh parse of the same tree is the oracle, so a defect that affects both alike is not seen here (C04 and C13 see some of them). In math mode the character classes are those of a stand-in table."),
 "C02": ("exploration", T + ": seeded editing sessions, positions checked against counting through the text after every step",
         "Seeded sampling; oracle is an independent counting implementation in the harness."),
 "C03": ("exploration", T + ": seeded editing sessions long enough to exhaust span numbers, span invariants and lookups after every step",
         "Seeded sampling; invariants checked over the whole tree after every step."),
 "C04": ("exploration", T + ": documents as damaged storage delivers them (cut, torn, overwritten, bit-flipped), parsed under a step budget",
         "Seeded sampling; work is counted in simulated steps (function entries and loop iterations of the instrumented parser). In math mode the character classes are those of a stand-in table."),
 "C05": ("exploration", T + ": a seeded scheduler interleaves parsing and editing tasks at every step of the instrumented code, under the race detector, against each task run alone",
         "Seeded sampling of schedules; tasks share nothing but the library's package state. Part of the runs are built with the race detector, which judges each executed interleaving."),
 "C06": ("exploration", T + ": a seeded scheduler interleaves tasks that intern file identities; the history is checked for linearizability against a map",
         "Seeded sampling of schedules; part of the runs are built with the race detector."),
 "C07": ("exploration", T + ": update-typ run whole on a simulated machine over seeded projects, package sets, map and listing orders, against a model of the result",
         "Seeded sampling; the model follows from how a project was generated, not from parsing it."),
 "C08": ("fault_enumeration", T + ": update-typ on a simulated disk with a fault or kill at its system calls (every one of small runs, a sample of larger ones), full and failing disks; all project files checked after every system call",
         "A kill keeps what was written before it; the order in which a real disk makes unsynced writes durable is modelled only by the power-loss plan."),
 "C09": ("exploration", T + ": offline-typ run whole on a simulated machine over seeded projects, packages, resources, map and listing orders, against a model of the output",
         "Seeded sampling; the model follows from how a project was generated, not from parsing it."),
 "C10": ("fault_enumeration", T + ": offline-typ on a simulated disk with a fault or kill at its system calls (every one of small runs, a sample of larger ones), full and failing disks",
         "Everything outside the output directory is compared after every system call that can write."),
 "C11": ("fault_enumeration", T + ": up to four killed or failed runs of a tool on one simulated disk, then a clean one, compared with an undisturbed run",
         "Seeded sampling of histories; the first disturbance is tried at every system call of small runs."),
 "C12": ("exploration", T + ": a tool run several times on the same project with other map and listing orders, directories and path forms; results compared",
         "Seeded sampling of orders; every map iteration and listing draws its order from the seed."),
 "C13": ("fault_enumeration", T + ": parse-typ on a simulated machine with faults, short transfers, kills and full disks on input and standard output, against the tree printed by the harness",
         "The expected output is rendered by the harness from the parsed tree."),
 "C20": ("exploration", T + ": seeded editing sessions, the neighbours of nodes of the edited tree visited in all ways, and walks over it, and compared with a flat list of its nodes",
         "Seeded sampling of nodes and offsets after every step. Unexported navigation methods are reached through an accessor generated into the instrumented copy."),
 "C21": ("exploration", T + ": seeded editing sessions on damaged and well-formed texts, the highlighted text parsed back and compared with that of a fresh parse after every step, under a step budget",
         "Seeded sampling. Which tag a node gets is judged by C18, here only that it does not depend on history or on the way to the node. Unexported functions are reached through an accessor generated into the instrumented copy."),
 "C17": ("exploration", T + ": seeded editing sessions that damage (torn reloads, random edits) and repair well-formed documents, whose tree is compared with the constructs known from their generation",
         "Seeded sampling. The expected constructs come from the rules the documents were generated by, which cover a large part of the Typst grammar, not all of it; the reference implementation is not available here."),
 "C22": ("exploration", T + ": seeded editing sessions that change (torn reloads, random edits) documents with mistakes and bring them back; errors and constructs of the tree compared with those known from their generation",
         "Seeded sampling. The expected errors come from the rules the documents were generated by, which cover most messages the parser has, each in some of the places it can occur."),
 "C18": ("exploration", T + ": seeded editing sessions that damage and repair documents; after every step each element of the highlighted text compared with an independent table and rules over a flat list of the nodes",
         "Seeded sampling. Bytes that are not valid UTF-8 are left to C21. Unexported functions are reached through an accessor generated into the instrumented copy."),
 "C15": ("exploration", T + ": update-typ over seeded package graphs and map orders; reports on simulated standard error against a reachability model",
         "Seeded sampling; the model follows from how the packages were generated."),
 "C14": ("exploration", T + ": seeded editing sessions with injected invalid edits, against a twin source that never sees them",
         "Seeded sampling; the twin runs the same code without the rejected edits."),
}
na = {
 "C16": "Parsing specs, versions and manifests is a pure function of one short string: there is no schedule, clock, fault or history for a simulator to decide. Its effects inside the tools are covered by C07, C09 and C15.",
 "C19": "Bit-set operations and span packing are pure functions of integers: no schedule, clock, fault or history. Spans over edit histories are covered by C03.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
pending = "No check yet."
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in claims:
        l, t, n = claims[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, pending)})
m["notes"] = "No hooks in /repo: the checks instrument a copy of its sources while building (sim/simgen, go build -overlay)."
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")

#!/usr/bin/env python3
"""Writes MANIFEST.json and checks it against properties.jsonl."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
TRUST = ("Seeded search, not a proof: it samples histories. Trusted: the harness' specification model, reference parser and "
         "renderer, the standard library, rustc. No hooks in /repo; the whole library is the real code.")

CLAIMS = {
 "C01": ("exploration", T + "writer and reader nodes over a simulated pipe with stalls, short transfers and EINTR; read-back compared with the circuit's model",
         "Every circuit of the model written and read back over the simulated transport must be the same circuit, module identities and all, and its text a fixed point."),
 "C02": ("exploration", T + "sources splitting, delaying and interrupting transfers; outcome compared with that of parsing the delivered bytes from memory",
         "Partition of the transfer, EINTR, stalls and sizes must not matter, for good and bad texts alike."),
 "C03": ("fault_enumeration", T + "sources failing with every error kind or delivering invalid UTF-8 at seeded positions; error compared with the one injected",
         "Whatever arrived before, the source's own error must be returned, once, and nothing must be read after it."),
 "C04": ("fault_enumeration", T + "writer crashes, power loss, full disks and early ends tearing the text at seeded bytes; result compared with what the complete lines denote",
         "A torn text must be an error or mean exactly its complete lines."),
 "C05": ("exploration", T + "17 kinds of storage and transit damage and power loss; result compared with an independent reading of the damaged text",
         "Damaged text must be an error or mean what it says, without panic, abort, hang or excessive work."),
 "C06": ("fault_enumeration", T + "sinks failing at seeded (small ones: every) calls and bytes",
         "The sink must hold a prefix of the text, see no write after its failure, and the failure must be reported."),
 "C07": ("exploration", T + "simulated module sources failing and ending at seeded points, compared with an executable model of the consumer",
         "Every answer and every request made to the source must be the model's."),
 "C08": ("exploration", T + "seeded histories of stepping, look-ups and additions on iterators over damaged texts, compared with a model",
         "Modules must come in order, be linked by identity to the definition known at that time, and all ways of reading must agree."),
 "C09": ("exploration", T + "caller threads as tasks under a seeded scheduler preempting at I/O, allocations, lock and atomic operations and control flow edges of the library; results compared with those of running alone",
         "Every operation on shared objects must yield what it yields alone, under every schedule explored."),
 "C10": ("exploration", T + "tasks with hash seeds, heap layouts and map histories of their own; texts and errors compared",
         "Text and errors must not depend on hash seeds, heap addresses, map histories or the origin of equal circuits."),
 "C11": ("fault_enumeration", T + "panics and nested library operations injected into every kind of caller code the library calls",
         "A panic must arrive unchanged, nested and later operations must work as if nothing had happened."),
 "C12": ("exploration", T + "seeded histories of nested scopes ended by return, drop and unwinding, compared with a model of the scopes",
         "Look-ups, hand-over and calls reaching a caller-defined parent must be the model's, by identity."),
 "C13": ("exploration", T + "histories of operations with faults on a simulated heap which accounts for every allocation",
         "Repeating a history must not make the memory in use grow."),
 "C15": ("exploration", T + "large, nested, repetitive and damaged texts delivered by simulated sources; steps, allocations and peak memory on the simulated heap compared with the text's size and between sizes",
         "Each operation must stay within a fixed multiple of its input or output, and each further byte must cost what those before did."),
 "C16": ("exploration", T + "many open walks, whose steps several tasks take in random order while others change, drop, read and write; items compared by address with what is found by taking the data structures apart",
         "Each walk must yield exactly what is there, whatever becomes of the others."),
 "C17": ("exploration", T + "histories of operations on a pool of objects shared by several tasks, calling code of the caller which switches tasks, re-enters the library or panics; compared with models after each step",
         "Each object must be its model, whatever happened to its copies and to other objects."),
 "C14": ("exploration", T + "modules from several sources, some of which fail midway, recombined and compared with the model by content and identity",
         "Modules must survive their sources unchanged, and whatever they are combined to must be written and read like any other circuit."),
}

PURE = ("A pure function of a value: no I/O, schedule, fault, time or history it could depend on, so there is nothing for a simulator to decide "
        "(input generation alone would not be this technique). ")
NA = {
 "N01": PURE + "The simulator only checks that types determined concurrently and after round trips equal those determined alone (C09).",
 "N02": PURE + "The simulator only checks that flows determined concurrently equal those determined alone (C09).",
 "N03": PURE,
 "N04": PURE,
 "N06": PURE + "That error texts are the same for every way of reading and every process is part of C08 and C10.",
}

def main():
    props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
    ids = [p["id"] for p in props]
    done = set(sys.argv[1:]) or set(CLAIMS)
    checks, na = [], []
    for i in ids:
        if i in CLAIMS and i in done:
            level, tech, note = CLAIMS[i]
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                           "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note + " " + TRUST})
        elif i in CLAIMS:
            na.append({"property": i, "reason": "its check is under construction"})
        else:
            na.append({"property": i, "reason": NA[i]})
    m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
         "notes": "replay a violation: ./replay.sh FILE. See DESIGN.md. No hooks are needed in /repo; known and fixed defects are listed in known_findings.txt."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()

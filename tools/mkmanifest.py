#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
T = {}
def c(i, level, tech, note):
    T[i] = (level, tech, note)
REAL = "The real library code is executed for every transition (no separate model to drift). Trusted: the reference map, the harness, rustc. "
c("T01", MC, "explicit-state exploration of the real tree against an ordered-map reference", REAL + "Exhaustive over all contents and all histories (to closure) of the stated key and value universes; larger universes are outside.")
c("T02", MC, "explicit-state exploration; all queries in every reachable state", REAL + "Exhaustive over states x probe strings x substitutions of the stated universes.")
c("T03", MC, "exhaustive enumeration of operand pairs and predicates", REAL + "Exhaustive over all pairs of contents of the stated universes and all predicates on their values.")
c("T04", MC, "exhaustive enumeration of operand pairs and combiner functions", REAL + "Exhaustive over all pairs of contents of the stated universes and a complete set of combiner decision tables.")
c("T05", MC, "exhaustive enumeration of operand pairs, in-place combiners, converters and sharing", REAL + "Exhaustive over all pairs of contents of the stated universes.")
c("T06", MC, "exhaustive enumeration of operand pairs and predicates", REAL + "Exhaustive over all pairs of contents of the stated universes.")
c("T07", MC, "exhaustive enumeration of descend decision tables in every state", REAL + "Exhaustive over contents x decision tables of the stated universes.")
c("T08", MC, "explicit-state exploration with representation fingerprints; all state pairs compared", REAL + "Exhaustive over the reachable graph of the stated universes, including results of combinations.")
c("T09", MC, "exhaustive enumeration of snapshot, mutation and drop orders", REAL + "Exhaustive over states x snapshots x operations, and over all short multi-handle programs.")
c("T10", MC, "exhaustive enumeration of programs and drop orders under a checking allocator", REAL + "The allocator checks every block for double release, size mismatch, overrun and writes after release, and balances to zero at the end of each program; reads after release are detected by poisoned content only.")
c("T11", MC, "exhaustive enumeration of states and operations with allocation accounting", REAL + "Differential: what an operation allocates may not grow with content it does not concern. Measured in bytes requested from the allocator, with a fixed slack.")
c("S01", MC, "explicit-state exploration of attached trees over several stores", REAL + "Exhaustive over contents and persistence states of the stated universes.")
c("S02", MC, "explicit-state exploration; all queries in every persistence state", REAL + "Exhaustive over contents x persistence states x queries of the stated universes.")
c("S03", MC, "explicit-state exploration and exhaustive operand-pair enumeration over attachment forms", REAL + "Exhaustive over operations x operand pairs x attachment forms of the stated universes.")
c("S04", MC, "explicit-state exploration with all persisted versions re-read", REAL + "Exhaustive over the stated version histories.")
c("S05", MC, "exhaustive enumeration of contents, histories and encodings against an independent codec", REAL + "The independent decoder and encoder in the harness are trusted.")
c("S06", FE, "exhaustive single-fault and permanent-fault injection at every store call and combiner call", REAL + "Exhaustive over operations x states x failing call of the stated universes.")
c("S07", EX, "exhaustive enumeration of truncations, mutations and short byte strings as blocks", REAL + "Out-of-bounds reads are detected by guard pages; self-referring blocks are excluded as stated.")
c("S08", MC, "explicit-state exploration with all store accesses recorded and compared with an independent decoding of the blocks", REAL + "Exhaustive over contents x changes x operations of the stated universes. A block may be read twice by one operation.")
c("S09", FE, "exhaustive crash points, power-loss subsets and file faults over recorded histories of trees in a file", REAL + "Assumes that the 8 byte header update is atomic; fsync and fdatasync flush everything before them. Exhaustive over the stated histories; power loss: all subsets of the last 5 (thorough 9) unsynced effects, earlier ones all or none.")
c("P06", MC, "exhaustive enumeration of write/read/reopen histories against an independent reader and writer of the file layout", REAL + "The independent codec in the harness is trusted. Far offsets are reached by a file with a hole in place of earlier blobs.")
c("P07", MC, "exhaustive enumeration of store histories, failing file operations and drop orders with allocator, mapping and descriptor accounting", REAL + "Exhaustive over the stated operations, faults and drop orders. Limits are stated with a fixed slack; what is held is read from the allocator and the kernel.")
c("P01", MC, "exhaustive enumeration of write/read/reopen histories against a log reference", REAL + "Exhaustive over the stated blob sizes, page sizes and history lengths.")
c("P02", FE, "exhaustive crash points over a recorded log of file effects", REAL + "Assumes that the 8 byte header update is atomic at a crash; other writes may tear at any byte.")
c("P03", FE, "exhaustive power-loss subsets over a recorded log of file effects", REAL + "Assumes that the 8 byte header update is atomic; fsync and fdatasync flush everything before them.")
c("P04", FE, "exhaustive injection of failing and short file operations", REAL + "Faults are injected at the libc boundary.")
c("P05", EX, "exhaustive enumeration of ids and blob sizes on reachable stores", REAL + "Exhaustive over short ids and all offsets of small stores.")
c("B01", EX, "exhaustive enumeration of ranges, derivations and drop orders", REAL + "Exhaustive over small blobs.")
SCHED = REAL + "Scheduling points are all atomic operations of the library (instrumented build), locks and file operations; parking_lot is replaced by a stand-in with the same interface. Interleavings are sequentially consistent; accesses that the memory orderings used do not order are reported as races."
c("C01", MC, "stateless exploration of thread interleavings of the real code, bounded preemptions, vector-clock race detection, brute-force linearizability", SCHED)
c("C02", MC, "stateless exploration of thread interleavings of the real code, bounded preemptions, vector-clock race and use-after-release detection", SCHED)
CLAIMED = os.environ.get("CLAIMED", "").split() or open(os.path.join(root, "tools", "claimed.txt")).read().split()
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "technique": "model checking: " + T[i][1],
            "level": T[i][0],
            "level_note": T[i][2],
        }
        for i in props if i in CLAIMED
    ],
    "not_applicable": [{"property": i, "reason": "the check for this property is not built yet"} for i in props if i not in CLAIMED],
    "notes": "No hooks in /repo: the harness uses the public interface, interposes libc file operations at link time, and patches the parking_lot dependency with a shim. Design and results: DESIGN.md; repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

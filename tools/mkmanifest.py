#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
T = "deterministic simulation with fault injection: "
common = (" Sampling, not enumeration: a quiet run is evidence, not proof. One seed is one exactly repeatable execution; "
          "interleaving points are statements of the code under test, on Go 1.21/amd64.")
C = {
 "C01": ("seeded histories of calls with injected document damage and callback failures, panics and goroutine exits, against a new decoder per call",
         "Every call on the reused decoder is repeated on a deep copy of the destination with a newly created decoder (the oracle is the code itself without history)."),
 "C02": ("seeded histories of several decoders over one tokenizer with injected faults, in lock-step with a tokenizer per decoder",
         "The oracle is the same history with private tokenizers."),
 "C03": ("seeded scheduler interleaving tasks at every statement, against each task alone, under the race detector with the scheduler's hand-offs hidden from it",
         "Results under the interleaving are compared with solo results; the race detector sees no synchronisation but the code's own, so that shared unsynchronised state is reported whatever the order."),
 "C04": ("seeded nesting of further calls inside user unmarshalers, with failures and panics, against the same calls alone",
         "Outer calls are compared with a run without nested calls, nested ones with the same call alone."),
 "C05": ("collections, stack moves and heap reuse injected at seeded statements, with freed memory clobbered, against the undisturbed run",
         "The collector runs only where the simulator puts it; freed memory is clobbered, hence a lost reference shows."),
 "C06": ("seeded histories into guarded destinations and guarded inputs, with document damage, under AddressSanitizer",
         "Guard words, excluded fields, capacity tails, inputs and other destinations are compared bit by bit; AddressSanitizer watches reads and writes in the instrumented code."),
 "C07": ("seeded histories in which the simulator overwrites inputs and modifies decoded values after every call",
         "Values are recorded after their own call and compared after every later event; memory ranges of values and inputs must be disjoint."),
 "C08": ("transport faults on documents (truncation, bit flips, lost, repeated, reordered, inserted parts, trailing garbage) in seeded histories",
         "encoding/json.Valid decides well-formedness; the destination must be untouched and no unmarshaler called; later calls agree with a new decoder."),
 "C09": ("injected failures, panics and goroutine exits at the n-th delivery of seeded histories, against a reference walk of the document",
         "The reference walk is itself compared with the deliveries of encoding/json on every document where that defines an order."),
 "C10": ("collections after every call of seeded histories that fail, panic or exit, with finalizers on everything the call saw",
         "Reachability is decided by the collector itself."),
 "C11": ("seeded histories over live destinations, every step compared with a reference model (encoding/json) on a deep copy, including what the caller refers to",
         "encoding/json of Go 1.21 is the model. Domains in which the package documents or evidently intends otherwise are excluded and listed in DESIGN.md."),
 "C12": ("seeded histories of faults followed by inflated documents; simulated steps, bytes given to library functions and bytes allocated must grow in proportion to the input",
         "Steps are statements executed, library functions are charged with the bytes they are given; both are independent of the machine's speed. Time spent inside the tokenizer and the runtime is only bounded by a watchdog and by bytes allocated."),
 "C13": ("seeded histories replayed to four replicas, one per entry point, compared after every call",
         "The oracle is the agreement of the replicas; deterministic."),
 "C17": ("seeded histories of calls with documents that hold misfitting values at random places, against a reference walk of the document",
         "The walk finds the first misfit in document order; whether a single value or key fits is left to encoding/json."),
}
NA = {
 "C14": "A pure function of one literal: no schedule, clock, fault, history or second party for the property to depend on. Not a simulation target. (The C11 histories decode boundary and overflowing integers of every width against encoding/json as part of their workload, hence such defects show up there.)",
 "C15": "A pure function of one literal, as C14. (The C11 and C13 histories contain escapes of every kind as part of their workload.)",
 "C16": "A pure function of a type, a key and the options, as C14. (The C11 histories contain renamed, case-folded, escaped, ignored and string-tagged fields as part of their workload.)",
}
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [{
   "property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
   "evidence_file": f"evidence/{k}.json", "technique": T + t, "level": "exploration", "level_note": n + common,
 } for k, (t, n) in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "The statement hooks are inserted into a build overlay generated by the checks from /repo's working tree (sim/cmd/instr); nothing is committed to /repo for them, hence no hooks entry. Replay a violation with: bash replay.sh FILE.",
}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(p, "w").write(json.dumps(m, indent=1) + "\n")

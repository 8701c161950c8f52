#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
hist = "runtime monitoring: random update histories, every view audited online against a reference model"
tech = {
 "C09": "runtime monitoring: histories over three graphs with copies between them, audited against reference models",
 "C10": "runtime monitoring: round trips with an independent strict document reader as oracle",
 "C11": "runtime monitoring: generated equivalent and defective documents against a reference reading",
 "C12": "runtime monitoring under fault injection: writers, readers and callbacks failing at every point",
 "C13": "runtime monitoring: output parsed back by an independent DOT reader and compared with the model",
 "C14": "runtime monitoring: results compared as multisets with a reference matcher",
 "C15": "runtime monitoring: results compared as multisets with a reference trail enumeration",
 "C16": "runtime monitoring: metamorphic runs (indexes, bindings) compared with a reference matcher",
 "C17": "runtime monitoring: online check of every reported path against a reference trail enumeration",
 "C18": "runtime monitoring: operation sequences against a model of paths, graph audited after each",
 "C19": "runtime monitoring: listings and walks against the model's edge relation",
 "C20": "runtime monitoring: answers compared with a brute-force decision, callbacks monitored",
 "C21": "runtime monitoring: order axioms and a reference order over generated values",
 "C22": "runtime monitoring: operation sequences on sets against reference sets",
 "C23": "race detector plus online comparison with a reference model under concurrent workloads",
 "C25": "runtime monitoring: instrumented property values count inspections, compared with a bound from the model",
 "C27": "runtime monitoring: operations on large graphs timed against a full walk of the same graph",
 "C28": "runtime monitoring: weak pointers and heap size inspected after garbage collection, over update histories",
 "C30": "runtime monitoring: loops that update what they iterate over, compared with the model's selection, all views audited afterwards",
 "C31": "runtime monitoring: whole-graph operations timed at two sizes, ratio compared with the ratio of the sizes",
 "C32": "runtime monitoring: errors and matches of patterns with misused variables, compared with a reference matcher",
 "C33": "runtime monitoring: streams of documents decoded and compared with the models, rest of the stream and identity of keys inspected",
 "C35": "runtime monitoring: repeated runs of one plan, each compared with a reference matcher",
 "C36": "runtime monitoring under fault injection: panics, goroutine exits, errors and updates in callbacks, all views audited afterwards",
 "C29": "runtime monitoring: text forms read back and compared with a reference model",
}
note = {
 "C20": "The reference tries every bijection within node classes, so graphs are limited to 6 nodes, or 12 with small classes.",
 "C23": "The race detector sees accesses unordered by happens-before on the executions run, not every interleaving.",
 "C25": "Counts inspections of property values through GetNativeValue; work that inspects no value is not counted.",
 "C27": "An operation fails only if its best of many attempts takes more than a tenth of a full walk, so constant-factor slowdowns are not seen.",
 "C31": "An operation fails only if its best of 12 tries takes 24 times as long for a size 8 times as large, so logarithmic and constant factors are not seen.",
 "C28": "Values kept as index keys are outside the property; growth below 12 bytes per object and cycle is not seen.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
        technique=tech.get(i, hist), level="exploration",
        level_note=("Holds on every execution observed; inputs are sampled (case counts fixed, seed from VERIF_SEED), not enumerated; domain limits are in DESIGN.md. " + note.get(i, "")).strip()))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="The harness is an external Go module that uses only the public API of /repo's working tree; no hooks are needed. run.sh ID quick -replay FILE replays a violation. KNOWN_FINDINGS.txt lists repaired defects.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")

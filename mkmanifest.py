#!/usr/bin/env python3
"""Regenerates MANIFEST.json."""
import json
T = {
 "J01": "runtime monitoring: strict RFC 8259 parser as oracle over the bytes written for generated values",
 "J02": "runtime monitoring: decoded JSON compared with a reference model of the data, with re-delivered streams and with serde_json",
 "J03": "runtime monitoring with fault injection: destinations that write short, are interrupted, refuse or fail at every point",
 "J04": "runtime monitoring: exact decimal comparison of number text in and JSON number out, over fragmentations and positions",
 "T01": "runtime monitoring: rendering read back piece by piece against a reference model; fault injection at every write",
 "B01": "runtime monitoring: recorded call traces of replays compared with the original's trace, over capture routes and reuse histories",
 "B02": "runtime monitoring: contents and addresses of collected fragments checked against the fragments sent, allocator and allocator-less builds, failing values injected",
 "S01": "runtime monitoring: recorded call traces through generated stacks of value and stream wrappers compared with the unwrapped trace",
 "S02": "runtime monitoring: traces received by streams overriding generated subsets of methods compared with a reference lowering of the data",
 "S03": "runtime monitoring: conversion results compared with exact reference arithmetic over boundary values and generated wrappers",
 "S04": "runtime monitoring: histories of label, index and tag operations checked against a reference model (text, hint, hash, order, address)",
 "S05": "runtime monitoring: traces of built-in implementations parsed by a grammar checker and compared with the Rust value's contents",
 "S06": "runtime monitoring with fault injection: a rejecting recorder fails every call in turn under every source and adapter; values are failed at every step under every output",
 "S07": "runtime monitoring: addresses of every long-lived fragment traced to lent or static memory, and kept fragments re-read after all adapters are gone and memory is reused",
 "N01": "runtime monitoring: recursive recorders rebuild the value and are compared with a reference model; failing recorders and failing values injected",
 "E01": "runtime monitoring: a recording serde Serializer whose trace is compared with a reference model of the value; serde_json as a second reader; failing serializers and values injected",
 "E02": "runtime monitoring: recorded sval streams of arbitrary serde data compared with a reference model; serde_json as differential oracle; failing streams and Serialize impls injected",
 "F01": "runtime monitoring: the parent stream records every call, compared with a reference model of documented flattening; offsets and pairing checked",
 "D01": "runtime monitoring: random type definitions compiled with the derive macro; recorded calls of their values compared with a reference model of the definition",
 "D02": "runtime monitoring: random faulty definitions, each beside its sound twin, run through the real macro in the compiler; the diagnostics of every definition are the recorded events, compared with where the fault was put",
 "G01": "runtime monitoring: recorded tokens compared with an independent recorder's trace; assertions put to equal, minimally changed and failing streams",
 "X01": "runtime monitoring: recorded calls of documents read compared with the generated document; rejected calls and missing brackets injected",
 "M01": "sanitizers: Miri (aliasing, bounds, initialisation, leaks, data races) and AddressSanitizer over generated histories of labels, buffers, wrappers, unwinding and threads",
}
L = {}
NOTES = {}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
  hooks=dict(guard="none", enable="none needed: all observation happens through public traits", source_commits=[]),
  checks=[], not_applicable=[], notes="see DESIGN.md")
for i in ids:
    if i not in T:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
        continue
    m["checks"].append(dict(property=i, quick_cmd="bash /verif/run.sh %s quick" % i, thorough_cmd="bash /verif/run.sh %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=T[i], level=L.get(i, "exploration"),
        level_note=NOTES.get(i, "held on the executions produced; every execution is judged by the oracle named in DESIGN.md")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

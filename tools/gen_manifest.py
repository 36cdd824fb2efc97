#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the CHECKS table and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "exhaustive bounded exploration of the real code against a reference model (stateless model checking)"
CONC = "exhaustive exploration of thread interleavings of the real code under a controlled scheduler (stateless model checking with sleep sets)"
T = {
 "C01": (SEQ, "model_checking", "every edit/parse history up to the depth bound over colliding keys; all lookups compared with the reference catalog after every step"),
 "C02": (SEQ, "model_checking", "every reached catalog state x lookup kind x prefix/capacity x argument list; bytes compared with the Get twin, spare capacity and aliasing monitored"),
 "C04": (SEQ, "model_checking", "all expressions of the grammar up to the size bound x renderings, each evaluated at all boundary n; reference C evaluator"),
 "C05": (SEQ, "model_checking", "all token strings up to the bound, catalogs with such headers; panic, hang, goroutine leak and default-rule monitors"),
 "C06": (SEQ, "model_checking", "all bounded documents x layout vectors; loaded catalog compared with the denoted one"),
 "C07": (SEQ, "model_checking", "all bounded line sequences, junk at every position, every truncation; the surviving entries compared with the model"),
 "C08": (SEQ, "model_checking", "all bounded catalogs x MO layouts; MO object compared with the PO object and the model"),
 "C09": (SEQ, "fault_enumeration", "every truncation and every field corruption of a set of MO images, alone and in pairs; state unchanged, memory and panic monitors"),
}
EXTRA = {}
try:
    exec(open(os.path.join(V, "tools", "manifest_more.py")).read())
except FileNotFoundError:
    pass
TRUST = " Trusted: the Go toolchain, the reference model in mc/ref, and the bounds stated in DESIGN.md and the evidence file."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, lvl, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"bash check.sh {i} --thorough",
            evidence_file=f"evidence/{i}.json", technique=tech, level=lvl, level_note=note + TRUST))
    else:
        na.append(dict(property=i, reason="check under construction: not yet claimed"))
m = dict(version=1, setup_cmd="bash check.sh --build", checks=checks, not_applicable=na,
    notes="No hooks in /repo: instrumentation (controlled scheduler, map-iteration control) is put in at build time through go build -overlay from /repo's current sources.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Rewrites /verif/BOUNDS.md from the evidence files of the latest runs of all checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["# Suites and bounds of every check (quick tier), as recorded by the last run of all checks", "",
       "Written by tools/gen_bounds.py from evidence/*.json. `cases` are the enumerated cases; a concurrent case is a program, and `executions` are its schedules.", ""]
for p in [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]:
    e = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))
    if len(sys.argv) > 1 and sys.argv[1] == "-k":
        print(json.dumps(e, indent=1)[:3000]); break
    sp = e.get("suites") or e.get("coverage", {}).get("suites") or []
    out += ["## %s — %s" % (p["id"], p["title"]), "", "| suite | cases | executions | steps | complete | enumerated |", "|---|---|---|---|---|---|"]
    for s in sp:
        out.append("| %s | %d | %d | %d | %s | %s |" % (s["suite"], s["cases"], s["executions"], s["transitions"], "yes" if s["complete"] else "no", s["bound"].replace("|", "\\|")))
    out.append("")
open(os.path.join(V, "BOUNDS.md"), "w").write("\n".join(out))

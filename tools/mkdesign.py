#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, design_props.json and the
spaces declared in the code, with the quick counts of the last evidence) + tools/design_tail.md."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(R, p)).read()
notes = json.loads(rd("tools/design_props.json"))
out = [rd("tools/design_head.md").rstrip(), "", "## The properties, one by one", ""]
for line in rd("properties.jsonl").splitlines():
    p = json.loads(line)
    i = p["id"]
    out += ["### %s  %s" % (i, p["title"]), "", notes[i], "", "Spaces (bounds of `thorough` in brackets where they differ; size in the quick tier):", ""]
    ev = os.path.join(R, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        for n, s in e["coverage"]["spaces"].items():
            out.append("- `%s`: %s. %d cases, %d states, %d transitions." % (n, s["doc"], s["cases"], s["states"], s["transitions"]))
    out.append("")
out += ["## Planted bugs (seeded/), and which check catches which", "",
        "Each passes the existing tests, has a demonstration, and was run against its property's quick check: all are caught now.", "",
        "| bug | caught by | what it needs | first result, if missed |", "|---|---|---|---|"]
sn = json.loads(rd("tools/seeded_notes.json"))
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.loads(rd("seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), sn.get(d, "")))
out.append("")
out.append(rd("tools/design_tail.md").rstrip())
open(os.path.join(R, "DESIGN.md"), "w").write("\n".join(out) + "\n")

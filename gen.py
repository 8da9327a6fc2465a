#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py (run after editing it)."""
import json
from props import P, NOT_APPLICABLE
from checks import CHECKS
KIND = {"mc": "stateless model checking of the implementation (controlled scheduler, bounded exhaustive)",
        "seq": "bounded exhaustive state-space enumeration of the implementation against a reference model"}
na = {x["property"] for x in NOT_APPLICABLE}
with open("properties.jsonl", "w") as f:
    for d, note in P:
        f.write(json.dumps(d, sort_keys=False) + "\n")
        assert len(d["title"]) <= 80, d["id"]
checks = []
for d, note in P:
    if d["id"] in na: continue
    c = CHECKS[d["id"]]
    kinds = []
    for q in (c["parts"] if "parts" in c else [c]):
        k = KIND["mc" if q["kind"] == "mc" else "seq"]
        if k not in kinds: kinds.append(k)
    checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"], thorough_cmd="python3 check.py %s thorough" % d["id"],
                       evidence_file="evidence/%s.json" % d["id"], technique="; ".join(kinds), level="model_checking",
                       level_note=note + "Bounds: " + d["quantifier"]["text"] + "."))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=NOT_APPLICABLE,
         notes="No hooks in /repo: the checks interpose pthread, clock, socket and file calls at link time. VERIF_REPO can point the checks at another tree.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
# DESIGN.md
ns = {}
exec(open("doc/oracle.py").read(), ns)
O = ns["O"]
with open("DESIGN.md", "w") as f:
    f.write(open("doc/head.md").read())
    f.write("## The properties and how each is decided\n\nCosts are wall-clock seconds of the quick check on 8 cores, building included; the thorough checks use the larger bounds named in `MANIFEST.json` and take minutes to tens of minutes.\n")
    for d, note in P:
        how, cost = O[d["id"]]
        f.write("\n### %s %s\n\n%s\n\n" % (d["id"], d["title"], d["statement"]))
        f.write("* Decided by: %s\n* Explored: %s.\n* Why tests cannot settle it: %s\n* Quick check: about %d s.\n" % (how, d["quantifier"]["text"], d["why_tests_cant"], cost))
    f.write(open("doc/tail.md").read())
    for l in open("known_findings.txt"):
        if l.startswith("fixed:"):
            w = l.split(None, 3)
            f.write("* %s (%s): %s" % (w[1].split("=")[1], w[2], w[3]))
    f.write("\n")
    f.write(open("doc/seeds.md").read())
    import glob, os
    for d in sorted(glob.glob("seeded/*/meta.json")):
        j = json.load(open(d))
        f.write("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), j["needs"].replace("|", "/"), j["what_it_breaks"].replace("|", "/"), j["property"]))

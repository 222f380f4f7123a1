#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py and the modules in props/."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from table import P, NA  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, e["title"]
        f.write(json.dumps(e) + "\n")
checks, na = [], [dict(property=k, reason=v) for k, v in NA.items()]
for e in P:
    i = e["id"]
    if i in NA:
        continue
    path = os.path.join(HERE, "props", i.lower() + ".py")
    if not os.path.exists(path):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    src = {}
    text = re.sub(r"^from props[^\n(]*(\([^)]*\))?[^\n]*$", "", open(path).read(), flags=re.M)
    exec(compile(text, path, "exec"), src)
    b = src["BOUNDS"]
    b = b if isinstance(b, str) else "quick: %s; thorough: %s" % (b["quick"], b["thorough"])
    a = ("Assumes: " + "; ".join(src["ASSUMES"]) + ". ") if src["ASSUMES"] else ""
    checks.append(dict(
        property=i, quick_cmd="python3-vt run.py %s quick" % i, thorough_cmd="python3-vt run.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="symbolic execution of the Python source with z3 deciding every branch and assertion",
        level="model_checking",
        level_note=("Bounded: z3 decides the assertions for all values on every path within the bounds (%s). Outside: %s. %sTrusts the "
                    "engine's models of str, int, float, datetime, uuid, XML infoset and files (DESIGN.md), which are compared with "
                    "the real code on a witness of the explored paths at every run; every counterexample is replayed on the real "
                    "code before it is reported.") % (b, src["OUTSIDE"], a)))
m = dict(version=1, setup_cmd="python3-vt tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="One symbolic execution engine (symx/) runs the current source of /repo; one module per property in props/. "
               "See DESIGN.md. Known findings: known_findings.json.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# ---------------------------------------------------------------- DESIGN.md
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip("\n"), "", "## Per property", ""]
by = {c["property"]: c for c in checks}
why = {x["property"]: x["reason"] for x in na}
for e in P:
    i = e["id"]
    out.append("### %s %s" % (i, e["title"]))
    out.append("")
    if i not in by:
        out += ["Not applicable: " + why[i], ""]
        continue
    path = os.path.join(HERE, "props", i.lower() + ".py")
    src = {}
    text = re.sub(r"^from props[^\n(]*(\([^)]*\))?[^\n]*$", "", open(path).read(), flags=re.M)
    exec(compile(text, path, "exec"), src)
    b = src["BOUNDS"]
    b = [("Bounds", b)] if isinstance(b, str) else [("Bounds (quick)", b["quick"]), ("Bounds (thorough)", b["thorough"])]
    out.append("Executed symbolically: " + ", ".join("`%s`" % f.replace("src/opyenxes/", "") for f in e["anchors"]["files"])
               + " and what they call. Oracle: the statement, as assertions in `props/%s.py`." % i.lower())
    out += ["", "* Symbolic: " + e["quantifier"]["text"]]
    out += ["* %s: %s" % (k, v) for k, v in b]
    if src.get("OUTSIDE"):
        out.append("* Outside: " + src["OUTSIDE"])
    if src.get("ASSUMES"):
        out.append("* Assumes: " + "; ".join(src["ASSUMES"]))
    out += ["* Why tests cannot settle it: " + e["why_tests_cant"], ""]
kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out += ["## Known findings (recorded, not repaired)", ""]
out += ["* %s `%s`: %s. Input: `%s`. Site: %s. %s" % (k["property"], k["id"], k["what"], k["input"], k["site"], k.get("why", ""))
        for k in kf if k["status"] == "open"]
out += ["", "## Defects found and repaired in /repo", ""]
out += ["* `%s`" % k["entry"] for k in kf if k["status"] == "fixed"]
out += ["", "## Planted changes and the checks that catch them", ""]
cp = os.path.join(HERE, "tools", "caught.json")
caught = json.load(open(cp)) if os.path.exists(cp) else {}
sd = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, s, "meta.json")
    if os.path.exists(mp):
        m = json.load(open(mp))
        out.append("* `%s` (%s): %s. Needs: %s. %s" % (s, m["property"], m["what_it_breaks"], m["needs"],
                                                     caught.get(s, "")))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")

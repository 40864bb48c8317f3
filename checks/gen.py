#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import props, table
assert len({p["prop"]["id"] for p in props.PROPS}) == len(props.PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(props.PROPS, key=lambda p: p["prop"]["id"]):
        assert len(p["prop"]["title"]) <= 80, p["prop"]["id"]
        f.write(json.dumps(p["prop"]) + "\n")
checks, na = [], []
for p in sorted(props.PROPS, key=lambda p: p["prop"]["id"]):
    i = p["prop"]["id"]
    if p["na"]:
        assert i not in table.CHECKS
        na.append(dict(property=i, reason=p["na"]))
        continue
    c = table.CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s quick" % i,
                       thorough_cmd="python3 checks/run.py %s thorough" % i,
                       technique=c.get("technique", table.TECH_APP), level="other",
                       level_note=c.get("level_note", table.NOTE_APP)))
json.dump(dict(version=1, setup_cmd="make -C engine -j8 -s OUT=/tmp/va_setup && rm -r /tmp/va_setup", checks=checks, not_applicable=na,
               notes="Every check lowers /repo's current source to LLVM IR and interprets it abstractly; nothing of /repo is executed "
                     "and no solver is used. DESIGN.md describes the domain, the model of the device and what each check covers."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

# DESIGN.md: the table of properties and the table of planted bugs
import glob, re
def section(text, name, body):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, body, name), text, flags=re.S)
D = os.path.join(V, "DESIGN.md")
text = open(D).read()
rows = ["| Property | Decided by | Rule | Has to be met on some path (else the check fails) |", "|---|---|---|---|"]
for p in sorted(props.PROPS, key=lambda p: p["prop"]["id"]):
    i = p["prop"]["id"]
    if p["na"]:
        rows.append("| %s %s | not applicable: %s | | |" % (i, p["prop"]["title"], p["na"]))
        continue
    c = table.CHECKS[i]
    how = "whole application" if c["explanation"].startswith(table.APP) else "functions, unconstrained pre-state"
    e = c["explanation"].replace(table.APP, "").replace(table.FUN, "")
    rows.append("| %s %s | %s. %s | %s | %s |" % (i, p["prop"]["title"], how, e, c.get("rule", ""), "; ".join(c.get("reach", []))))
text = section(text, "table", "\n".join(rows))
res = {}
f = os.path.join(V, "caught.txt")
if os.path.exists(f):
    for l in open(f):
        a, _, b = l.strip().partition(" ")
        res[a] = b
rows = ["| Planted change | Needs | Caught by |", "|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    n = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (n, str(j["needs"]).replace("\n", " "), res.get(n, "")))
text = section(text, "seeds", "\n".join(rows))
open(D, "w").write(text)

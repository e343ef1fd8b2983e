#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the registry, the properties and the planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
from pbtcheck import Harness
import programs

props = [json.loads(l) for l in open(V + "/properties.jsonl")]
why = json.load(open(V + "/tools/design_why.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## 2. The properties, one by one", ""]
for p in props:
    i = p["id"]
    c = registry.CHECKS[i]
    t, n = registry.NOTES[i]
    out.append("### %s — %s" % (i, p["title"]))
    out.append("")
    out.append("*Quantifies over* %s." % p["quantifier"]["text"])
    if isinstance(c, Harness):
        out.append("*Generated*: %s." % c.rule)
        cost = "%d cases quick, %d thorough" % (c.quick, c.thorough)
        if c.fuzz:
            cost += ", and in the thorough tier %d coverage-guided executions per worker" % c.fuzz
    else:
        m = sys.modules[c.__module__]
        out.append("*Generated*: %s." % m.RULE if hasattr(m, "RULE") else "*Generated*: see the module text of `lib/%s.py`." % c.__module__)
        cost = getattr(m, "BUDGET", "a fixed number of programs per tier")
    out.append("*Decided by*: %s. *Bounds*: %s. *Cost*: %s." % (t, n, cost))
    out.append("*Why the tests cannot*: %s" % p["why_tests_cant"].rstrip("."))
    if i in why:
        out[-1] += "."
        out.append(why[i])
    else:
        out[-1] += "."
    out.append("")
res = {}
f = V + "/tools/seeded_results.json"
if os.path.exists(f):
    res = json.load(open(f))
out += ["## 3. Planted bugs and what catches them", "",
        "Each was verified with `tools/seeded.py` in a scratch copy: applies, changes original lines, the 41 tests pass, the demonstration tells the "
        "two trees apart. \"Caught\" is the quick check of its property.", "",
        "| planted bug | property | needs | quick check |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), res.get(b, "not run yet")))
out.append("")
out.append(open(V + "/tools/design_notes.md").read().rstrip())
out.append("")
out.append(open(V + "/tools/design_tail.md").read().strip())
out.append("")
out.append("### Repairs (from known_findings.txt)")
out.append("")
for l in open(V + "/known_findings.txt"):
    if l.startswith("fixed: ") or l.startswith("known: "):
        out.append("* " + l.strip())
out.append("")
open(V + "/DESIGN.md", "w").write("\n".join(out))
print(len(out), "lines")

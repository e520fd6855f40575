#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from meta import META  # noqa: E402
from props import PROPS  # noqa: E402

assert set(META) == set(PROPS), set(META) ^ set(PROPS)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k, m in sorted(META.items()):
        assert len(m["title"]) <= 80, (k, len(m["title"]))
        f.write(json.dumps(dict(
            id=k, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
            anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mechanism"]],
                         **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in m["state"]]} if m["state"] else {}),
                         observe_at=m["observe"], hook_needed=None))) + "\n")
checks = []
for k, p in sorted(PROPS.items()):
    mods = " and ".join(sorted({s["area"] for s in p["scenarios"]}))
    note = (f"The TLA+ model ({', '.join(p.get('mc', []))}) is checked exhaustively within its bounds" if p.get("mc") else "The TLA+ specification gives the meaning of each observation")
    note += "; recorded executions of the real code (random and, where a model emits behaviours, every behaviour of the model) are validated by TLC against the trace specification. "
    note += "Trusts TLC, the arithmetic of Num.java, the drivers' recording" + (", and: " + "; ".join(p["assumptions"]) if p.get("assumptions") else "") + "."
    checks.append(dict(property=k, quick_cmd=f"./check {k} quick", thorough_cmd=f"./check {k} thorough",
                       technique="TLA+ specification model checked with TLC; conformance by replaying its behaviours and validating traces of the real code",
                       level="model_checking", level_note=note))
json.dump(dict(version=1, setup_cmd="bash harness/build.sh",
               hooks=dict(guard="none", enable="no hook is needed: the checks use the public C++/Python interface", source_commits=[]),
               checks=checks, not_applicable=[], notes="See DESIGN.md; known-findings.json lists the defects found."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks.py (and not_applicable.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import CHECKS, NOT_CLAIMED  # noqa: E402

with open(VERIF + "/properties.jsonl", "w") as f:
    for pid, c in list(CHECKS.items()) + list(NOT_CLAIMED.items()):
        assert len(c["title"]) <= 80, pid
        a = {"files": c["files"], "mechanism": [{"name": n, "where": w} for n, w in c["mechanism"]]}
        if c.get("observe"):
            a["observe_at"] = c["observe"]
        f.write(json.dumps({"id": pid, "title": c["title"], "statement": c["statement"],
                            "quantifier": {"over": c["over"], "text": c["text"]},
                            "why_tests_cant": c["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]}
                  for p, c in CHECKS.items()],
       "not_applicable": [{"property": p, "reason": c["reason"]} for p, c in NOT_CLAIMED.items()]}
json.dump(man, open(VERIF + "/MANIFEST.json", "w"), indent=1)
open(VERIF + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(VERIF + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch)
    print("valid", len(CHECKS), "claimed")
except ImportError:
    print("no jsonschema")


def design():
    d = VERIF + "/tools/design/"
    out = open(d + "head.md").read()
    out += "## 2. Properties\n\n"
    for pid, c in CHECKS.items():
        out += "### %s %s\n\n%s\n\n" % (pid, c["title"], c["statement"])
        out += "* **Over:** %s.\n" % c["text"]
        out += "* **Method:** %s.\n" % c["technique"]
        out += "* **Enumerated and judged:** %s.\n" % c["rule"]
        out += "* **Bounds, quick:** %s.\n" % c["bounds_quick"]
        if c["bounds_thorough"] != c["bounds_quick"]:
            out += "* **Bounds, thorough:** %s.\n" % c["bounds_thorough"]
        out += "* **Why tests cannot settle it:** %s.\n" % c["why"]
        out += "* **Harness:** %s; anchored in %s.\n" % (
            ", ".join("`harness/%s`" % h for h in dict.fromkeys(h for p in c["parts"] for h in p["harness"])),
            "; ".join("%s (`%s`)" % m for m in c["mechanism"]))
        if any(p.get("entt") for p in c["parts"]):
            out += "* **Assumes:** EnTT is replaced by the stand-in in `entt_shim/`.\n"
        out += "\n"
    for pid, c in NOT_CLAIMED.items():
        out += "### %s %s (not claimed)\n\n%s\n\nNot applicable: %s\n\n" % (pid, c["title"], c["statement"], c["reason"])
    f = ""
    for l in open(VERIF + "/known_findings.jsonl"):
        if l.strip():
            f += "* `%s`\n" % l.strip()
    sd = "| bug | property | needs | breaks | caught |\n|---|---|---|---|---|\n"
    for i in sorted(os.listdir(VERIF + "/seeded")):
        m = json.load(open(VERIF + "/seeded/%s/meta.json" % i))
        sd += "| %s | %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", ""))
    out += open(d + "tail.md").read().replace("@FINDINGS@", f).replace("@SEEDS@", sd)
    open(VERIF + "/DESIGN.md", "w").write(out)


design()

#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import props
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("observe"):
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    man["checks"].append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
# DESIGN.md sections
import glob, re
D = os.path.join(H, "DESIGN.md")
t = open(D).read()
kf = json.load(open(os.path.join(H, "known_findings.json")))


def put(t, name, text):
    return re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + text + ("\n" if text else "") + m.group(2), t, flags=re.S)


t = put(t, "props", "\n\n".join("**%s. %s** (%s)\n%s\n*Decided by:* %s.\n*Bounds:* %s\n*Beyond tests:* %s" % (p["id"], p["title"], "not applicable" if p.get("na") else "claimed", p["statement"], p["technique"] if not p.get("na") else "-", p.get("na") or p["note"], p["why"])
                                for p in props.PROPS))
t = put(t, "fixed", "\n".join("* %s" % x for x in kf["fixed"]))
t = put(t, "findings", "\n".join("* %s" % (x if isinstance(x, str) else json.dumps(x)) for x in kf["findings"]) or "none")
rows = []
for m in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"], d.get("caught_by", d["property"])))
t = put(t, "seeded", "| bug | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
t = put(t, "na", "\n".join("* %s %s: %s" % (p["id"], p["title"], p["na"]) for p in props.PROPS if p.get("na")) or "none so far")
open(D, "w").write(t)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")

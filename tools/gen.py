#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the checks' META and tools/na.json."""
import glob, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("lib", "checks"):
    sys.path.insert(0, os.path.join(H, d))

props, checks = [], []
for p in sorted(glob.glob(os.path.join(H, "checks", "P*.py"))):
    m = importlib.import_module(os.path.basename(p)[:-3]).META
    assert len(m["title"]) <= 80, (m["id"], len(m["title"]))
    props.append({"id": m["id"], "title": m["title"], "statement": m["statement"],
                  "quantifier": {"over": m["over"], "text": m["for_all"]},
                  "why_tests_cant": m["why"],
                  "anchors": {"files": m["files"],
                              "mechanism": [{"name": a, "where": b} for a, b in m["mechanism"]]}})
    c = {"property": m["id"], "quick_cmd": "python3 run.py " + m["id"],
         "thorough_cmd": "python3 run.py %s --thorough" % m["id"],
         "technique": m["technique"], "level": "other",
         "level_note": m.get("level_note") or (
             "Static: decided on every run over the compiler's type-checked MIR of the current tree; "
             "sound for the stated rule up to the abstraction's assumptions" +
             (": " + "; ".join(m["assumptions"]) if m.get("assumptions") else "") + ".")}
    checks.append(c)
na = json.load(open(os.path.join(H, "tools", "na.json")))
for n in na:
    props.append(n["prop"])
man = {"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks,
       "not_applicable": [{"property": n["prop"]["id"], "reason": n["reason"]} for n in na],
       "notes": "All checks analyse the MIR dumped by driver/ (a rustc_private driver) for /repo's current tree; "
                "no hook in /repo is needed. See DESIGN.md."}
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in sorted(props, key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
import subprocess
r = subprocess.run(["python3-vt", "-c", """
import json,jsonschema
s=json.load(open('/root/.vp/MANIFEST.schema.json'));jsonschema.validate(json.load(open('%s/MANIFEST.json')),s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('valid')
""" % (H, H)])

metas = [importlib.import_module(os.path.basename(p)[:-3]).META for p in sorted(glob.glob(os.path.join(H, "checks", "P*.py")))]
with open(os.path.join(H, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(H, "tools", "design_head.md")).read())
    f.write("## Claimed properties\n\n")
    for m in metas:
        f.write("### %s %s\n\n%s\n\n" % (m["id"], m["title"], m["statement"]))
        f.write("* Quantifies over: %s.\n" % m["for_all"])
        f.write("* Why tests do not settle it: %s\n" % m["why"])
        f.write("* Method: %s.\n" % m["technique"].rstrip("."))
        f.write("* Rule: %s\n" % m["rule"])
        if m.get("assumptions"):
            f.write("* Assumes: %s.\n" % "; ".join(m["assumptions"]).rstrip("."))
        if m.get("level_note"):
            f.write("* Strength: %s\n" % m["level_note"])
        f.write("* Anchors: %s.\n\n" % "; ".join("%s (%s)" % (a, b) for a, b in m["mechanism"]))
    f.write("## Not applicable\n\n")
    for n in na:
        f.write("* **%s %s**: %s\n" % (n["prop"]["id"], n["prop"]["title"], n["reason"]))
    f.write("\n## Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration; caught by the check of the property named "
            "unless noted.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
    for p in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
        j = json.load(open(p))
        f.write("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(p)), j["property"], j["needs"].replace("|", "\\|"),
                                             j.get("caught_by", j["property"])))
    f.write("\n## Development mutants\n\nBesides the planted bugs, every check was tried on a set of one-line mutants of the code it is about "
            "and of behaviour-preserving rewrites of it (10 to 30 per check): all mutants that break the statement are reported and the "
            "rewrites are not, except where `Rule` or `Assumes` says otherwise.\n")

#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json, from one list of the properties."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []


def prop(id, title, statement, over, over_text, why, files, mechanism, observe, harness, rule, level_note,
         state=(), js=None, assumptions=(), technique="property-based testing"):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
                      mechanism=mechanism, observe=observe, harness=harness, rule=rule, level_note=level_note,
                      state=state, js=js, assumptions=assumptions, technique=technique))


exec(open(os.path.join(HERE, "catalog_a.py")).read())
exec(open(os.path.join(HERE, "catalog_b.py")).read())
exec(open(os.path.join(HERE, "catalog_c.py")).read())

NA = []


def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["over_text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = {}
    for p in PROPS:
        c = {"harness": p["harness"], "rule": p["rule"]}
        if p["js"]:
            c["js"] = p["js"]
        if p["id"] in ("C39", "C48", "C52"):
            c["simple"] = True
        if p["assumptions"]:
            c["assumptions"] = list(p["assumptions"])
        checks[p["id"]] = c
    with open(HERE + "/checks.json", "w") as f:
        json.dump(checks, f, indent=1)
        f.write("\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "hooks": {"guard": "none", "enable": "no hooks: the harnesses build copies of the crate's modules from /repo's working tree",
                  "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in PROPS],
        "not_applicable": NA,
        "notes": "run.py rebuilds the checked modules from /repo's working tree on every run; DESIGN.md says how.",
    }
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()

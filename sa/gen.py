#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for (i, title, stmt, over, text, why, files, mech) in props.PROPS:
            assert len(title) <= 80, (i, len(title))
            fh.write(json.dumps({
                "id": i, "title": title, "statement": stmt,
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    checks = [{"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
               "evidence_file": f"evidence/{i}.json",
               "technique": t, "level": l, "level_note": n} for i, (t, l, n) in props.CLAIMS.items()]
    na = [{"property": p[0], "reason": props.NOT_APPLICABLE.get(p[0], props.TODO)}
          for p in props.PROPS if p[0] not in props.CLAIMS]
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
                   "notes": "Every check re-extracts the MIR of /repo's current working tree with a rustc driver built by setup_cmd "
                            "and decides the property from it; see DESIGN.md."}, fh, indent=1)
        fh.write("\n")


main()

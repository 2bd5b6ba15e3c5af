#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below.

Run by hand when a property is added or reworded:  python3 tools/gen.py
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROPS = []


def P(pid, title, statement, over, text, why, files, mechanism, observe, note, state=None, technique=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append(({"id": pid, "title": title, "statement": statement,
                   "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": anchors}, note, technique))


exec(open(os.path.join(ROOT, "tools", "props_src.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, note, technique in PROPS:
        pid = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
            cmd = f"bash run_check.sh {pid}"
            checks.append({"property": pid, "quick_cmd": cmd, "thorough_cmd": cmd,
                           "evidence_file": f"evidence/{pid}.json",
                           "technique": technique or "property-based testing: generated inputs against a reference model",
                           "level": "exploration", "level_note": note})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "without a check")


main()

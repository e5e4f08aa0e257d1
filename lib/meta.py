"""Writes properties.jsonl and MANIFEST.json from rules/registry.py: meta.py"""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [here, os.path.join(here, "..", "rules")]
import registry                                                     # noqa: E402

V = os.path.dirname(here)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
        for pid, m in sorted(registry.ALL.items()):
            f.write(json.dumps({
                "id": pid, "title": m["title"], "statement": m["statement"],
                "quantifier": {"over": m.get("over", ["inputs"]), "text": m["quantifier"]},
                "why_tests_cant": m["why"],
                "anchors": {"files": m["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in m["mechanism"]],
                            "observe_at": [m["observe"]], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    checks, na = [], []
    for pid, m in sorted(registry.ALL.items()):
        if m.get("na"):
            na.append({"property": pid, "reason": m["na"]})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} quick",
            "thorough_cmd": f"python3 check.py {pid} thorough",
            "technique": m["technique"], "level": "other", "level_note": m["note"],
        })
    with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
                   "not_applicable": na}, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()

#!/usr/bin/env python3
"""Composes DESIGN.md."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "rules")]
import registry                                                     # noqa: E402


def section(name):
    p = os.path.join(V, "tools", "design", name + ".md")
    return open(p, encoding="utf-8").read().strip() + "\n"


def main():
    out = [section("head").replace("FULLTIER", section("tier").strip())]
    out.append("| property | commit | what failed |\n|---|---|---|")
    known = []
    for line in open(os.path.join(V, "known_findings.txt"), encoding="utf-8"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
        if m:
            out.append(f"| {m[1]} | {m[2]} | {m[3]} |")
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            known.append(f"| {m[1]} | `{m[2]}` | {m[3]} |")
    if known:
        out.append("\nRecorded, not repaired (`KNOWN-FINDING` lines; suppressed by exact key):\n\n"
                   "| property | key | what fails |\n|---|---|---|\n" + "\n".join(known))
    out.append("\n" + section("defects"))
    out.append("\n## 4. Properties and how each is decided\n")
    bugs = {}
    for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(p, encoding="utf-8"))
        bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m))
    for pid, m in sorted(registry.ALL.items()):
        out.append(f"### {pid} {m['title']}\n\n{m['statement']}\n")
        out.append("Anchored at " + "; ".join(f"{n} (`{w}`)" for n, w in m["mechanism"]) + ".\n")
        if m.get("na"):
            out.append(f"**Not applicable:** {m['na']}\n")
            continue
        out.append(f"**Decided by:** {m['explain']}\n")
        if pid in bugs:
            out.append("Planted: " + "; ".join(f"`{i}` ({x['what_it_breaks']})"
                                               for i, x in bugs[pid]) + ".\n")
    out.append(section("tail"))
    out.append("\n### Which check catches which planted change\n\n| change | check | needs |\n|---|---|---|")
    for pid in sorted(bugs):
        for i, x in bugs[pid]:
            out.append(f"| {i} | {pid} | {x['needs']} |")
    with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as f:
        f.write("\n".join(out).rstrip() + "\n")


main()

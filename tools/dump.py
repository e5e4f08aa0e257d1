"""Prints the value-flow summary of a function (triage aid): dump.py <name> [inline]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import program
import vfg
import terms
from terms import *

NAMES = {}
def sh(t, d=0):
    if t in NAMES:
        return NAMES[t]
    return None
_orig = terms.show
def show(t, depth=0):
    if isinstance(t, T):
        if t in NAMES:
            return NAMES[t]
        if t.k == "call" and t.a[0] in ("get_timestep", "get_timestep_buffer"):
            return ("TS" if t.a[0] == "get_timestep" else "TB") + "<" + show(t.a[2]) + ">"
        if t.k == "call" and t.a[0] == "global_stats":
            return "GS"
        if t.k == "bool":
            return "bool:" + str(t.a[0]) if depth > 3 else B.show(t.a[0], 4)
    return _orig(t, depth)
terms.show = show
vfg.show = show

def gshow(g):
    """conjunction factor view"""
    lits = []
    rest = g
    for v in sorted(B.support(g)):
        for b in (1, 0):
            if B.cofactor(g, v, 1 - b) == 0:
                lits.append(("" if b else "!") + terms.show_atom(B.vars[v]))
                rest = B.cofactor(rest, v, b)
    r = " & ".join(lits)
    if rest > 1:
        r += " & {" + B.show(rest, 6) + "}"
    return r or "true"

if __name__ == "__main__":
    js, info = program.load("core")
    P = vfg.Prog(js)
    for f in js["fns"]:
        if f["kind"] == "fn" and f["id"].endswith("::" + sys.argv[1]):
            kw = {}
            if "inline" in sys.argv:
                kw["opaque_traits"] = ("datamanager::DataManager",)
            a = vfg.Analysis(P, **kw)
            print("==", f["id"])
            try:
                a.run(f)
            except vfg.Dead:
                print("   always panics"); continue
            print("   loops", a.loops.keys(), "unknown", a.unknown)
            for e in a.log:
                if e.kind == "assert":
                    continue
                if e.name in ("get_timestep","global_stats") and e.kind=="call" and 0: continue
                print(" *", e.kind, e.name or "", "on", show(e.obj)[:300] if e.obj is not None else "", "args", [show(x)[:400] for x in e.args or ()], "val", show(e.val)[:600] if e.val is not None else "", "loops", e.loops)
                print("      if", gshow(e.cond)[:1500])
            print(" ret", show(a.ret)[:3000])
            for k, v in a.final.items():
                print(" final", k, show(v)[:1500])

"""Prints the deposits of a function with its loops named by role (triage aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dump import *
from roles import *
js, info = program.load("core")
P = vfg.Prog(js)
for name in sys.argv[1:]:
    for f in js["fns"]:
        if f["kind"] == "fn" and f["id"].endswith("::" + name):
            a = vfg.Analysis(P)
            try:
                a.run(f)
            except vfg.Dead:
                print("panics"); continue
            print("==", f["id"], [l["ty"][:60] for l in f["locals"][:f["argc"]+1]])
            for e in a.log:
                if e.kind == "assert" or e.name in ("get_timestep","get_timestep_buffer","global_stats", "is_valid", "timestep_valid", "is_inside", "get_cells", "get_data", "get_weights"):
                    continue
                e = Eff(e)
                print(" *", e.kind, e.name or "", "on", show(e.obj)[:200] if e.obj is not None else "", "args", [show(x)[:300] for x in e.args], "val", show(e.val)[:500] if e.val is not None else "", "loops", e.loops)
                print("      if", gshow(e.cond)[:1300])
            print(" ret", show(a.ret)[:1500])

"""r.py <module.function> [seconds]: runs one rule on the current tree (development aid)."""
import os, sys, time
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "..", "lib"), os.path.join(here, "..", "rules")]
sys.setrecursionlimit(60000)
import core, program, importlib
js, info = program.load(os.environ.get("TIER", "core"))
W = int(os.environ.get("W", "700"))
for name in sys.argv[1:]:
    m, f = name.split(".")
    ck = core.Ck("X", "quick", js, info)
    t = time.time()
    try:
        getattr(importlib.import_module(m), f)(ck)
    except core.Abort:
        pass
    print(f"{name}: {len(ck.obs)} obligations, {len(ck.viol)} open, {time.time()-t:.1f} s", ck.counts)
    for k, txt in ck.viol:
        print(f"  [{k}]", txt[:W])

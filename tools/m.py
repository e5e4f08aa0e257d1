"""m.py <Type> <method> [width]: summary of one method (triage aid)."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "..", "lib"), os.path.join(here, "..", "rules")]
sys.setrecursionlimit(60000)
import core, program, terms, vfg
js, info = program.load(os.environ.get("TIER", "core"))
ck = core.Ck("X", "quick", js, info)
W = int(sys.argv[3]) if len(sys.argv) > 3 else 400
try:
    f = ck.free(sys.argv[2]) if sys.argv[1] == "-" else ck.method(sys.argv[1], sys.argv[2])
except Exception:
    f = ck.default(sys.argv[1], sys.argv[2])
kw = {}
if "inline" in sys.argv:
    kw["opaque_traits"] = ("datamanager::DataManager",)
a = ck.run(f, **kw)
for e in a.log:
    if e.kind in ("assert", "store"): continue
    print(e.kind, getattr(e, "name", ""), str([terms.show(x)[:W] for x in (getattr(e, "args", None) or [])])[:W * 2], "|", core.gshow(e.cond)[:W], e.sp)
print("RET", terms.show(a.ret)[:W * 4])
print("OK", core.gshow(a.ok)[:W * 2])
for k, v in a.final.items():
    print("FINAL", k, terms.show(v)[:W * 4])

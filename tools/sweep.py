"""Analyses every function once and reports what could not be summarised (triage aid)."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import program, vfg
from terms import *
js, info = program.load("core")
P = vfg.Prog(js)

def one(arg):
    i, mode = arg
    f = js["fns"][i]
    a = vfg.Analysis(P, **({"opaque_traits": ("datamanager::DataManager",)} if mode == "inline" else {}))
    t = time.time()
    try:
        a.run(f); r = ""
    except vfg.Dead:
        r = "always panics"
    except Exception as e:
        r = "!! " + repr(e)[:200]
        if "-t" in sys.argv: r += traceback.format_exc()
    d = time.time() - t
    if r or a.unknown or d > 1:
        return f"{f['id']} [{mode}] {d:.1f}s bdd={len(B.nodes)} {r} {a.unknown or ''}"
    return ""
from multiprocessing import Pool
if __name__ == "__main__":
    with Pool(8, maxtasksperchild=1) as p:
        for r in p.imap(one, [(i, m) for i, f in enumerate(js["fns"]) if f["kind"] == "fn" for m in ("opaque", "inline")], chunksize=1):
            if r: print(r)

#!/usr/bin/env python3
"""plant.py [ids...]: for bugs in tools/bugs/*.py make seeded/<id>/, confirm it, run its check.

A bug is dict(id, property, file, edits=[(old, new)...], needs, breaks, test=rust source)."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)


def sh(cmd, cwd=None, env=None, t=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=t)
    return r.returncode, r.stdout


def bugs():
    for f in sorted(glob.glob(os.path.join(here, "bugs", "*.py"))):
        ns = {"__file__": f}
        exec(open(f).read(), ns)
        yield from ns["BUGS"]


def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="plant.")
    repo = os.path.join(work, "repo")
    sh(["git", "clone", "-q", "/repo", repo])
    res = {}
    for b in bugs():
        if want and not any(re.fullmatch(w, b["id"]) for w in want):
            continue
        sh(["git", "checkout", "-q", "--", "."], repo)
        d = os.path.join(V, "seeded", b["id"])
        ok = True
        for old, new, *nn in b["edits"]:
            p = os.path.join(repo, b["file"])
            s = open(p).read()
            if s.count(old) < 1 or (s.count(old) > 1 and not (nn or b.get("nth"))):
                print(b["id"], "BAD EDIT count", s.count(old), repr(old[:60]))
                ok = False
                break
            n = nn[0] if nn else b.get("nth") or 1
            i = -1
            for _ in range(n):
                i = s.index(old, i + 1)
            open(p, "w").write(s[:i] + new + s[i + len(old):])
        if not ok:
            continue
        patch = sh(["git", "diff"], repo)[1]
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        if b.get("py"):
            open(os.path.join(d, "demo.py"), "w").write(b["py"].strip() + "\n")
            shutil.copy(os.path.join(here, "bugs", "demo_py.sh"), os.path.join(d, "demo.sh"))
            shutil.copytree(os.path.join(here, "bugs", "deps"), os.path.join(d, "deps"),
                            dirs_exist_ok=True)
        else:
            open(os.path.join(d, "demo.rs"), "w").write(b["test"].strip() + "\n")
        if b.get("py"):
            pass
        elif b.get("host"):
            shutil.copy(os.path.join(here, "bugs", "demo_full.sh"), os.path.join(d, "demo.sh"))
            open(os.path.join(d, "host"), "w").write(b["host"] + "\n")
            shutil.copytree(os.path.join(here, "bugs", "deps"), os.path.join(d, "deps"),
                            dirs_exist_ok=True)
        else:
            for f in ("harness.rs", "demo.sh"):
                shutil.copy(os.path.join(here, "bugs", f), d)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        env = dict(os.environ, UP4_REPO=repo)
        skip_demo = os.environ.get("NODEMO")
        if not skip_demo:
            r0, o0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
            r1, o1 = sh(["bash", os.path.join(d, "demo.sh")], repo)
        else:
            r0, r1, o0, o1 = 0, 1, "", ""
        rc, out = sh([sys.executable, "check.py", b["property"]], V, env)
        v = "caught" if rc == 1 and "VIOLATION" in out else f"MISSED rc={rc}"
        key = re.findall(r"^  \[([^\]]*)\]", out, flags=re.M)
        good = r0 == 0 and r1 not in (0, 3)
        print(f"{b['id']:28} {b['property']} demo {'ok' if good else f'BAD {r0}/{r1}'} {v} {' '.join(key)[:110]}", flush=True)
        if not good:
            print("  clean:", o0[-700:], "\n  patched:", o1[-700:])
    shutil.rmtree(work)


main()

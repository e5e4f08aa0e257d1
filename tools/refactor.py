#!/usr/bin/env python3
"""refactor.py [ids...]: apply behaviour-preserving edits of tools/refactors/*.py to a clone; every check must stay quiet.

An edit is dict(id, file, edits=[(old, new[, nth])...]); an nth of 0 replaces every occurrence."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)


def sh(cmd, cwd=None, env=None, t=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=t)
    return r.returncode, r.stdout


def edits():
    for f in sorted(glob.glob(os.path.join(here, "refactors", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        yield from ns["EDITS"]


def main():
    want = sys.argv[1:]
    work = tempfile.mkdtemp(prefix="refac.")
    repo = os.path.join(work, "repo")
    sh(["git", "clone", "-q", "/repo", repo])
    checks = [c["property"] if "property" in c else c["id"]
              for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    if os.environ.get("ONLY"):
        checks = os.environ["ONLY"].split()
    for b in edits():
        if want and not any(re.fullmatch(w, b["id"]) for w in want):
            continue
        sh(["git", "checkout", "-q", "--", "."], repo)
        ok = True
        for old, new, *nn in b["edits"]:
            p = os.path.join(repo, b["file"])
            s = open(p).read()
            n = nn[0] if nn else 1
            if s.count(old) < max(n, 1) or (s.count(old) > 1 and not nn):
                print(b["id"], "BAD EDIT count", s.count(old), repr(old[:60]))
                ok = False
                break
            if n == 0:
                s = s.replace(old, new)
            else:
                i = -1
                for _ in range(n):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        if not ok:
            continue
        if not os.path.exists(work + "/build"):
            sh(["cp", "-a", V + "/.build", work + "/build"])
        env = dict(os.environ, UP4_REPO=repo, UP4_BUILD=work + "/build")
        if os.environ.get("KEEP"):
            sh(["cp", "-a", repo, os.environ["KEEP"]])
            continue
        # one build for each tier, shared by the checks
        for tier in ("core", "full"):
            sh(["rm", "-f", f"{work}/build/{tier}/program.json"])
        env["UP4_DUMPED"] = "1"
        def one(c):
            return c, *sh([sys.executable, "check.py", c], V, env)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, checks))
        bad = [(c, rc, out) for c, rc, out in rs if rc != 0]
        print(f"{b['id']:34} {'quiet' if not bad else 'ALARM ' + ' '.join(c + ('' if rc == 1 else '!' + str(rc)) for c, rc, _ in bad)}", flush=True)
        for c, rc, out in bad:
            keys = re.findall(r"^  \[([^\]]*)\](.*)", out, flags=re.M)
            for k, m in keys[:3]:
                print("    ", c, k[:90], m[:160])
            if not keys:
                print("    ", c, out[-500:])
    shutil.rmtree(work)


main()

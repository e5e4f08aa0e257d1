"""mutate.py [files regex] [count] [seed]: small changes of the sources, made one at a time in clones; prints those no
check notices (to be read: each is either a change that keeps the behaviour, something no property is about, or a gap)."""
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "rules")]
import program      # noqa: E402
import registry     # noqa: E402

#: what is replaced by what
SWAPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]),
         (r" != ", [" == "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]),
         (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= ", " = "]), (r"\b0\.5\b", ["0.25"]),
         (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]", "[2]"]), (r"\[2\]", ["[1]"]), (r", 0\]", [", 1]"]), (r", 1\]", [", 0]", ", 2]"]),
         (r", 2\]", [", 1]"]), (r"\b0\.\.", ["1.."]), (r"\.\.=", [".."]), (r"\b1\.\.", ["0.."]), (r"\btrue\b", ["false"]),
         (r"\bfalse\b", ["true"]), (r"\bcontinue\b", ["{}"]), (r"\bxdata\b", ["ydata"]), (r"\.min\b", [".max"]),
         (r"\.max\b", [".min"]), (r"\bsin\(", ["cos("]), (r"\bcos\(", ["sin("]), (r"_x\b", ["_y"]), (r"_y\b", ["_x", "_z"]),
         (r"_z\b", ["_y"]), (r"!(?=[a-z(])", [""]), (r"\b2\.0\b", ["3.0"]), (r"powi\(2\)", ["powi(3)"]), (r"\.abs\(\)", [""]),
         (r"\bceil\b", ["floor"]), (r"\bfloor\b", ["ceil"]), (r"\b1usize\b", ["0usize"]), (r"\b2usize\b", ["1usize"])]
SKIP = re.compile(r"^\s*(//|use |#|\*|pub fn|fn |print|panic|println|assert)|print_debug|log::|ProgressStyle|\bbar\b|->|=>.*panic")


def sites(path):
    text = open(path).read().split("\n")
    stop = next((i for i, l in enumerate(text) if "#[cfg(test)]" in l), len(text))
    for i, l in enumerate(text[:stop]):
        if SKIP.search(l) or '"' in l and l.count('"') % 2:
            continue
        for pat, news in SWAPS:
            for m in re.finditer(pat, l):
                if l[:m.start()].count('"') % 2:
                    continue
                for new in news:
                    yield i, l, l[:m.start()] + new + l[m.end():]


def main():
    files, count = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    js, _ = program.load("full")
    starts = {}
    for f in js["fns"]:
        sp = f["span"].split(":")
        if "{closure" not in f["id"]:
            starts.setdefault(sp[0], []).append((int(sp[1]), f["id"]))
    seen = {}
    for p in glob.glob(os.path.join(V, "evidence", "*.json")):
        e = json.load(open(p))
        if e["property"] in registry.RULES:
            for n in e["coverage"]["functions_analysed"]:
                seen.setdefault(n, []).append(e["property"])
    allm = []
    for root, _, fs in os.walk("/repo/src"):
        for f in fs:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, "/repo")
            if re.search(files, rel) and f.endswith(".rs"):
                for i, old, new in sites(p):
                    own = [x for x in sorted(starts.get(rel, ())) if x[0] <= i + 1]
                    allm.append((rel, i, old, new, own[-1][1] if own else "?"))
    rnd.shuffle(allm)
    print(len(allm), "changes", flush=True)
    import core
    allm = allm[:count]
    free = [tempfile.mkdtemp(prefix="mut.") for _ in range(6)]
    for w in free:
        subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"])
        subprocess.run(["cp", "-a", V + "/.build", w + "/build"])
    score = {"caught": 0, "built not": 0, "missed": 0, "outside": 0}

    def one(m):
        rel, i, old, new, fn = m
        w = free.pop()
        try:
            short = core.short(fn)
            ids = [p for n, ps in seen.items() if n == short or n.startswith(short + "::{") for p in ps]
            ids = sorted(set(ids))
            if not ids:
                score["outside"] += 1
                return f"OUTSIDE {rel}:{i + 1} {fn.split('::')[-1]} |{old.strip()}| -> |{new.strip()}|"
            p = os.path.join(w, "repo", rel)
            text = open(p).read().split("\n")
            keep = list(text)
            text[i] = new
            open(p, "w").write("\n".join(text))
            env = dict(os.environ, UP4_REPO=w + "/repo", UP4_BUILD=w + "/build")
            res = ""
            for c in ids:
                r = subprocess.run([sys.executable, os.path.join(V, "check.py"), c], env=env, text=True,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode == 2 or "does not type-check" in r.stdout:
                    res = "built not"
                    break
                if r.returncode == 1:
                    res = "caught"
                    break
            open(p, "w").write("\n".join(keep))
            score[res or "missed"] += 1
            if not res:
                return f"MISSED {rel}:{i + 1} {fn.split('::')[-1]} {','.join(ids)} |{old.strip()}| -> |{new.strip()}|"
        finally:
            free.append(w)
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(one, allm):
            if r:
                print(r, flush=True)
    print(score)
    for w in free:
        shutil.rmtree(w)


main()

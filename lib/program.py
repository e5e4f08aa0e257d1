"""Mirrors /repo's current sources and has the rustc driver write the resolved program.

Nothing of /repo is executed: `cargo +nightly check` type-checks the mirror and the driver
(../driver) writes its MIR, resolved callees and type layout as JSON."""

import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UP4_REPO", "/repo")
BUILD = os.environ.get("UP4_BUILD") or os.path.join(VERIF, ".build")

#: The three crates that exist only as git dependencies.
GIT_DEPS = ("hdf5", "plotly", "vtkio")
#: module and crate declarations left out of the core mirror (they need GIT_DEPS)
CORE_DROP = {
    "src/lib.rs": ["plotly", "converter", "plotting", "pylib"],
    "src/datamanager.rs": ["pdata", "tdata"],
}
CORE_SKIP = ("src/main.rs", "src/converter", "src/plotting", "src/pylib",
             "src/datamanager/pdata.rs", "src/datamanager/tdata.rs")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", PYO3_PYTHON="/usr/bin/python3",
             RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    for k in ("RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError(f"{what} failed:\n" + r.stdout[-6000:])
    return r.stdout


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8", newline="") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def build_driver():
    """Builds the driver if it is missing or its source changed."""
    src = os.path.join(VERIF, "driver")
    dst = os.path.join(BUILD, "driver")
    exe = os.path.join(dst, "debug", "mirdump")
    h = hashlib.sha256()
    for f in ("Cargo.toml", "src/main.rs"):
        h.update(open(os.path.join(src, f), "rb").read())
    stamp = os.path.join(dst, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    e = env()
    e["CARGO_TARGET_DIR"] = dst
    run(["cargo", "build", "--offline"], src, e, "building the MIR driver")
    put(stamp, h.hexdigest())
    return exe


def mirror(tier):
    top = os.path.join(BUILD, tier, "scope")
    with open(os.path.join(REPO, "Cargo.toml"), encoding="utf-8") as f:
        cargo = f.read()
    if tier == "core":
        cargo = re.sub(r"^([\w-]+\s*=.*\bgit\s*=)", r"# \1", cargo, flags=re.M)
    else:
        cargo = re.sub(
            r"^(hdf5|plotly|vtkio)\s*=.*\bgit\s*=.*$",
            lambda m: f'{m.group(1)} = {{ path = "{VERIF}/stubs/{m.group(1)}" }}',
            cargo, flags=re.M)
    put(os.path.join(top, "Cargo.toml"), cargo + "\n[workspace]\n")
    lock = os.path.join(VERIF, "scope", "Cargo.lock" if tier == "core" else "Cargo.full.lock")
    if os.path.exists(lock):
        put(os.path.join(top, "Cargo.lock"), open(lock, encoding="utf-8").read())
    kept = set()
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), REPO)
            if not n.endswith(".rs") or rel == "src/main.rs":
                continue
            if tier == "core" and rel.startswith(CORE_SKIP):
                continue
            with open(os.path.join(REPO, rel), encoding="utf-8", newline="") as f:
                text = f.read()
            if tier == "core":
                for mod in CORE_DROP.get(rel, ()):
                    text = re.sub(
                        rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))",
                        r"// \1", text, flags=re.M)
            put(os.path.join(top, rel), text)
            kept.add(rel)
    for d, _, names in os.walk(os.path.join(top, "src")):
        for n in names:
            p = os.path.join(d, n)
            if os.path.relpath(p, top) not in kept:
                os.remove(p)
    return top


def load(tier="core"):
    """Returns (program JSON, info) for /repo's current tree."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        top = mirror(tier)
        out = os.path.join(BUILD, tier, "program.json")
        if os.environ.get("UP4_DUMPED") and REPO != "/repo" and os.path.exists(out):
            # development only: many checks of one edited copy
            with open(out, encoding="utf-8") as f:
                return json.load(f), {"tier": tier, "build_s": 0}
        if os.path.exists(out):
            os.remove(out)
        # cargo would skip the wrapper when nothing changed: make the crate stale
        os.utime(os.path.join(top, "src", "lib.rs"))
        e = env()
        sysroot = run(["rustc", "--print", "sysroot"], VERIF, e, "rustc").strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["MIRDUMP_CRATE"] = "upppp_rust"
        e["MIRDUMP_OUT"] = out
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, tier, "target")
        run(["cargo", "check", "--offline", "--lib", "--features", "python"], top, e,
            f"type-checking /repo ({tier} tier)")
        if not os.path.exists(out):
            raise BuildError("the driver wrote no program")
        with open(out, encoding="utf-8") as f:
            prog = json.load(f)
    return prog, {"tier": tier, "build_s": round(time.time() - t0, 2)}


if __name__ == "__main__":
    p, i = load(sys.argv[1] if len(sys.argv) > 1 else "core")
    print(i, len(p["fns"]), "bodies")

"""What an answer can depend on: calls and statics of the resolved program, by effect."""

import re

#: kinds of callee through which something other than the arguments could reach an answer
SOURCES = (
    ("the clock", r"^(std|core)::time::(Instant::now|SystemTime::now|Instant::elapsed|SystemTime::elapsed)"),
    ("the environment", r"^std::env::"),
    ("files", r"^std::fs::|^std::os::|^std::io::(stdin|Stdin|Read|BufRead)"),
    ("the network", r"^std::net::"),
    ("other processes", r"^std::process::(Command|Child|id)"),
    ("other threads", r"^std::thread::|^std::sync::mpsc|^rayon"),
    ("state kept between calls", r"sync::atomic|(std|core)::cell::(Once|Lazy)|sync::(poison::)?(Once|Lazy)|"
                                r"LocalKey|sync::(poison::)?(mutex::)?Mutex|sync::(poison::)?(rwlock::)?RwLock"),
    ("random numbers", r"RandomState::|hash_one$|^rand|^getrandom|^fastrand"),
    ("addresses", r"::expose_provenance|::addr$|fmt::Pointer"),
)
ORDER = re.compile(r"hash_(map|set)::(Iter|IntoIter|Keys|Values|IntoKeys|IntoValues|Drain|IterMut|"
                   r"ValuesMut)\b|hash::(map|set)::(Iter|IntoIter|Keys|Values|IntoKeys|IntoValues|"
                   r"Drain|IterMut|ValuesMut)\b")
#: crates whose calls compute with their arguments alone
CRATES = {"std", "core", "alloc", "ndarray", "ndarray_stats", "num_traits", "num_integer",
          "dyn_clone", "anyhow", "itertools", "noisy_float"}
#: the only foreign call: asks whether the user wants to stop, gives no value to an answer
PYTHON = re.compile(r"^pyo3::|^pyo3_ffi::")
SETTERS = ("set_rotation_angle", "set_rotation_anker")


def effects(ck):
    own = {s for f in ck.js["fns"] for s in (f["id"].split("::")[0], f["path"].split("::")[0])}
    own |= {p.split("::")[0] for t in ck.js["traits"] for p in [t["path"] if isinstance(t, dict)
                                                             else t]}
    for f in ck.js["fns"]:
        ck.count("functions")
        ck.fns.add(f["id"])
        calls = 0
        for path, node, sp in callees(f):
            calls += 1
            root = re.sub(r"^[<&( ]*(dyn |mut )*", "", path).split("::")[0]
            what = next((w for w, r in SOURCES if re.search(r, path)), None)
            ck.ob(f"{f['name']}:{path}", what is None, "no answer depends on anything but the "
                  "recording and the arguments", sp, lambda: f"{what}, by {path} in {f['id']}")
            known = root in CRATES or root in own or PYTHON.match(path)
            ck.ob(f"{f['name']}:{path}:known", bool(known), "every callee is of a crate known to "
                  "compute with its arguments", sp, lambda: f"{path} in {f['id']}")
            if "functions" in f["id"].split("::"):
                ck.ob(f"{f['name']}:recording:{path}", path.split("::")[-1] not in SETTERS,
                      "an analysis leaves the recording as it was", sp,
                      lambda: f"{path} in {f['id']}")
        ck.count("calls", calls)
        for name, mutable, sp in statics(f):
            ck.count("statics")
            ck.ob(f"{f['name']}:static:{name}", not mutable, "no answer depends on an earlier call "
                  "through a global variable", sp, lambda: f"{name} in {f['id']}")
        for t in sorted({t for t in types(f) if ORDER.search(t)}):
            ck.ob(f"{f['name']}:order", False, "nothing is done in the order of a hash table",
                  f["span"], lambda: f"{t[:120]} in {f['id']}")
    ck.floor("functions", 100, "functions")
    ck.floor("calls", 800, "calls")


def callees(f):
    def walk(o, sp):
        if isinstance(o, dict):
            if "fndef" in o:
                yield o["fndef"]["path"], o["fndef"], sp
            for k, v in o.items():
                if k != "fndef":
                    yield from walk(v, sp)
        elif isinstance(o, list):
            for v in o:
                yield from walk(v, sp)
    for b in bodies(f):
        for st in b["s"]:
            yield from walk(st, st[-1] if isinstance(st[-1], str) else b["sp"])
        yield from walk(b["t"], b["sp"])


def statics(f):
    def walk(o):
        if isinstance(o, dict):
            if "static" in o:
                yield o["static"], o.get("mutable", True)
            for v in o.values():
                yield from walk(v)
        elif isinstance(o, list):
            for v in o:
                yield from walk(v)
    for b in bodies(f):
        for x in (b["s"], b["t"]):
            for name, m in walk(x):
                yield name, m, b["sp"]


def types(f):
    for l in f["locals"]:
        yield l["ty"]


def bodies(f):
    yield from f["blocks"]
    for p in f.get("promoted") or ():
        yield from (p["blocks"] if isinstance(p, dict) else p)

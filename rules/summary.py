"""What recordings say of themselves, and the turns they are told to take."""
import core
import models
import terms
from convert import parts
from core import B, clip, mk, num, show
from spec import SELF, arg
from terms import as_bool, fld, idx, sub, subterms

KINDS = ("TData", "PData")
#: words next to a number -> (accessor of the totals, component)
SPEEDS = {"mean": 1, "average": 1, "min": 0, "max": 2}


def sentences(t):
    """The lines of a text: (words before, values in turn)."""
    out, label, values = [], "", []
    for x in t.a[0]:
        if not isinstance(x, str):
            values.append(x.a[0] if x.k == "shown" else x)
            continue
        first, *more = x.split("\n")
        label += first
        for line in more:
            out.append((label, values))
            label, values = line, []
    out.append((label, values))
    return [(a.lower(), v) for a, v in out if v]


def about(label):
    """What a line is about: one of the totals, or an axis."""
    words = "".join(c if c.isalpha() else " " for c in label).split()
    if words and words[0] in "xyz" and not set(words[1:]) - {"degree", "degrees", "rad", "m", "mm", "to"}:
        return "xyz".index(words[0])
    text = " ".join(words)
    for word, k in SPEEDS.items():
        if word in text and ("veloc" in text or "speed" in text):
            return "velocity_mag", k
    if "timestep" in text or "time step" in text:
        return "timesteps", None
    if "particle" in text:
        return "nparticles", None
    if "time" in text and "max" in text:
        return "max_time", None
    return None


def summaries(ck):
    for kind in KINDS:
        f = ck.method(kind, "info")
        w = f["span"]
        a = ck.run(f)
        ck.ob(f"{kind}:said", a.ok == 1, "every recording can say what it is", w, lambda: clip(core.gshow(a.ok)))
        text = fld(a.ret, "Ok", "0")
        turned = as_bool(fld(SELF, "", "rotation_is_set"))
        seen = {True: 0, False: 0}
        for t, g in parts(text):
            if not terms.sat(g):
                continue
            t = models.spelled(t)
            if t.k != "words":
                ck.fail(f"{kind}:text", "a summary is a text with the totals of the recording", w, clip(show(t)))
            for now in (False, True):
                if not terms.sat(B.AND(g, turned if now else B.NOT(turned))):
                    continue
                seen[now] = B.OR(seen[now], g)
                said(ck, f"{kind}:{'turned' if now else 'plain'}", t, now, w)
        for now, g in seen.items():
            ck.implied(f"{kind}:{'turned' if now else 'plain'}:always", turned if now else B.NOT(turned), g,
                       "every recording can say what it is", w)
    for name in ("__str__", "__repr__"):
        m = ck.method("PyData", name)
        a = ck.run(m)
        got = [x for x in subterms(a.ret) if x.k == "call" and x.a[0].split("::")[-1] == "info"]
        ck.ob(f"Data.{name}", len(got) == 1 and got[0].a[1] is fld(SELF, "", "data") and
              models.spelled(fld(a.ret, "Ok", "0")) is models.spelled(fld(got[0], "Ok", "0")),
              "a recording shown in Python says what it is", m["span"], lambda: clip(show(a.ret)))
    ck.floor("lines", 36, "lines with numbers")


def said(ck, key, t, turned, w):
    totals = {x for x in subterms(t) if x.k == "call" and x.a[0].split("::")[-1] == "global_stats"}
    if len(totals) != 1 or next(iter(totals)).a[1:] != (SELF,):
        ck.fail(f"{key}:totals", "what is said is what the recording holds", w, str(len(totals)))
    total, = totals

    def held(name, *at):
        got = ck.run(ck.method("GlobalStats", name)).ret
        got = terms.subst(got, {SELF: total})
        return idx(got, tuple(num(k) for k in at)) if at else got

    found, axes = set(), {0: 0, 1: 0, 2: 0}
    for label, values in sentences(t):
        what = about(label)
        if what is None:
            continue
        ck.count("lines")
        if isinstance(what, int):
            n, axes[what] = axes[what], axes[what] + 1
            k = f"{key}:{'xyz'[what]}:{n}"
            if n == 0:
                least, most = held("dimensions", 0, what), held("dimensions", 1, what)
                want, rule = [least, most, sub(most, least)], "extents are said from least to most, with their difference"
                want = want if len(values) != 2 else want[:2]
            else:
                want = [idx(fld(SELF, "", "rotation" if n == 1 else "rotation_center"), (num(what),))]
                rule = "the angles and the anchor are those set"
        else:
            name, at = what
            k, rule = f"{key}:{name}:{'' if at is None else at}", "a number said is the one it is named after"
            want = [held(name, *(() if at is None else (at,)))]
            found.add(what)
        ck.ob(f"{k}:many", len(values) == len(want), rule, w, lambda: str(len(values)))
        for i, (x, y) in enumerate(zip(values, want)):
            ck.same(f"{k}:{i}", x, y, 1, rule, w)
    need = {("velocity_mag", 0), ("velocity_mag", 1), ("velocity_mag", 2), ("timesteps", None), ("nparticles", None),
            ("max_time", None)}
    ck.ob(f"{key}:whole", not need - found and all(n == (3 if turned else 1) for n in axes.values()),
          "extents, time, particles, timesteps and speeds are said, and the turn if there is one", w,
          lambda: f"{sorted(map(str, need - found))} {axes}")


def turns(ck):
    """Angles and anchors set are remembered."""
    for kind in KINDS:
        f = ck.method(kind, "set_rotation_angle")
        w = f["span"]
        a = ck.run(f)
        after = a.final.get(0, SELF)
        kept = fld(SELF, "", "rotation")
        for axis in range(3):
            at = terms.cmp("Eq", mk("trunc", arg(2)), num(axis), True)
            at = B.AND(a.ok, at, *[B.NOT(terms.cmp("Eq", mk("trunc", arg(2)), num(k), True)) for k in range(3) if k != axis])
            ck.ob(f"{kind}:{axis}:taken", terms.sat(at), "an angle can be set for every axis", w)
            new = [arg(1) if k == axis else idx(kept, (num(k),)) for k in range(3)]
            for k in range(3):
                ck.same(f"{kind}:{axis}:{k}", idx(fld(after, "", "rotation"), (num(k),)), new[k], at,
                        "an angle is set for the axis named, and stays for the others", w)
            ck.same_guard(f"{kind}:{axis}:turned", as_bool(fld(after, "", "rotation_is_set")),
                          B.OR(*[B.NOT(terms.cmp("Eq", x, num(0), False)) for x in new]), at,
                          "a recording is turned while an angle is not zero", w)
            ck.count("angles")
        f = ck.method(kind, "set_rotation_anker")
        a = ck.run(f)
        after = a.final.get(0, SELF)
        for k in range(3):
            ck.same(f"{kind}:anchor:{k}", idx(fld(after, "", "rotation_center"), (num(k),)), idx(arg(1), (num(k),)), a.ok,
                    "the anchor is the one set", f["span"])
        for k in ("rotation", "rotation_is_set"):
            ck.same(f"{kind}:anchor:{k}", fld(after, "", k), fld(SELF, "", k), a.ok, "an anchor leaves the angles", f["span"])
        ck.implied(f"{kind}:anchor:taken", 1, a.ok, "every anchor can be set", f["span"])
    ck.floor("angles", 6, "axes of a turn")

"""What grids say of themselves."""
import core
import models
import terms
from convert import parts
from core import B, clip, mk, num, show
from selector import is_extreme
from spec import SELF, arg
from summary import sentences
from terms import cmp, div, fld, idx, mul, subterms

LIMITS = {"xlim": 0, "ylim": 1, "zlim": 2}
RULE = {"cells": "the numbers of cells said are those of the grid", "limits": "the limits said of an axis are its own",
        "mean": "the mean said is that of the values", "std": "the deviation said is that of the values",
        "min": "the least value said is that of the values", "max": "the greatest value said is that of the values"}


def words(label):
    return "".join(c if c.isalnum() else " " for c in label).split()


def subject(label):
    """What a line of the text is about."""
    ws = words(label)
    for w in ws:
        for axis in "xyz":
            if w in (axis + "lim", axis + "limit", axis + "limits", axis + "range") or \
                    w == axis and any(u.startswith(("lim", "range")) for u in ws):
                return "limits", "xyz".index(axis)
    if "cells" in ws:
        return "cells", None
    if len(ws) >= 2 and ws[-2] in ("dim", "dimension", "component") and ws[-1] in ("1", "2", "3"):
        return "dim", int(ws[-1]) - 1
    for name, also in (("mean", ("average",)), ("std", ("deviation",)), ("min", ("minimum", "least")), ("max", ("maximum", "greatest"))):
        if name in ws or any(a in ws for a in also):
            return name, None
    return None


def tnum(x):
    return x if isinstance(x, int) else terms.tint(x)


class Held:
    """What a grid holds: its cells, its limits, and the arrays whose numbers it may give."""

    def __init__(self, cells, limits, arrays, gaps):
        self.cells, self.limits, self.arrays = cells, limits, arrays
        #: whether cells that hold no number have to be left out
        self.gaps = gaps


def mean_of(ck, a, d, gaps):
    """The forms in which the mean of an array can be given."""
    f = ck.free("nan_mean")
    out = [ck.run(f, [d]).ret]
    if not gaps:
        dims = [a.dim(d, k) for k in range(3)]
        out.append(div(models.total_of(d, dims), mul(mul(dims[0], dims[1]), dims[2])))
    return out


def deviation_of(ck, d, gaps, x):
    if not gaps and x.k == "call" and x.a[0].split("::")[-1] == "std" and x.a[1] is d:
        return [x]
    return [ck.run(ck.free("nan_std"), [d]).ret]


def extreme_of(a, kind, d, x):
    """The search of libraries, or one of its own through all cells."""
    v = x.a[0] if x.k == "extr" else None
    if x.k == "extr" and x.a[1] == kind and x.a[2].k == "idx" and x.a[2].a[0] is d:
        # (bound variable, min or max, item, which, start)
        dims = [a.dim(d, k) for k in range(3)]
        at = x.a[2].a[1:]
        at = at[0] if len(at) == 1 and isinstance(at[0], tuple) else at
        flat = len(at) == 3 and all(
            y.k == "uix" and tuple(y.a[0]) == tuple(dims) and y.a[1] is mk("bv", v) and tnum(y.a[2]) == k
            for k, y in enumerate(at))
        many = mul(mul(dims[0], dims[1]), dims[2])
        g = B.AND(cmp("Lt", mk("bv", v), many, True), B.NOT(terms.is_nan(x.a[2])))
        start = x.a[4]
        if flat and core.same_guard(terms.as_bool(x.a[3]), g, 1) and (
                terms.is_nan(start) == 1 or is_extreme(start, 1 if kind == "min" else -1)):
            return [x]
    return [mk(f"{kind}_skipnan", d)]


def among(ck, key, x, wants, care, rule, w):
    """x is one of what it may be; all but the last are tried without complaint."""
    for want in wants[:-1]:
        if core.differ(x, want, care) is None:
            return ck.same(key, x, want, care, rule, w)
    return ck.same(key, x, wants[-1], care, rule, w)


def said(ck, key, a, t, held, care, w):
    found = {}
    for label, values in sentences(t):
        what = subject(label)
        if what is None:
            continue
        ck.count("lines")
        name, k = what
        here = f"{key}:{name}" + ("" if k is None else f":{k}")
        rule = RULE.get(name, "the mean said of a component is that of its values")
        found[what] = found.get(what, 0) + 1
        if name in ("cells", "limits"):
            whole = held.cells if name == "cells" else idx(held.limits, (num(k),))
            wants = [idx(whole, (num(i),)) for i in range(3 if name == "cells" else 2)]
            if len(values) == 1:
                values = [idx(values[0], (num(i),)) for i in range(len(wants))]
            ck.ob(f"{here}:many", len(values) == len(wants), rule, w, lambda: str(len(values)))
            for i, (x, y) in enumerate(zip(values, wants)):
                ck.same(f"{here}:{i}", x, y, care, rule, w)
            continue
        ck.ob(f"{here}:many", len(values) == 1, rule, w, lambda: str(len(values)))
        d = held.arrays[0 if k is None else k]
        x = values[0]
        if name in ("mean", "dim"):
            wants = mean_of(ck, a, d, held.gaps)
        elif name == "std":
            wants = deviation_of(ck, d, held.gaps, x)
        else:
            wants = extreme_of(a, name, d, x)
        among(ck, here, x, wants, care, rule, w)
    return found


def text_of(t):
    while t.k == "text" and not isinstance(t.a[0], (tuple, str)) and len(t.a) == 2 and t.a[0] is arg(1):
        t = t.a[1]
    return models.spelled(t)


def spell(x):
    """A text that was written; pieces of text put into it are part of it."""
    t = text_of(x)
    if t.k != "words":
        return None
    return tuple(y.a[0] if not isinstance(y, str) and y.k == "str" else y for y in t.a[0])


def passed_on(t, written):
    """The failure of one of the writes."""
    return terms.is_variant(t, "Err") == 1 and any(x in written for x in subterms(t))


FRAME = {("cells", None), ("limits", 0), ("limits", 1), ("limits", 2)}
VALUES = {("mean", None), ("std", None), ("min", None), ("max", None)}
DIMS = {("dim", 0), ("dim", 1), ("dim", 2)}


def one(ck, key, f, held, need, always):
    if f is None:
        return ck.fail(f"{key}:anchor", "every grid has a text", "", "not found")
    w = f["span"]
    a = ck.run(f)
    if always:
        ck.implied(f"{key}:given", 1, a.ok, "the text of a grid can always be given", w)
    t = a.ret
    seen = 0
    whole = a.ret if f["name"] == "fmt" else fld(a.ret, "Ok", "0")
    # what is written to the formatter, in turn; a failure to write is passed on
    written = sorted({x for x in subterms(whole) if x.k == "text" and len(x.a) == 2 and x.a[0] is arg(1)}, key=lambda x: x.id)
    for t, g in parts(whole):
        g = B.AND(g, a.ok)
        if not terms.sat(g) or passed_on(t, written):
            continue
        if len(written) > 1:
            for x in written:
                ck.ob(f"{key}:failure", x is t or not terms.sat(B.AND(g, B.NOT(terms.is_variant(x, "Ok")))),
                      "what is written before is written as well", w, lambda: clip(show(x)))
            said_ = [spell(x) for x in written]
            if None in said_:
                return ck.fail(f"{key}:text", "the text of a grid says what it holds", w, clip(show(a.ret)))
            t = mk("words", sum(said_, ()))
        else:
            t = text_of(written[0] if written else t)
        if t.k != "words":
            return ck.fail(f"{key}:text", "the text of a grid says what it holds", w, clip(show(a.ret)))
        seen = B.OR(seen, g)
        if f["name"] == "fmt" and [y for y in t.a[0] if y != ""] == [SELF]:
            # the text for debugging is the other one, which is looked at by itself
            continue
        found = said(ck, key, a, t, held, g, w)
        ck.ob(f"{key}:whole", set(found) >= need and all(n == 1 for n in found.values()),
              "cells, limits and what the values are like are all said once", w,
              lambda: str(sorted(map(str, need ^ set(found)))))
    if written:
        fails = [g for t, g in parts(whole) if passed_on(t, written)]
        seen = B.OR(seen, *fails) if fails else seen
    ck.implied(f"{key}:always", a.ok, seen, "the text of a grid says what it holds", w)


def shown(ck):
    """Text in Python."""
    grid = fld(SELF, "", "grid")
    for cls in ("PyGrid", "PyVecGrid"):
        for name in ("__str__", "__repr__"):
            f = ck.method(cls, name)
            a = ck.run(f)
            got = {n: [x for x in subterms(a.ret) if x.k == "call" and x.a[0].split("::")[-1] == n and x.a[1:] == (grid,)]
                   for n in ("get_cells", "get_limits", "get_data")}
            if any(not v for v in got.values()):
                ck.fail(f"{cls}.{name}:grid", "the text of a grid is that of the grid it wraps", f["span"],
                        str([n for n, v in got.items() if not v]))
                continue
            held = Held(got["get_cells"][0], got["get_limits"][0], [got["get_data"][0]], cls == "PyGrid")
            one(ck, f"{cls}.{name}", f, held, FRAME | VALUES, cls == "PyGrid")
    ck.floor("lines", 32, "lines with numbers")


def printed(ck):
    """Text in Rust."""
    for cls in ("CartesianGrid3D", "CylindricalGrid3D"):
        for tr in ("Debug", "Display"):
            held = Held(fld(SELF, "", "cells"), fld(SELF, "", "limits"), [fld(SELF, "", "data")], True)
            one(ck, f"{cls}:{tr}", ck.P.method(cls, tr, "fmt"), held, FRAME | VALUES, True)
    for tr in ("Debug", "Display"):
        f = ck.P.method("VectorGrid", tr, "fmt")
        if f is None:
            ck.fail(f"VectorGrid:{tr}:anchor", "every grid has a text", "", "not found")
            continue
        a = ck.run(f)
        parts_ = [idx(fld(SELF, "", "data"), (num(k),)) for k in range(3)]
        calls = {(x.a[0].split("::")[-1], x.a[1]): x for x in subterms(a.ret) if x.k == "call" and len(x.a) == 2}
        try:
            held = Held(calls["get_cells", parts_[0]], calls["get_limits", parts_[0]],
                        [calls["get_data", p] for p in parts_], False)
        except KeyError as e:
            ck.fail(f"VectorGrid:{tr}:grid", "the text of a field of vectors is that of its components", f["span"],
                    clip(str(e)))
            continue
        one(ck, f"VectorGrid:{tr}", f, held, FRAME | DIMS, False)
    ck.floor("lines", 55, "lines with numbers")

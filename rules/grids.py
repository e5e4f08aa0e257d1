"""Grids: what a deposit, a division, a reset, a projection or a cut does to the cells, judged
through what a caller can observe (the getters, is_inside, cell_id, get_value)."""

import terms
from core import B, Abort, clip, differ, gshow, mk, num, show
from spec import SELF
from terms import ANY, add, anyk, as_bool, cmp, fld, idx, mk_bool, mk_case, mul, sub, subst

CARTESIAN, CYLINDRICAL, VECTOR = "CartesianGrid3D", "CylindricalGrid3D", "VectorGrid"
SOLID = (CARTESIAN, CYLINDRICAL)
INLINE = ("datamanager::DataManager",)
Q = mk("in", "somewhere")                     # any position
POS, POS2, V = mk("in", "position"), mk("in", "later position"), mk("in", "value")
AT = tuple(anyk(k) for k in range(3))         # any cell

LAYOUT = ("get_xpositions", "get_ypositions", "get_zpositions", "get_limits", "get_cells",
          "is_cylindrical")


def run(ck, ty, name, args, **kw):
    return ck.run(ck.method(ty, name), list(args), opaque_traits=INLINE, **kw)


def look(ck, ty, name, obj, *args):
    """What an observer answers on obj."""
    return run(ck, ty, name, [obj, *args]).ret


def data(ck, ty, obj):
    return look(ck, ty, "get_data", obj)


def weight(ck, ty, obj):
    return look(ck, ty, "get_weights", obj)


def cells(ck, ty):
    c = look(ck, ty, "get_cells", SELF)
    return [idx(c, (num(k),)) for k in range(3)]


def in_grid(ck, ty, ix=AT):
    """ix is a cell of the grid (indices are not negative)."""
    return B.AND(*[cmp("Lt", i, n, True) for i, n in zip(ix, cells(ck, ty))])


def where(ck, ty, pos):
    """(cell of pos, guard that it has one, guard that looking does not panic)."""
    a = run(ck, ty, "cell_id", [SELF, pos])
    c = fld(a.ret, "Ok", "0")
    return [idx(c, (num(k),)) for k in range(3)], terms.is_variant(a.ret, "Ok"), a.ok


def hit(c):
    return B.AND(*[cmp("Eq", x, y, True) for x, y in zip(AT, c)])


def plus(base, v, g):
    return add(base, mk_case([(v, g), (num(0), B.NOT(g))]))


def cell_of(x):
    return idx(x, AT)


def frame(ck, key, ty, a, care, what):
    """The layout of the grid is as before."""
    after = a.final[0]
    for g in LAYOUT:
        ck.same(f"{key}:{g}", look(ck, ty, g, after), look(ck, ty, g, SELF), care,
                f"{what} leaves {g[4:] if g.startswith('get_') else 'the kind of grid'} as it was",
                a.fn["span"])
    for g in ("is_inside", "cell_id"):
        x, y = run(ck, ty, g, [after, Q]), run(ck, ty, g, [SELF, Q])
        ck.same(f"{key}:{g}", x.ret, y.ret, B.AND(care, x.ok, y.ok),
                f"{what} leaves the cell of every position as it was", a.fn["span"])
    ck.count("frames")


def total(ck, key, ty, a, care, what):
    ck.implied(f"{key}:completes", care, a.ok, f"{what} does not panic", a.fn["span"])


# ---------------------------------------------------------------- C05
def deposits(ck):
    for ty in SOLID:
        d, w = cell_of(data(ck, ty, SELF)), cell_of(weight(ck, ty, SELF))
        c, ok, fine = where(ck, ty, POS)
        c2, ok2, fine2 = where(ck, ty, POS2)
        cid = mk("in", "cell")
        cc = [idx(cid, (num(k),)) for k in range(3)]
        legal = lambda x, g: B.OR(B.NOT(g), in_grid(ck, ty, x))
        half = terms.div(num(1), num(2))
        here, there = B.AND(ok, hit(c)), B.AND(ok2, hit(c2))
        one = B.AND(fine, legal(c, ok), in_grid(ck, ty))
        both = B.AND(one, fine2, legal(c2, ok2))
        if ty == CARTESIAN:
            g1, g2 = B.AND(ok, ok2, hit(c)), B.AND(ok, ok2, hit(c2))
            tr = (both, plus(plus(d, mul(half, V), g1), mul(half, V), g2),
                  plus(plus(w, half, g1), half, g2))
        else:
            tr = (one, plus(d, V, here), plus(w, num(1), here))
        table = {
            "add_value": ([POS, V], one, plus(d, V, here), plus(w, num(1), here),
                          "adding a value at a position"),
            "add_to_cell": ([cid, V], B.AND(in_grid(ck, ty, cc), in_grid(ck, ty)),
                            plus(d, V, hit(cc)), plus(w, num(1), hit(cc)),
                            "adding a value to a cell"),
            "insert": ([POS, V], one, mk_case([(V, here), (d, B.NOT(here))]), w,
                       "inserting a value at a position"),
            "add_trajectory_value": ([POS, POS2, V], *tr, "adding along a trajectory"),
        }
        for name, (args, care, dd, ww, what) in table.items():
            a = run(ck, ty, name, [SELF, *args])
            k = f"{ty}:{name}"
            total(ck, k, ty, a, care, what)
            care = B.AND(care, a.ok)
            ck.same(f"{k}:data", cell_of(data(ck, ty, a.final[0])), dd, care,
                    f"{what} changes the data of exactly its cell by exactly its share",
                    a.fn["span"])
            ck.same(f"{k}:weight", cell_of(weight(ck, ty, a.final[0])), ww, care,
                    f"{what} changes the weight of exactly its cell by exactly its share",
                    a.fn["span"])
            frame(ck, k, ty, a, care, what)
            ck.count("deposits")
        a = run(ck, ty, "get_value", [SELF, POS])
        k = f"{ty}:get_value"
        total(ck, k, ty, a, one, "reading at a position")
        ck.same(k, a.ret, mk_case([(idx(data(ck, ty, SELF), tuple(c)), ok),
                                   (mk("const", "nan"), B.NOT(ok))]), B.AND(one, a.ok),
                "reading at a position gives the value of its cell, NaN where there is none",
                a.fn["span"])
        ck.count("deposits")
    ck.floor("deposits", 10, "deposit and read operations")
    ck.floor("frames", 8, "frames")


# ---------------------------------------------------------------- C08
def normal(ck):
    for ty in SOLID:
        D, W = data(ck, ty, SELF), weight(ck, ty, SELF)
        d, w = cell_of(D), cell_of(W)
        O, X = mk("in", "array"), mk("in", "scalar")
        o = cell_of(O)
        fits = B.AND(*[cmp("Eq", terms.dim_of(O, k), n, True)
                       for k, n in enumerate(cells(ck, ty))])
        g = in_grid(ck, ty)
        table = {
            "divide_by_weight": ([], g, terms.div(d, w), w, "dividing by the weights"),
            "divide_by_scalar": ([X], g, terms.div(d, X), w, "dividing by a number"),
            "divide_by_array": ([O], B.AND(g, fits), terms.div(d, o), w, "dividing by an array"),
            "set_data": ([O], B.AND(g, fits), o, w, "setting the data"),
            "set_weights": ([O], B.AND(g, fits), d, o, "setting the weights"),
        }
        for name, (args, care, dd, ww, what) in table.items():
            a = run(ck, ty, name, [SELF, *args])
            k = f"{ty}:{name}"
            total(ck, k, ty, a, care, what)
            if name.startswith("set_"):
                ck.same_guard(f"{k}:shape", a.ok, fits, 1,
                              f"{what} is refused exactly when the shape differs", a.fn["span"])
            ck.same(f"{k}:data", cell_of(data(ck, ty, a.final[0])), dd, care,
                    f"{what} leaves in each cell's data exactly what it says", a.fn["span"])
            ck.same(f"{k}:weight", cell_of(weight(ck, ty, a.final[0])), ww, care,
                    f"{what} leaves in each cell's weight exactly what it says", a.fn["span"])
            frame(ck, k, ty, a, care, what)
            ck.count("whole-grid operations")
    ck.floor("whole-grid operations", 10, "whole-grid operations")


# ---------------------------------------------------------------- C09
def empty_copies(ck):
    for ty in SOLID:
        a = run(ck, ty, "new_zeros", [SELF])
        k = f"{ty}:new_zeros"
        total(ck, k, ty, a, 1, "an empty copy")
        for nm, f in (("data", data), ("weight", weight)):
            ck.same(f"{k}:{nm}", f(ck, ty, a.ret), zeros(ck, ty), 1, f"an empty copy of a grid has no {nm}, in every cell",
                    a.fn["span"])
        for o in LAYOUT:
            ck.same(f"{k}:{o}", look(ck, ty, o, a.ret), look(ck, ty, o, SELF), 1,
                    "an empty copy of a grid has its layout", a.fn["span"])
        for o in ("is_inside", "cell_id"):
            x, y = run(ck, ty, o, [a.ret, Q]), run(ck, ty, o, [SELF, Q])
            ck.same(f"{k}:{o}", x.ret, y.ret, B.AND(x.ok, y.ok),
                    "an empty copy of a grid finds the same cells", a.fn["span"])
        ck.ob(f"{k}:template", a.final.get(0, SELF) is SELF,
              "making an empty copy leaves the template as it was", a.fn["span"])
        ck.count("empty copies")
    a = run(ck, VECTOR, "new_zeros", [SELF])
    comps = fld(a.ret, "", "data")
    for k in range(3):
        x = copy_of(idx(comps, (num(k),)))
        ok = x.k == "fresh" and x.a[0].k == "call" and x.a[0].a[0] == "new_zeros" \
            and any(x.a[0].a[1] is idx(fld(SELF, "", "data"), (num(j),)) for j in range(3))
        ck.ob(f"{VECTOR}:new_zeros:{k}", ok,
              "each component of an empty vector grid is an empty copy of a component",
              a.fn["span"], lambda: clip(show(x)))
    objs = [idx(comps, (num(k),)) for k in range(3)]
    ck.ob(f"{VECTOR}:new_zeros:apart", len(set(objs)) == 3,
          "the components of a vector grid are separate grids", a.fn["span"])
    ck.count("empty copies")
    ck.floor("empty copies", 3, "grid types")


def zeros(ck, ty):
    return terms.ew(num(0), tuple(cells(ck, ty)))


# ---------------------------------------------------------------- C07
MUTATORS = {"add_value": 2, "add_to_cell": 2, "add_trajectory_value": 3, "insert": 2,
            "divide_by_array": 1, "divide_by_scalar": 1, "divide_by_weight": 0,
            "set_weights": 1, "outlier_removal": 2}
READERS = {"is_inside": 1, "cell_id": 1, "get_xpositions": 0, "get_ypositions": 0,
           "get_zpositions": 0, "get_limits": 0, "get_cells": 0, "get_data": 0,
           "get_weights": 0, "is_cylindrical": 0, "collapse_weight": 1, "collapse_two": 2,
           "collapse_two_weight": 2, "cell_ids_in_trajectory": 2}


def component(k):
    return idx(fld(SELF, "", "data"), (num(k),))


def on_component(e, k):
    """Guard under which effect e acts on component k, or None when that is not clear."""
    if e.obj is component(k):
        return e.cond if not e.loops else None
    if e.obj in [component(j) for j in range(3)]:
        return 0 if not e.loops else None
    if e.obj.k == "idx" and e.obj.a[0] is fld(SELF, "", "data") and len(e.loops) == 1 \
            and len(e.obj.a[1]) == 1:
        ix = e.obj.a[1][0]
        vs = [v for v in terms.loopy(ix) if terms.tint(sub(ix, v)) is not None]
        if len(vs) == 1:
            at = sub(num(k), sub(ix, vs[0]))
            return terms.subst_guard(e.cond, {vs[0]: at})
    return None


def fan_out(ck):
    for name, n in MUTATORS.items():
        ins = [mk("in", f"input {i}") for i in range(n)]
        f = ck.method(VECTOR, name)
        a = ck.run(f, [SELF, *ins])
        es = [e for e in ck.effs(a) if e.kind == "call" and e.obj is not None
              and e.name in MUTATORS]
        ck.ob(f"{name}:alone", all(e.name == name for e in es),
              "an operation on a vector grid is that operation on its components", f["span"],
              lambda: str([e.name for e in es]))
        for k in range(3):
            gs = [on_component(e, k) for e in es]
            clear = all(g is not None for g in gs)
            one = clear and all(not terms.sat(B.AND(x, y))
                                for i, x in enumerate(gs) for y in gs[i + 1:])
            ck.ob(f"{name}:{k}", clear and one and terms.equiv(B.OR(*gs), 1, 1),
                  f"{name} on a vector grid acts on component {k}, always and once", f["span"],
                  lambda: f"{sum(1 for g in gs if g)} operations on it")
            ck.count("component operations")
        for e in es:
            ck.ob(f"{name}:args", len(e.args) == n and all(
                differ(x, y, e.cond) is None for x, y in zip(e.args, ins)),
                "components get the operation's own arguments", f"{e.sp}",
                lambda: clip(str([show(x) for x in e.args])))
        ck.implied(f"{name}:completes", 1, a.ok, f"{name} on a vector grid completes", f["span"])
    for name, n in READERS.items():
        ins = [mk("in", f"input {i}") for i in range(n)]
        f = ck.method(VECTOR, name)
        a = ck.run(f, [SELF, *ins])
        ck.ob(f"{name}:read", any(differ(a.ret, mk("call", name, component(k), *ins), a.ok) is None
                                  for k in range(3)),
              f"{name} of a vector grid is that of a component, with the same arguments",
              f["span"], lambda: clip(show(a.ret)))
        ck.ob(f"{name}:pure", not [e for e in ck.effs(a) if e.kind == "call"
                                   and e.name in MUTATORS],
              "reading changes nothing", f["span"])
        ck.implied(f"{name}:completes", 1, a.ok, f"{name} of a vector grid completes", f["span"])
        ck.count("component reads")
    f = ck.method(VECTOR, "new")
    g = mk("in", "grid")
    a = ck.run(f, [g])
    comps = [idx(fld(a.ret, "", "data"), (num(k),)) for k in range(3)]
    for k, x in enumerate(comps):
        ck.ob(f"new:{k}", copy_of(x) is g, f"component {k} starts as a copy of the given grid",
              f["span"], lambda: clip(show(x)))
    ck.ob("new:apart", len(set(comps)) == 3,
          "the components are separate grids", f["span"])
    ck.floor("component operations", 27, "operations on components")
    ck.floor("component reads", 14, "reads of components")


def copy_of(x):
    while x.k == "fresh" and x.a[0].k == "clone":
        x = x.a[0].a[0]
    return x

"""Free-standing numerics: statistics that skip NaN, coordinate meshes, flattening, rotations, and
the grids and thresholds a comparison of two recordings uses."""

import terms
from core import B, clip, differ, gshow, mk, num, show
from geometry import limits
from grids import CARTESIAN, CYLINDRICAL, INLINE
from terms import ANY, add, anyk, as_bool, cmp, div, fld, idx, mk_case, mul, sub, summation

ARR = mk("in", "array")


def args_of(ck, f, *xs):
    """The function takes exactly these arguments."""
    ck.ob(f"{f['name']}:arguments", f["argc"] == len(xs), "the operation takes its documented "
          "arguments", f["span"], f"{f['argc']} arguments")
    return list(xs)


def every(an, arr, rank, value):
    """Sum over all elements of value(element) where it is a number."""
    vs = [mk("gv", ("el", k)) for k in range(rank)]
    x = idx(arr, tuple(vs))
    body, g = value(x), B.NOT(terms.is_nan(x))
    for k in reversed(range(rank)):
        body = summation(body, B.AND(g, cmp("Lt", vs[k], an.dim(arr, k), True)), vs[k])
        g = 1
    return body


# ---------------------------------------------------------------- C19
def statistics(ck):
    f = ck.free("nan_mean")
    a = ck.run(f, args_of(ck, f, ARR))
    s, n = every(a, ARR, 3, lambda x: x), every(a, ARR, 3, lambda x: num(1))
    mean = div(s, n)
    some = cmp("Ge", n, num(1), True)
    ck.same("mean", a.ret, mean, B.AND(some, a.ok),
            "the mean is that of the elements that are numbers", f["span"])
    ck.implied("mean:completes", some, a.ok, "the mean exists where there is a number", f["span"])
    f = ck.free("nan_std")
    a = ck.run(f, args_of(ck, f, ARR))
    q = every(a, ARR, 3, lambda x: mul(x, x))
    var = sub(div(q, n), mul(mean, mean))
    ck.same("deviation", square(a.ret), var, B.AND(some, a.ok),
            "the deviation is the root of the mean square distance to the mean, over the elements "
            "that are numbers", f["span"])
    ck.ob("deviation:root", a.ret.k == "sqrt" or all(x.k == "sqrt" for x, _ in parts(a.ret)),
          "the deviation is a root", f["span"], lambda: clip(show(a.ret)))
    ck.implied("deviation:completes", some, a.ok, "the deviation exists where there is a number",
               f["span"])
    f = ck.free("minmax")
    xs = mk("in", "values")
    a = ck.run(f, args_of(ck, f, xs))
    v = mk("bv", 1)
    x = idx(xs, (v,))
    g = B.AND(cmp("Lt", v, a.dim(xs, 0), True), B.NOT(terms.is_nan(x)))
    for k, kind in ((0, "min"), (1, "max")):
        e = fld(a.ret, "", str(k))
        ok = e.k == "extr" and e.a[1] == kind and e.a[2] is x and e.a[3] is terms.mk_bool(g)
        ck.ob(f"{kind}imum", ok, f"the {kind}imum is that of all elements that are numbers",
              f["span"], lambda: clip(show(e)))
        ck.ob(f"{kind}imum:start", ok and beyond(e.a[4], k), "the search starts beyond every "
              "finite number", f["span"], lambda: clip(show(e)))
        ck.count("extremes")
    ck.implied("extremes:completes", 1, a.ok, "finding the extremes never panics", f["span"])
    ck.floor("extremes", 2, "extremes")


def parts(t):
    return t.a[0] if t.k == "case" else ((t, 1),)


def square(t):
    return mk_case([(mul(x, x), c) for x, c in t.a[0]]) if t.k == "case" else mul(t, t)


def beyond(t, k):
    import selector
    return selector.is_extreme(t, -1 if k else 1)


# ---------------------------------------------------------------- C20
def meshes(ck):
    ax = [mk("in", f"axis {k}") for k in range(3)]
    for name, r in (("meshgrid", 2), ("meshgrid3d", 3)):
        f = ck.free(name)
        a = ck.run(f, args_of(ck, f, *ax[:r]))
        ck.implied(f"{name}:completes", 1, a.ok, "a mesh exists for any axes", f["span"])
        for k in range(r):
            m = fld(a.ret, "", str(k))
            ck.same(f"{name}:{k}", idx(m, tuple(anyk(j) for j in range(r))),
                    idx(ax[k], (anyk(k),)), inrange(a, ax[:r]),
                    f"the mesh of axis {k} holds at every point that axis's own coordinate",
                    f["span"])
            for j in range(r):
                ck.same(f"{name}:{k}:extent{j}", a.dim(m, j), a.dim(ax[j], 0), 1,
                        "a mesh has one point per pair of coordinates", f["span"])
            ck.count("meshes")
    for name, r in (("flatten_2d", 2), ("flatten_3d", 3)):
        f = ck.free(name)
        a = ck.run(f, args_of(ck, f, ARR))
        n = num(1)
        for k in range(r):
            n = mul(n, a.dim(ARR, k))
        ck.same(f"{name}:length", a.dim(a.ret, 0), n, 1, "flattening keeps every element", f["span"])
        at = mk("gv", ("at", r))
        dims = tuple(a.dim(ARR, k) for k in range(r))
        want = idx(ARR, tuple(terms.uix(dims, at, k) for k in range(r)))
        ck.same(name, idx(a.ret, (at,)), want, cmp("Lt", at, n, True),
                "flattening goes through the elements row by row", f["span"])
        ck.implied(f"{name}:completes", 1, a.ok, "flattening never panics", f["span"])
        ck.count("meshes")
    ck.floor("meshes", 7, "meshes and flattenings")


def inrange(a, axes):
    return B.AND(*[cmp("Lt", anyk(k), a.dim(x, 0), True) for k, x in enumerate(axes)])


# ---------------------------------------------------------------- C36
def turned(v, angles):
    """v turned by each angle around x, then y, then z."""
    v = list(v)
    for k in range(3):
        s, c = mk("sin", angles[k]), mk("cos", angles[k])
        i, j = (k + 1) % 3, (k + 2) % 3
        v[i], v[j] = sub(mul(v[i], c), mul(v[j], s)), add(mul(v[i], s), mul(v[j], c))
    return v


def rotations(ck):
    ang, p, q = mk("in", "angles"), mk("in", "point"), mk("in", "anchor")
    at = lambda x: [idx(x, (num(k),)) for k in range(3)]
    f = ck.free("rotate_position")
    a = ck.run(f, args_of(ck, f, p, ang, q))
    want = turned([sub(x, y) for x, y in zip(at(p), at(q))], at(ang))
    for k in range(3):
        ck.same(f"position:{k}", idx(a.ret, (num(k),)), add(want[k], idx(q, (num(k),))), a.ok,
                "a position is turned around the anchor by each angle in turn, keeping its "
                "distance from it", f["span"])
        ck.count("components")
    ck.implied("position:completes", 1, a.ok, "turning a position never panics", f["span"])
    f = ck.free("rotate_velocity")
    a = ck.run(f, args_of(ck, f, p, ang))
    want = turned(at(p), at(ang))
    for k in range(3):
        ck.same(f"velocity:{k}", idx(a.ret, (num(k),)), want[k], a.ok,
                "a velocity is turned by the same angles and keeps its magnitude", f["span"])
        ck.count("components")
    ck.implied("velocity:completes", 1, a.ok, "turning a velocity never panics", f["span"])
    ck.floor("components", 6, "components")


# ---------------------------------------------------------------- C30
def comparison(ck):
    made_grids(ck)
    threshold(ck)
    pair(ck)


def made_grids(ck):
    dim, ty, cells = mk("in", "dimensions"), mk("in", "kind"), mk("in", "cells")
    f = ck.free("make_grid")
    a = ck.run(f, args_of(ck, f, dim, ty, cells))
    lim = mk("array", tuple(mk("array", (idx(dim, (num(0), num(k))), idx(dim, (num(1), num(k)))))
                            for k in range(3)))
    cs = mk("array", tuple(idx(cells, (num(k),)) for k in range(3)))
    known = 0
    for nm, t in (("cartesian", CARTESIAN), ("cylindrical", CYLINDRICAL)):
        g = terms.eq(ty, mk("str", nm))
        known = B.OR(known, g)
        b = ck.run(ck.method(t, "new"), [cs, limits(lim=lim)]
                   + ([mk("str", "volume")] if t == CYLINDRICAL else []), opaque_traits=INLINE)
        m = {ty: mk("str", nm)}
        got = terms.subst(a.ret, m)
        ck.ob(f"kind:{nm}", got.k == "adt" and got.a[1] == b.ret.a[1],
              f"a {nm} grid is made when asked for", f["span"], lambda: clip(show(got)))
        for field, deep in (("cells", 0), ("limits", 1)):
            for at in [(k,) for k in range(3)] if not deep else \
                    [(k, j) for k in range(3) for j in range(2)]:
                x, y = fld(got, "", field), fld(b.ret, "", field)
                for j in at:
                    x, y = idx(x, (num(j),)), idx(y, (num(j),))
                ck.same(f"grid:{nm}:{field}", x, y, B.AND(a.ok, b.ok), "the grid spans the given "
                        "dimensions with the given cells", f["span"])
        ck.count("grids")
    bad = [e for e in a.log if e.kind == "panic" and e.fn == f["id"]]
    ck.ob("kind:refused", all(not terms.sat(B.AND(e.cond, known)) for e in bad),
          "only an unknown kind is refused", f["span"])
    ck.ob("kind:unknown", not terms.sat(B.AND(a.ok, B.NOT(known))),
          "an unknown kind of grid is refused", f["span"])
    ck.floor("grids", 2, "kinds of grid")


def threshold(ck):
    arr, q = mk("in", "field"), mk("in", "quantile")
    f = ck.free("binary_threshold")
    a = ck.run(f, args_of(ck, f, arr, q))
    i = tuple(anyk(k) for k in range(3))
    x, v = idx(arr, i), idx(a.ret, i)
    gs = {num(0): 0, num(1): 0}
    other = 0
    for y, c in parts(v):
        if y in gs:
            gs[y] = B.OR(gs[y], c)
        else:
            other = B.OR(other, c)
    ck.ob("threshold:binary", not terms.sat(B.AND(a.ok, other)), "a thresholded field holds zeros "
          "and ones", f["span"], lambda: clip(show(v)))
    ts = [terms.add(at[1], x) for at in B.atoms(gs[num(1)]) if at[0] in "ELG"] + \
         [terms.sub(x, at[1]) for at in B.atoms(gs[num(1)]) if at[0] in "ELG"]
    ok = [t for t in ts if x not in terms.subterms(t)
          and terms.equiv(gs[num(1)], cmp("Gt", x, t, False), a.ok)]
    ck.ob("threshold:above", bool(ok), "a cell is one exactly when its value is above a threshold "
          "common to all cells", f["span"], lambda: clip(show(v)))
    inr = B.AND(cmp("Ge", q, num(0), False), cmp("Le", q, num(1), False))
    ck.ob("threshold:refused", not terms.sat(B.AND(a.ok, B.NOT(inr))),
          "a quantile outside zero to one is refused", f["span"])
    ck.ob("threshold:possible", terms.sat(B.AND(a.ok, inr)), "other quantiles are not",
          f["span"])
    for k in range(3):
        ck.same(f"threshold:extent{k}", a.dim(a.ret, k), a.dim(arr, k), a.ok,
                "a thresholded field has the cells of the field", f["span"])


def pair(ck):
    d1, d2, g = mk("in", "first data"), mk("in", "second data"), mk("in", "grid")
    f = ck.default("Comparison", "compare")
    a = ck.run(f, [mk("in", "self"), d1, d2, g])
    for nm, want in (("data", d1), ("data2", d2)):
        ck.same(f"pair:{nm}", fld(a.ret, "", nm), want, a.ok,
                "a comparison keeps the two recordings in the order given", f["span"])
    from grids import copy_of
    gs = [fld(a.ret, "", nm) for nm in ("grid", "grid2")]
    for k, x in enumerate(gs):
        ck.ob(f"pair:grid{k}", copy_of(x) is g, "each recording is compared on a copy of the "
              "given grid", f["span"], lambda: clip(show(x)))
    ck.ob("pair:apart", gs[0] is not gs[1], "the two copies are separate", f["span"])
    ck.implied("pair:completes", 1, a.ok, "starting a comparison never panics", f["span"])
    f = ck.method("Comparer", "velocityfield")
    me = mk("in", "comparer")
    ins = [mk("in", "mode"), mk("in", "lowest"), mk("in", "highest")]
    a = ck.run(f, [me, *ins])
    es = [e for e in ck.effs(a) if e.kind == "call" and e.name == "velocityfield"]
    sel = ck.run(ck.method("ParticleSelector", "default")).ret
    for k, (d, gr) in enumerate((("data", "grid"), ("data2", "grid2"))):
        mine = [e for e in es if e.obj is fld(me, "", d)]
        ok = len(mine) == 1 and len(mine[0].args) == 5 and terms.equiv(mine[0].cond, 1) and \
            not mine[0].loops
        ck.ob(f"field:{d}", ok, "each recording's velocity field is computed once", f["span"],
              lambda: f"{len(mine)} computations")
        if not ok:
            continue
        e = mine[0]
        ck.ob(f"field:{d}:grid", copy_of(e.args[0]) is fld(me, "", gr), "on a copy of its own grid",
              f["span"], lambda: clip(show(e.args[0])))
        ck.ob(f"field:{d}:same", all(terms.eq(x, y) == 1 or x is y
                                     for x, y in zip(e.args[1:], [sel, *ins])),
              "with all particles selected, and the caller's mode and limits", f["span"],
              lambda: clip(str([show(x) for x in e.args[1:]])))
        out = fld(a.ret, "", str(k))
        res = [x for x in terms.subterms(out) if x.k == "call" and x.a[0] == "velocityfield"]
        ck.ob(f"field:{d}:result", out.k == "flat" and len(set(res)) == 1
              and res[0].a[1] is fld(me, "", d) and out.a[0].k == "call"
              and out.a[0].a[0] == "get_data", "the result lists that field's values in order",
              f["span"], lambda: clip(show(out)))
        ck.count("fields")
    ck.floor("fields", 2, "compared fields")


# ---------------------------------------------------------------- C15
def lookup(ck):
    f = ck.method("GlobalStats", "timestep_at_seconds_closest")
    me, s = args_of(ck, f, mk("in", "stats"), mk("in", "seconds"))
    a = ck.run(f, [me, s])
    w = f["span"]
    ts = fld(me, "", "time_array")
    n = a.dim(ts, 0)
    at = lambda i: idx(ts, (i,))
    sane = B.AND(number(s), number(at(num(0))), number(at(sub(n, num(1)))), cmp("Ge", n, num(1), True))
    known = B.AND(cmp("Ge", s, at(num(0)), False), cmp("Le", s, at(sub(n, num(1))), False))
    ck.same_guard("range", terms.is_variant(a.ret, "Ok"), known, B.AND(sane, a.ok),
                  "a time is looked up exactly when it lies within the recording", w)
    ck.implied("completes", sane, a.ok, "a lookup never panics", w)
    k = fld(a.ret, "Ok", "0")
    for x in sorted({x for x in terms.subterms(k)
                     if x.k == "first"}, key=lambda x: x.id)[:1]:
        first = x
        break
    else:
        ck.fail("search", "the first recorded time not before the one looked for is found", w,
                clip(show(k)))
    j = mk("bv", first.a[0])
    g = as_bool(first.a[1])
    inr = cmp("Lt", j, n, True)
    ok = [o for o in ("Ge", "Gt") if terms.equiv(g, B.AND(inr, cmp(o, at(j), s, False)),
                                                number(at(j), s))]
    ck.ob("search", bool(ok), "the first recorded time not before the one looked for is found", w,
          lambda: clip(show(first)))
    exists = B.var("EX", first.a[0], first.a[1])
    # there is such a time, for the last is not before the one looked for
    k = terms.subst(k, {x: v for x in terms.subterms(k) if x.k == "case"
                        for v, c in x.a[0] if terms.implies(exists, c)})
    leaves = [(v, B.AND(c, known, sane)) for v, c in parts(k)]
    hi, lo = at(first), at(sub(first, num(1)))
    later = sub(add(hi, lo), terms.scale(s, 2))        # > 0: the one before is closer
    below, same, above = terms.rel(later, False)
    facts = B.AND(exists, B.OR(below, same, above), cmp("Ge", first, num(0), True))
    m = {terms.f_abs(sub(s, hi)): sub(hi, s), terms.f_abs(sub(hi, s)): sub(hi, s),
         terms.f_abs(sub(s, lo)): sub(s, lo), terms.f_abs(sub(lo, s)): sub(s, lo)}
    one_before = cmp("Gt", first, num(0), True)
    for v, c in leaves:
        c = B.AND(terms.subst_guard(c, m), facts)
        if not terms.sat(c):
            continue
        if differ(v, first, c) is None:
            ok = not terms.sat(B.AND(c, one_before, above))
        elif differ(v, sub(first, num(1)), c) is None:
            ok = not terms.sat(B.AND(c, B.OR(B.NOT(one_before), below)))
        else:
            ok = False
        ck.ob("closest", ok, "the timestep found is the closer of the two around the time", w,
              lambda: f"{clip(show(v))} when {gshow(c)}")
        ck.count("answers")
    ck.floor("answers", 2, "answers")


def number(*xs):
    return B.AND(*[B.NOT(terms.is_nan(x)) for x in xs])

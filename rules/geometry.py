"""Grid geometry: layout of a new grid, which positions are inside, which cell contains them,
cylindrical coordinates and velocity components."""

import fractions

import terms
from core import B, clip, differ, mk, num, show
from grids import (AT, CARTESIAN, CYLINDRICAL, INLINE, SOLID, VECTOR, copy_of, data, look, run,
                   weight)
from terms import add, anyk, as_bool, cmp, div, fld, idx, mk_case, mul, sub, subst, subst_guard

CELLS, LIM = mk("in", "cells"), mk("in", "limits")
Q = mk("in", "position")
N = [idx(CELLS, (num(k),)) for k in range(3)]
LO = [idx(LIM, (num(k), num(0))) for k in range(3)]
HI = [idx(LIM, (num(k), num(1))) for k in range(3)]
PI = terms.num(fractions.Fraction("3.141592653589793"))


def limits(variant="ThreeD", lim=LIM):
    return mk("adt", "grid::Dim", variant, ("0",), (lim,))


def sane():
    """A grid with cells, and limits that are numbers in order."""
    return B.AND(*[cmp("Ge", n, num(1), True) for n in N],
                 *[cmp("Lt", a, b, False) for a, b in zip(LO, HI)],
                 *[B.NOT(terms.is_nan(x)) for x in LO + HI])


def built(ck, ty):
    """(a grid of this type as its constructor builds it from any cells and limits, analysis)."""
    args = [CELLS, limits()] + ([mk("str", "volume")] if ty == CYLINDRICAL else [])
    a = run(ck, ty, "new", args)
    return solved(a.ret), a


# ---------------------------------------------------------------- recurrences
def solved(t):
    """t with radii r(0) = 0, r(i+1) = f(r(i)) replaced by sqrt(i * v) where the recurrence is
    seen to advance r^2 by a constant v (shown by induction: both start and step are checked)."""
    for _ in range(8):
        fins = [x for x in terms.subterms(t) if x.k == "fin"]
        if not fins:
            return t
        m = {}
        for x in sorted(fins, key=lambda x: (terms.level(x), x.id)):
            y = closed(x)
            if y is not None:
                m[x] = y
                break
        if not m:
            return t
        t = subst(t, m)
    return t


def closed(x):
    n, bodies, inits, gt = x.a
    bv = mk("bv", n)
    trip = None
    g = as_bool(gt)
    for at in B.atoms(g):
        if at[0] in "EL" and at[2]:
            p = terms.poly(at[1])
            c = p.get(((bv, 1),))
            if c in (1, -1):
                top = terms.scale(sub(at[1], terms.scale(bv, c)), -c)
                if bv not in terms.subterms(top) and g == cmp("Lt", bv, top, True):
                    trip = top
    if trip is None:
        return None
    recs = {mk("rec", n, j): j for j in range(len(bodies))}
    m = {}
    for r, j in recs.items():
        b = bodies[j]
        if inits[j] is not num(0) or b.k == "elemupd" or b.k in ("array", "tuple", "adt"):
            continue
        if any(s in terms.subterms(b) for s in recs if s is not r):
            continue
        # the step's square exceeds the square by v at every round
        v = sub(square(b), mul(r, r))
        if r in terms.subterms(v) or bv in terms.subterms(v):
            continue
        m[r] = terms.f_sqrt(mul(bv, v))
    b = subst(bodies[0], m)
    if any(r in terms.subterms(b) for r in recs if r is not mk("rec", n, 0)):
        return None
    rec0 = mk("rec", n, 0)
    if rec0 in m:
        return terms.f_sqrt(mul(trip, sub(square(bodies[0]), mul(rec0, rec0))))
    if b.k == "elemupd" and b.a[0] is rec0 and b.a[1] == (bv,) \
            and rec0 not in terms.subterms(b.a[2]):
        if differ(terms.dim_of(inits[0], 0), trip) is None:
            return terms.ew(subst(b.a[2], {bv: anyk(0)}), (trip,))
    return None


def square(b):
    if b.k == "case":
        return mk_case([(square(v), c) for v, c in b.a[0]])
    return mul(b, b)


# ---------------------------------------------------------------- specifications
def larger(x, y):
    g = cmp("Gt", x, y, False)
    return mk_case([(x, g), (y, B.NOT(g))])


def half(k):
    return terms.f_abs(div(sub(HI[k], LO[k]), num(2)))


def centre(k):
    return div(add(LO[k], HI[k]), num(2))


RADIUS = larger(half(0), half(1))


def radius_at(i):
    """Outer radius below cell i: rings of equal volume."""
    return terms.f_sqrt(mul(i, div(mul(RADIUS, RADIUS), N[0])))


def evenly(lo, hi, n, i, off):
    """Position of cell i of n equal ones, off = 1/2 for centres, 1 for upper ends."""
    return add(lo, mul(add(i, off), div(sub(hi, lo), n)))


def middle():
    return div(num(1), num(2))


# ---------------------------------------------------------------- C27
def layout(ck):
    i = anyk(0)
    for ty in SOLID:
        obj, a = built(ck, ty)
        w = a.fn["span"]
        cart = ty == CARTESIAN
        if cart:
            want = {f"get_{c}positions": evenly(LO[k], HI[k], N[k], i, middle())
                    for k, c in enumerate("xyz")}
            lim = [(LO[k], HI[k]) for k in range(3)]
        else:
            want = {"get_xpositions": div(add(radius_at(i), radius_at(add(i, num(1)))), num(2)),
                    "get_ypositions": evenly(terms.neg(PI), PI, N[1], i, num(1)),
                    "get_zpositions": evenly(LO[2], HI[2], N[2], i, num(1))}
            lim = [(num(0), RADIUS), (terms.neg(PI), PI), (LO[2], HI[2])]
        for k, (g, v) in enumerate(want.items()):
            got = look(ck, ty, g, obj)
            inr = B.AND(sane(), cmp("Lt", i, N[k], True))
            ck.same(f"{ty}:{g}:count", terms.dim_of(got, 0), N[k], sane(),
                    "a new grid lists one position per cell along each axis", w)
            ck.same(f"{ty}:{g}", idx(got, (i,)), v, inr,
                    "a new grid lists the position each cell has by cells and limits alone", w)
            ck.count("position lists")
        got = look(ck, ty, "get_limits", obj)
        for k in range(3):
            for e in range(2):
                ck.same(f"{ty}:limits:{k}{e}", idx(got, (num(k), num(e))), lim[k][e], sane(),
                        "a new grid has the limits it was given" if cart else
                        "a new cylinder spans the larger half extent, all angles and the height", w)
        got = look(ck, ty, "get_cells", obj)
        for k in range(3):
            ck.same(f"{ty}:cells:{k}", idx(got, (num(k),)), N[k], sane(),
                    "a new grid has the cells it was given", w)
        ck.same_guard(f"{ty}:kind", as_bool(look(ck, ty, "is_cylindrical", obj)),
                      0 if cart else 1, 1, "a grid knows its own kind", w)
        for nm, f in (("data", data), ("weight", weight)):
            x = f(ck, ty, obj)
            for k in range(3):
                ck.same(f"{ty}:{nm}:extent{k}", terms.dim_of(x, k), N[k], sane(),
                        f"the {nm} of a new grid has one entry per cell", w)
            ck.same(f"{ty}:{nm}", idx(x, AT), num(0), sane(),
                    f"a new grid has no {nm} in any cell", w)
        ck.implied(f"{ty}:completes", sane(), a.ok, "a grid can be made from any limits", w)
        for v in ("OneD", "TwoD"):
            f = ck.method(ty, "new")
            args = [CELLS, limits(v)] + ([mk("str", "volume")] if not cart else [])
            b = ck.run(f, args, may_die=True, opaque_traits=INLINE)
            ck.ob(f"{ty}:rejects:{v}", b is None or not terms.sat(b.ok),
                  "limits of fewer than three dimensions are rejected", w)
            ck.count("rejections")
    m = mk("in", "mode")
    b = ck.run(ck.method(CYLINDRICAL, "new"), [CELLS, limits(), m], opaque_traits=INLINE)
    ck.same_guard("mode", b.ok, terms.eq(m, mk("str", "volume")), sane(),
                  "a cylinder is made in the volume mode only", b.fn["span"])
    ck.floor("position lists", 6, "position lists")
    ck.floor("rejections", 4, "rejected kinds of limits")


# ---------------------------------------------------------------- C06
def known(p):
    return B.AND(*[B.NOT(terms.is_nan(idx(p, (num(k),)))) for k in range(3)])


def at(p, k):
    return idx(p, (num(k),))


def clamped(t, n):
    g = cmp("Lt", t, n, True)
    return mk_case([(t, g), (sub(n, num(1)), B.NOT(g))])


def even_cell(x, lo, hi, n):
    """Index of the one of n equal cells of [lo, hi] that contains x."""
    return clamped(terms.trunc(mul(div(sub(x, lo), sub(hi, lo)), n)), n)


def cell_rule(ck, ty, inside, want, care, what):
    obj, _ = built(ck, ty)
    a = run(ck, ty, "is_inside", [obj, Q])
    ck.same_guard(f"{ty}:inside", as_bool(a.ret), inside, care, what, a.fn["span"])
    ck.implied(f"{ty}:inside:completes", care, a.ok, "asking is always possible", a.fn["span"])
    c = run(ck, ty, "cell_id", [obj, Q])
    w = c.fn["span"]
    ck.same_guard(f"{ty}:cell:exists", terms.is_variant(c.ret, "Ok"), inside, B.AND(care, c.ok),
                  "a position has a cell exactly when it is inside the grid", w)
    got = fld(c.ret, "Ok", "0")
    for k in range(3):
        ck.same(f"{ty}:cell:{k}", idx(got, (num(k),)), want[k], B.AND(care, inside, c.ok),
                f"the cell of a position is the one that contains it, along axis {k}", w)
        ck.count("cell indices")
        if want[k].k == "case":
            v = idx(got, (num(k),))
            ck.implied(f"{ty}:cell:{k}:range", B.AND(care, inside, c.ok), cmp("Lt", v, N[k], True),
                       "the cell of a position is one of the grid's", w)
    return c


def cartesian_cells(ck):
    care = sane()
    inside = B.AND(known(Q), *[B.AND(cmp("Ge", at(Q, k), LO[k], False),
                                     cmp("Le", at(Q, k), HI[k], False)) for k in range(3)])
    want = [even_cell(at(Q, k), LO[k], HI[k], N[k]) for k in range(3)]
    c = cell_rule(ck, CARTESIAN, inside, want, care,
                  "a position is inside exactly when each coordinate lies in its closed limits")
    ck.implied("completes", care, c.ok, "finding a cell never panics", c.fn["span"])
    ck.floor("cell indices", 3, "cell indices")


# ---------------------------------------------------------------- C28
def cylindrical_coords():
    x, y = sub(at(Q, 0), centre(0)), sub(at(Q, 1), centre(1))
    return (terms.f_sqrt(add(mul(x, x), mul(y, y))), mk("atan2", y, x), at(Q, 2)), (x, y)


def cylinder(ck):
    obj, _ = built(ck, CYLINDRICAL)
    f = ck.method(CYLINDRICAL, "to_cylindrical")
    a = ck.run(f, [obj, Q], opaque_traits=INLINE)
    (r, th, z), (x, y) = cylindrical_coords()
    care = B.AND(sane(), known(Q))
    for k, v in enumerate((r, th, z)):
        ck.same(f"coordinates:{k}", idx(a.ret, (num(k),)), v, care,
                "cylindrical coordinates are radius and angle around the grid's axis, and height",
                f["span"])
    inside = B.AND(cmp("Le", r, RADIUS, False), cmp("Ge", z, LO[2], False),
                   cmp("Le", z, HI[2], False))
    ring = B.AND(cmp("Ge", th, terms.neg(PI), False), cmp("Le", th, PI, False))
    v = mk("gv", ("ring",))
    g = B.AND(cmp("Lt", v, N[0], True), cmp("Ge", r, radius_at(v), False),
              cmp("Le", r, radius_at(add(v, num(1))), False))
    ex, _, last = terms.some_position(g, v)
    c = cell_rule(ck, CYLINDRICAL, inside,
                  [last, even_cell(th, terms.neg(PI), PI, N[1]), even_cell(z, LO[2], HI[2], N[2])],
                  B.AND(care, ring),
                  "a position is inside exactly when within the radius and the height limits")
    ck.implied("completes", B.AND(care, ring, ex), c.ok,
               "finding a cell never panics where a ring contains the radius", c.fn["span"])
    ck.floor("cell indices", 3, "cell indices")
    velocity(ck)


def velocity(ck):
    """Velocity components of a sample, by the kind of grid."""
    f = ck.method(VECTOR, "velocity_calculation")
    vel, g = mk("in", "velocity"), mk("in", "grid")
    vg = ck.run(ck.method(VECTOR, "new"), [g])
    a = ck.run(f, [vg.ret, Q, vel])
    copies = {x: copy_of(x) for x in terms.subterms(vg.ret) if x.k == "fresh"}
    ret = subst(a.ret, copies)
    cyl = B.var("P", mk("call", "is_cylindrical", g))
    v = [at(vel, k) for k in range(3)]
    inner = [x for x in terms.subterms(ret) if x.k == "downcast" and x.a[0] is g]
    ck.ob("velocity:own_axis", len(inner) == 1, "the axis is that of the vector grid's own grid",
          f["span"], lambda: clip(show(ret)))
    axis = look(ck, CYLINDRICAL, "center", inner[0]) if inner else mk("in", "?")
    x, y = sub(at(Q, 0), at(axis, 0)), sub(at(Q, 1), at(axis, 1))
    r2 = add(mul(x, x), mul(y, y))
    round_ = [div(add(mul(x, v[0]), mul(y, v[1])), terms.f_sqrt(r2)),
              div(sub(mul(x, v[1]), mul(y, v[0])), r2), v[2]]
    ok = subst_guard(a.ok, copies)
    for nm, want, care in (("cartesian", v, B.NOT(cyl)), ("cylindrical", round_, cyl)):
        for k in range(3):
            ck.same(f"velocity:{nm}:{k}", idx(ret, (num(k),)), want[k], B.AND(care, ok),
                    "a velocity is split along the axes of the grid: as it is on a Cartesian grid, "
                    "along the radius, around the axis and along the height on a cylinder",
                    f["span"])
            ck.count("velocity components")
    ck.implied("velocity:completes", 1, ok, "splitting a velocity never panics", f["span"])
    ck.floor("velocity components", 6, "velocity components")

"""Projections of a grid on two or one axes, cuts through it, outlier removal."""

import itertools

import geometry
import terms
from core import B, mk, num
from geometry import even_cell
from grids import (AT, CARTESIAN, CYLINDRICAL, SOLID, cells, data, frame, in_grid, look, run,
                   weight)
from spec import SELF, over, var
from terms import anyk, cmp, div, idx, mk_case, mul, subst

COUNTS = mk("numbers", "of samples")           # the weights, none of them NaN


def extents(ck, key, arr, want, care, where):
    for k, n in enumerate(want):
        ck.same(f"{key}:extent{k}", terms.dim_of(arr, k), n, care,
                "the result has one element per cell of the axes that are kept", where)


def counted(ck, ty, t):
    w = weight(ck, ty, SELF)
    return subst(t, {w: COUNTS})


def some_cells(ck, ty):
    return B.AND(*[cmp("Ge", n, num(1), True) for n in cells(ck, ty)])


def mean_over(d, w, n, name="layer"):
    """Weighted mean of the terms d(i) with weights w(i) for i below n."""
    i = var(name)
    g = cmp("Lt", i, n, True)
    have = B.NOT(terms.is_nan(d(i)))
    return div(over(mul(d(i), w(i)), [(i, B.AND(g, have))]), over(w(i), [(i, g)]))


def total_over(w, n, name="layer"):
    i = var(name)
    return over(w(i), [(i, cmp("Lt", i, n, True))])


def projections(ck):
    for ty in SOLID:
        d, w, n = data(ck, ty, SELF), COUNTS, cells(ck, ty)
        care = some_cells(ck, ty)

        def at(arr, axes, pos):                # element with axes {axis: index}, rest from pos
            rest = iter(pos)
            return idx(arr, tuple(axes[k] if k in axes else next(rest) for k in range(3)))

        for x in range(3):
            keep = [k for k in range(3) if k != x]
            pos = (anyk(0), anyk(1))
            inside = B.AND(care, *[cmp("Lt", p, n[k], True) for p, k in zip(pos, keep)])

            def one(pos, x=x):
                return mean_over(lambda i: at(d, {x: i}, pos), lambda i: at(w, {x: i}, pos), n[x])

            def one_weight(pos, x=x):
                return total_over(lambda i: at(w, {x: i}, pos), n[x])
            for name, want, rule in (
                    ("collapse", one, "is the mean of the cells along the axis that is projected "
                     "away, weighted by their samples"),
                    ("collapse_weight", one_weight, "holds the number of samples along the axis "
                     "that is projected away")):
                a = run(ck, ty, name, [SELF, num(x)])
                r = counted(ck, ty, a.ret)
                key, sp = f"{ty}:{name}:{x}", a.fn["span"]
                ck.same(key, idx(r, pos), want(pos), inside,
                        f"a projection along axis {x} {rule}", sp)
                extents(ck, key, a.ret, [n[k] for k in keep], care, sp)
                ck.implied(f"{key}:completes", care, a.ok, "projecting a grid completes", sp)
                ck.count("projections")
        for x, y in itertools.permutations(range(3), 2):
            lo, hi = sorted((x, y))
            keep, = [k for k in range(3) if k not in (x, y)]
            p = anyk(0)
            inside = B.AND(care, cmp("Lt", p, n[keep], True))

            def first(j):
                pos = tuple(j if k == hi else p for k in range(3) if k != lo)
                return (mean_over(lambda i: at(d, {lo: i}, pos), lambda i: at(w, {lo: i}, pos),
                                  n[lo]),
                        total_over(lambda i: at(w, {lo: i}, pos), n[lo]))
            two = mean_over(lambda j: first(j)[0], lambda j: first(j)[1], n[hi],
                           "row")
            two_weight = total_over(lambda j: first(j)[1], n[hi], "row")
            for name, want, rule in (
                    ("collapse_two", two, "is the mean of the cells of each layer, weighted by "
                     "their samples"),
                    ("collapse_two_weight", two_weight, "holds the number of samples per layer")):
                a = run(ck, ty, name, [SELF, num(x), num(y)])
                r = counted(ck, ty, a.ret)
                key, sp = f"{ty}:{name}:{x}{y}", a.fn["span"]
                ck.same(key, idx(r, (p,)), want, inside,
                        f"a projection along axes {x} and {y} {rule}", sp)
                extents(ck, key, a.ret, [n[keep]], care, sp)
                ck.implied(f"{key}:completes", care, a.ok, "projecting a grid completes", sp)
                ck.count("projections")
    ck.floor("projections", 36, "projections")


# ---------------------------------------------------------------- cuts
def cuts(ck):
    p, which = mk("in", "position along the axis"), mk("in", "index")
    for ty in SOLID:
        d, n = data(ck, ty, SELF), cells(ck, ty)
        lim = look(ck, ty, "get_limits", SELF)
        for x in range(3):
            lo, hi = [idx(lim, (num(x), num(k))) for k in range(2)]
            keep = [k for k in range(3) if k != x]
            pos = (anyk(0), anyk(1))
            among = B.AND(*[cmp("Lt", q, n[k], True) for q, k in zip(pos, keep)],
                          *[cmp("Ge", k, num(1), True) for k in n])
            a = run(ck, ty, "slice_idx", [SELF, num(x), which])
            key, sp = f"{ty}:slice_idx:{x}", a.fn["span"]
            care = B.AND(among, cmp("Lt", which, n[x], True))
            ck.same(key, idx(a.ret, pos), layer(d, x, which, pos), care,
                    f"a cut at an index along axis {x} is that layer of cells", sp)
            extents(ck, key, a.ret, [n[k] for k in keep], care, sp)
            ck.implied(f"{key}:completes", care, a.ok, "cutting a grid at a layer completes", sp)
            ck.count("cuts")
            if ty == CYLINDRICAL and x == 0:
                continue
            a = run(ck, ty, "slice", [SELF, num(x), p])
            key, sp = f"{ty}:slice:{x}", a.fn["span"]
            care = B.AND(among, cmp("Lt", lo, hi, False), cmp("Ge", p, lo, False),
                         cmp("Le", p, hi, False), B.NOT(terms.is_nan(p)))
            ck.same(key, idx(a.ret, pos),
                    layer(d, x, even_cell(p, lo, hi, n[x]), pos), care,
                    f"a cut at a position along axis {x} is the layer of cells that contains it",
                    sp)
            extents(ck, key, a.ret, [n[k] for k in keep], care, sp)
            ck.implied(f"{key}:completes", care, a.ok,
                       "cutting a grid at a position within its limits completes", sp)
            ck.count("cuts")
        for name in ("slice", "slice_idx"):
            a = ck.run(ck.method(ty, name), [SELF, num(3), p if name == "slice" else which],
                       may_die=True, opaque_traits=("datamanager::DataManager",))
            ck.ob(f"{ty}:{name}:no such axis", a is None or not terms.sat(a.ok),
                  "a cut along an axis that does not exist is refused", sp)
            ck.count("refusals")
    radial_cut(ck, p)
    ck.floor("cuts", 12, "cuts")
    ck.floor("refusals", 4, "refused axes")


def layer(d, x, i, pos):
    at = list(pos)
    at.insert(x, i)
    return idx(d, tuple(at))


def radial_cut(ck, p):
    """Rings are not equally wide: the layer is found among the radii the constructor lays out."""
    obj, _ = geometry.built(ck, CYLINDRICAL)
    pos = (anyk(0), anyk(1))
    v = mk("gv", ("ring",))
    r = geometry.radius_at
    g = B.AND(cmp("Lt", v, geometry.N[0], True), cmp("Ge", p, r(v), False),
              cmp("Le", p, r(terms.add(v, num(1))), False))
    ex, _, last = terms.some_position(g, v)
    care = B.AND(geometry.sane(), ex, B.NOT(terms.is_nan(p)))
    a = run(ck, CYLINDRICAL, "slice", [marked(ck, obj), num(0), p])
    key, sp = f"{CYLINDRICAL}:slice:0", a.fn["span"]
    ck.same(key, idx(a.ret, pos), layer(MARKS, 0, last, pos), B.AND(care, a.ok),
            "a cut at a radius is the ring of cells that contains it", sp)
    ck.implied(f"{key}:completes", care, a.ok,
               "cutting a grid at a radius that lies in a ring completes", sp)
    ck.count("cuts")


MARKS = mk("in", "cell values")


def marked(ck, obj):
    """The grid obj with any values in its cells."""
    for k in range(len(obj.a[-1])):
        vals = obj.a[-1][:k] + (MARKS,) + obj.a[-1][k + 1:]
        new = mk("adt", *obj.a[:-1], vals)
        if data(ck, CYLINDRICAL, new) is MARKS:
            return new
    ck.fail("values", "the values of a cylindrical grid are one of its fields")


# ---------------------------------------------------------------- outliers
def outliers(ck):
    t = mk("in", "threshold")
    for ty in SOLID:
        d, w, n = data(ck, ty, SELF), weight(ck, ty, SELF), cells(ck, ty)
        care = B.AND(some_cells(ck, ty), in_grid(ck, ty))
        x = idx(d, AT)
        high = cmp("Gt", x, t, False)

        def kept(v, u, high=high):
            return mk_case([(v, high), (u, B.NOT(high))])
        near = []
        for off in itertools.product((-1, 0, 1), repeat=3):
            if any(off):
                at = tuple(terms.add(k, num(o)) for k, o in zip(AT, off))
                there = [cmp("Ge", a, num(0), True) for a, o in zip(at, off) if o < 0] + \
                        [cmp("Lt", a, m, True) for a, m, o in zip(at, n, off) if o > 0]
                if ty == CARTESIAN:            # outliers next to it do not count
                    there.append(B.NOT(cmp("Gt", idx(d, at), t, False)))
                near.append((at, B.AND(*there)))

        def mean(arr, near=near):
            def total(f):
                return terms.sum_of([(f(at), g) for at, g in near])
            return div(total(lambda at: idx(arr, at)), total(lambda at: num(1)))
        for mode, v, u, rule in (
                (0, kept(num(0), x), None, "sets the values above the threshold to zero"),
                (1, kept(t, x), None, "sets the values above the threshold to it"),
                (2, kept(mean(d), x), kept(mean(w), idx(w, AT)),
                 "sets the values above the threshold to the mean of the cells around")):
            a = run(ck, ty, "outlier_removal", [SELF, t, num(mode)])
            key, sp = f"{ty}:outliers:{mode}", a.fn["span"]
            new = a.final[0]
            ck.same(f"{key}:values", idx(data(ck, ty, new), AT), v, care,
                    f"removing outliers {rule} and leaves the other values", sp)
            ck.same(f"{key}:weights", idx(weight(ck, ty, new), AT), u or idx(w, AT), care,
                    "removing outliers leaves the samples of the other cells", sp)
            ck.implied(f"{key}:completes", care, a.ok, "removing outliers completes", sp)
            frame(ck, key, ty, a, care, "removing outliers")
            ck.count("outlier modes")
        a = ck.run(ck.method(ty, "outlier_removal"), [SELF, t, num(3)], may_die=True)
        ck.ob(f"{ty}:outliers:no such mode", a is None or not terms.sat(a.ok),
              "a mode that does not exist is refused", sp)
    ck.floor("outlier modes", 6, "outlier modes")

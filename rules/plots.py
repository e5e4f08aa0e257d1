"""What plots show: the plane of the grid they were asked for, arrows scaled without turning,
and pairs of values taken from the same cell of two grids."""

import itertools
from fractions import Fraction

import terms
from core import B, clip, mk, num, show
from maths import number
from terms import add, anyk, cmp, div, fld, idx, mk_case, mul, sub

REF, OTHER = mk("in", "grid"), mk("in", "other grid")
LAYER = mk("in", "layer")
PLOT = mk("thing", "plot")

#: coordinate along the horizontal and vertical side of the plane at right angles to an axis,
#: which are also the components of a vector seen in it
SIDES = {0: (1, 2), 1: (0, 2), 2: (0, 1)}

SINGLE = ("QuiverPlot", "UnitVectorPlot", "ScalarMap", "ScalarContour")
PAIRED = ("ParityMap", "ParityContour", "ParityPlot")
DEPTH, PLANE = "depth_averaged", "single_plane"


def constructors():
    """(type, constructor, grids, vector grids?, depth averaged?)"""
    for ty, (what, vec), how in itertools.product(
            SINGLE + PAIRED, (("vector_grid", True), ("grid", False)), (DEPTH, PLANE)):
        if not vec and ty in ("QuiverPlot", "UnitVectorPlot"):
            continue
        n = 2 if ty in PAIRED else 1
        yield ty, f"from_{what}{'s' if n == 2 else ''}_{how}", n, vec, how == DEPTH


def positions(g, k):
    return mk("call", f"get_{'xyz'[k]}positions", g)


def value(g, axis, deep, p, q):
    """Value shown at position (p, q) of the plane for the scalar grid g."""
    if deep:
        return idx(mk("call", "collapse", g, num(axis)), (p, q))
    at = [p, q]
    at.insert(axis, LAYER)
    return idx(mk("call", "get_data", g), tuple(at))


def component(g, k):
    return idx(fld(g, "", "data"), (num(k),))


def shown(g, vec, axis, deep, p, q):
    if not vec:
        return value(g, axis, deep, p, q)
    return length([value(component(g, k), axis, deep, p, q) for k in SIDES[axis]])


def length(vs):
    s = num(0)
    for v in vs:
        s = add(s, mul(v, v))
    return terms.f_sqrt(s)


def layers(t):
    """A layer of a grid is the cells of its data at that layer (see the property on cuts)."""
    m = {}
    for x in terms.subterms(t):
        if x.k == "idx" and x.a[0].k == "call" and x.a[0].a[0] == "slice_idx" \
                and len(x.a[0].a) == 4 and len(x.a[1]) == 2 and terms.is_num(x.a[0].a[2]):
            g, ax, i = x.a[0].a[1:]
            at = list(x.a[1])
            at.insert(int(terms.num_val(ax)), i)
            m[x] = idx(mk("call", "get_data", g), tuple(at))
    return terms.subst(t, m) if m else t


def built(ck, ty, name, axis, n, deep):
    f = ck.method(ty, name)
    args = [REF, OTHER][:n] + ([num(axis)] if axis is not None else [])
    if axis is not None and not deep:
        args.append(LAYER)
    if not ck.ob(f"{ty}:{name}:arguments", f["argc"] == len(args), "a plot is made from its grids,"
                 " an axis and, for a single plane, a layer", f["span"], f"{f['argc']} arguments"):
        return None
    return ck.run(f, args)


def planes(ck):
    p, q = anyk(0), anyk(1)
    for (ty, name, n, vec, deep), axis in itertools.product(constructors(), range(3)):
        if ty == "ParityPlot":
            continue
        a = built(ck, ty, name, axis, n, deep)
        if a is None:
            continue
        key, w = f"{ty}:{name}:{axis}", a.fn["span"]
        at = lambda field, ix: layers(idx(fld(a.ret, "", field), ix))
        for side, field, at_ in ((0, "x", p), (1, "y", q)):
            c = positions(REF, SIDES[axis][side])
            two = n == 2                       # a mesh of the two sides
            ck.same(f"{key}:{field}", at(field, (p, q) if two else (p,)),
                    idx(c, (at_ if two else p,)), inside([REF], axis),
                    f"along its {('horizontal', 'vertical')[side]} side a plane at right angles to "
                    f"axis {axis} is drawn at the positions of axis {SIDES[axis][side]}", w)
        u, v = (value(component(REF, k), axis, deep, p, q) for k in SIDES[axis]) if vec else (0, 0)
        rule = f"the plot shows the {'mean along' if deep else 'layer across'} axis {axis}"
        if ty == "QuiverPlot":
            want = [("u", u), ("v", v), ("norm", length((u, v))), ("true_norm", length((u, v)))]
            rule += ": of vectors, the components lying in the plane, and their length"
        elif ty == "UnitVectorPlot":
            pitch = [sub(idx(positions(REF, k), (num(1),)), idx(positions(REF, k), (num(0),)))
                     for k in SIDES[axis]]
            r = length((u, v))
            want = [("u", div(mul(half(pitch[0]), u), r)),
                    ("v", div(mul(half(pitch[1]), v), r)), ("true_norm", r)]
            rule += ": of vectors, their direction in the plane in units of half a cell"
        elif ty in PAIRED:
            r, o = (shown(g, vec, axis, deep, p, q) for g in (REF, OTHER))
            want = [("reference_data", r), ("comparison_data", o), ("delta", sub(r, o))]
            rule += " of both grids and the difference between them"
        else:
            want = [("data", shown(REF, vec, axis, deep, p, q))]
        for field, t in want:
            if ty == "ScalarContour":          # one list per vertical position
                got = layers(idx(idx(fld(a.ret, "", field), (q,)), (p,)))
            else:
                got = at(field, (p, q))
            ck.same(f"{key}:{field}", one(got), t, inside([REF, OTHER][:n], axis), rule, w)
        ck.implied(f"{key}:completes", inside([REF, OTHER], axis), a.ok,
                   "such a plot can be made of any grid", w)
        ck.count("planes")
    ck.floor("planes", 60, "kinds of plane")


def one(t):
    """The largest of equal values is that value."""
    m = {x: x.a[0].a[0] for x in terms.subterms(t)
         if x.k in ("max_skipnan", "min_skipnan") and x.a[0].k == "full"}
    return terms.subst(t, m) if m else t


def half(t):
    return terms.scale(t, Fraction(1, 2))


def inside(grids, axis):
    """Positions p, q and the layer are cells of the grids, which have two cells a side."""
    g = 1
    for x in grids:
        cs = [mk("call", "get_cells", x)] + [mk("call", "get_cells", component(x, k))
                                              for k in range(3)]
        for c in cs:
            n = [idx(c, (num(k),)) for k in range(3)]
            g = B.AND(g, cmp("Lt", LAYER, n[axis], True), cmp("Lt", anyk(0), n[SIDES[axis][0]], True),
                      cmp("Lt", anyk(1), n[SIDES[axis][1]], True),
                      *[cmp("Ge", k, num(2), True) for k in n])
        for k in range(3):
            m = terms.dim_of(positions(x, k), 0)
            g = B.AND(g, cmp("Ge", m, num(2), True))
        for side in range(2):
            m = terms.dim_of(positions(x, SIDES[axis][side]), 0)
            g = B.AND(g, cmp("Lt", anyk(side), m, True))
    return g


# ---------------------------------------------------------------- arrows
def arrows(ck):
    lo, hi, ratio = mk("in", "lower"), mk("in", "upper"), mk("in", "factor")
    p, q = anyk(0), anyk(1)
    at = lambda name, o=PLOT: idx(fld(o, "", name), (p, q))
    n, u, v = at("norm"), at("u"), at("v")
    big = mk("max_skipnan", fld(PLOT, "", "norm"))
    sane = B.AND(number(n, u, v, lo, hi, ratio, big), cmp("Gt", n, num(0), False),
                 cmp("Gt", lo, num(0), False), cmp("Gt", big, num(0), False))
    table = mk("in", "factors")
    low, high = cmp("Lt", n, lo, False), cmp("Gt", n, hi, False)
    sane = B.AND(sane, B.NOT(B.AND(low, high)))            # the limits are in order
    cell = idx(table, (p, q))
    always = lambda fu, fv: [(fu, fv, 1)]
    limit = lambda *bounds: [(div(b, n), div(b, n), g) for b, g in bounds] + \
        [(num(1), num(1), B.NOT(B.OR(*[g for _, g in bounds])))]
    ways = [
        ("scale_global", [ratio], always(ratio, ratio), "multiplied by the factor"),
        ("scale_elementwise", [table], always(cell, cell), "multiplied by the factor for its cell"),
        ("bound_min", [lo], limit((lo, low)),
         "drawn out to the lower limit where it is shorter, without turning"),
        ("bound_max", [hi], limit((hi, high)),
         "cut to the upper limit where it is longer, without turning"),
        ("bound_min_max", [lo, hi], limit((hi, high), (lo, low)),
         "kept between the two limits, without turning"),
        ("bound_half_node", [lo, hi], always(div(half(lo), big), div(half(hi), big)),
         "scaled so that the longest spans half a cell"),
        ("bound_full_node", [lo, hi], always(div(lo, big), div(hi, big)),
         "scaled so that the longest spans a cell"),
    ]
    for ty, (name, args, by, rule) in itertools.product(SINGLE[:2], ways):
        f = ck.method(ty, name)
        key, w = f"{ty}:{name}", f["span"]
        if not ck.ob(f"{key}:arguments", f["argc"] == 1 + len(args), "arrows are scaled by the "
                     "documented arguments", w, f"{f['argc']} arguments"):
            continue
        a = ck.run(f, [PLOT] + args)
        for field, t in (("u", mk_case([(mul(u, fu), g) for fu, fv, g in by])),
                         ("v", mk_case([(mul(v, fv), g) for fu, fv, g in by])),
                         ("norm", mk_case([(length((mul(u, fu), mul(v, fv))), g)
                                           for fu, fv, g in by])),
                         ("true_norm", at("true_norm"))):
            ck.same(f"{key}:{field}", at(field, a.ret), t, sane, f"every arrow is {rule}", w)
        for field in "xy":
            ck.same(f"{key}:{field}", fld(a.ret, "", field), fld(PLOT, "", field), 1,
                    "scaling arrows does not move them", w)
        ck.count("scalings")
    ck.floor("scalings", 14, "ways to scale arrows")

    k = mk("gv", ("arrow",))
    for ty in SINGLE[:2]:
        f = ck.method(ty, "create_arrows")
        a = ck.run(f, [PLOT, ratio])
        w, key = f["span"], f"{ty}:arrow"
        el = idx(a.ret, (k,))
        want = drawn(a, k, ratio)
        for point, xy in want.items():
            got = fld(el, "", point)
            for s in range(2):
                ck.same(f"{key}:{point}:{s}", fld(got, "", str(s)), xy[s], 1,
                        "an arrow starts at its cell's position and ends there plus its "
                        "components", w)
        ck.same(f"{key}:number", a.dim(a.ret, 0), mul(*sides(a)), 1, "there is one arrow per cell", w)
        ck.count("arrows")
        f, made = ck.method(ty, "create_quiver_traces"), a
        a = ck.run(f, [PLOT, ratio, mk("in", "map")])
        w = f["span"]
        lines = [x for x in terms.subterms(a.ret) if x.k == "call" and len(x.a) == 3
                 and x.a[0].startswith("plotly::Scatter") and x.a[0].endswith("::new")
                 and all(y.k == "array" and len(y.a[0]) >= 4 for y in x.a[1:])]
        if not ck.ob(f"{ty}:trace", len(lines) == 1, "each arrow is drawn as one line", w,
                     lambda: f"{len(lines)} lines"):
            continue
        xs, ys = (y.a[0] for y in lines[0].a[1:])
        pos = [x for x in terms.subterms(lines[0]) if x.k == "uix"]
        j = pos[0].a[1] if pos else k
        pts = {n: [fld(fld(idx(made.ret, (j,)), "", n), "", str(s)) for s in range(2)]
               for n in ("base", "tip", "left_point", "right_point")}
        seen = []
        for x, y in zip(xs, ys):
            hit = [n for n, (c, d) in pts.items() if terms.eq(x, c) == 1 and terms.eq(y, d) == 1]
            seen.append(hit[0] if hit else clip(show(x), 200))
        ck.ob(f"{ty}:trace:points", len(xs) == len(ys) and set(seen) == set(pts)
              and "tip" in (seen[seen.index("base") - 1], (seen + seen)[seen.index("base") + 1]),
              "the line of an arrow runs from its base to its tip and round its barbs", w,
              lambda: f"points {seen}")
        ck.count("arrows")
        if ty != "QuiverPlot":
            continue
        shade = [x for x in terms.subterms(a.ret) if x.k == "call" and len(x.a) == 3
                 and x.a[0].endswith("eval_continuous") and j in set(terms.subterms(x.a[2]))]
        tn = fld(PLOT, "", "true_norm")
        t0, t1 = mk("min_skipnan", tn), mk("max_skipnan", tn)
        for x in shade[:2]:
            at_ = tuple(terms.uix(tuple(a.dim(tn, s) for s in range(2)), j, s) for s in range(2))
            ck.same(f"{ty}:shade", x.a[2], div(sub(idx(tn, at_), t0), sub(t1, t0)),
                    cmp("Lt", t0, t1, False),
                    "an arrow is coloured by its own unscaled length between the shortest and the "
                    "longest", w)
            ck.count("shades")
    ck.floor("arrows", 4, "arrows")
    ck.floor("shades", 1, "colours of arrows")


def sides(a):
    return [a.dim(fld(PLOT, "", c), 0) for c in "xy"]


def drawn(a, k, ratio):
    """Both ends of arrow k."""
    dims = tuple(sides(a))
    i, j = (terms.uix(dims, k, s) for s in range(2))
    at = lambda name: idx(fld(PLOT, "", name), (i, j))
    base = [idx(fld(PLOT, "", "x"), (i,)), idx(fld(PLOT, "", "y"), (j,))]
    tip = [add(base[0], mul(ratio, at("u"))), add(base[1], at("v"))]
    return dict(base=base, tip=tip)


# ---------------------------------------------------------------- maps
def maps(ck):
    """Coloured points lie where their value was found."""
    k = mk("gv", ("point",))
    for ty, name, field, mesh in (("ScalarMap", "create_scalar_map", "data", False),
                                  ("ParityMap", "create_parity_map", "delta", True),
                                  ("ParityContour", "create_parity_contour", "delta", True),
                                  ("UnitVectorPlot", "create_unit_vector_background", "true_norm",
                                   False)):
        f = ck.method(ty, name)
        a = ck.run(f, [PLOT] + [mk("in", "map")] * (f["argc"] - 1))
        made = [x for x in terms.subterms(a.ret) if x.k == "call" and len(x.a) == 4
                and x.a[0].startswith("plotly::HeatMap") and x.a[0].endswith("::new")]
        key, w = f"{ty}:{name}", f["span"]
        if not ck.ob(key, len(made) == 1, "a map is drawn once", w, lambda: f"{len(made)} maps"):
            continue
        arr = fld(PLOT, "", field)
        dims = tuple(a.dim(arr, s) for s in range(2)) if mesh else tuple(sides(a))
        ix = tuple(terms.uix(dims, k, s) for s in range(2))
        same = {a.dim(fld(PLOT, "", n), s): dims[s] for s in range(2)
                for n in ((field, "x", "y") if mesh else (field,))}
        for s, c in enumerate("xy"):
            want = idx(fld(PLOT, "", c), ix if mesh else (ix[s],))
            ck.same(f"{key}:{c}", terms.subst(idx(made[0].a[1 + s], (k,)), same), want, 1,
                    "a point of the map lies at the position of its cell", w)
        ck.same(f"{key}:value", terms.subst(idx(made[0].a[3], (k,)), same), idx(arr, ix), 1,
                "a point of the map shows the value of its cell", w)
        ck.count("maps")
    f = ck.method("ScalarContour", "create_scalar_contour")
    a = ck.run(f, [PLOT, mk("in", "map")])
    made = [x for x in terms.subterms(a.ret) if x.k == "call" and len(x.a) == 4
            and x.a[0].startswith("plotly::Contour") and x.a[0].endswith("::new")]
    ck.ob("ScalarContour", len(made) == 1 and made[0].a[1:] == tuple(
        fld(PLOT, "", c) for c in ("x", "y", "data")), "a contour is drawn from the positions of "
        "both sides and the rows of values", f["span"], lambda: clip(show(a.ret)))
    ck.count("maps")
    ck.floor("maps", 5, "maps")


# ---------------------------------------------------------------- two grids
def parity(ck):
    p, q = anyk(0), anyk(1)
    r, o = (idx(fld(PLOT, "", n), (p, q)) for n in ("reference_data", "comparison_data"))
    d = sub(r, o)
    for ty, (name, want, rule) in itertools.product(PAIRED[:2], (
            ("delta_as_difference", d, "the difference between the two"),
            ("delta_as_percent", terms.scale(div(d, r), 100),
             "the difference in percent of the reference"),
            ("delta_as_absolute_difference", terms.f_abs(d), "the size of the difference"))):
        f = ck.method(ty, name)
        a = ck.run(f, [PLOT])
        key, w = f"{ty}:{name}", f["span"]
        same = {a.dim(fld(PLOT, "", n), s): a.dim(fld(PLOT, "", "reference_data"), s)
                for s in range(2) for n in ("comparison_data", "delta")}
        got = terms.subst(idx(fld(a.ret, "", "delta"), (p, q)), same)
        care = B.AND(*[cmp("Lt", x, a.dim(fld(PLOT, "", "reference_data"), s), True)
                       for s, x in enumerate((p, q))],
                     B.NOT(cmp("Eq", r, num(0), False)), number(r, o))
        ck.same(key, got, want, care, f"each cell shows {rule}", w)
        for field in ("x", "y", "reference_data", "comparison_data"):
            ck.same(f"{key}:{field}", fld(a.ret, "", field), fld(PLOT, "", field), 1,
                    "the data and where it lies stay as they are", w)
        ck.count("differences")
    ck.floor("differences", 6, "differences")

    made = [(name, axis, vec, deep) for ty, name, n, vec, deep in constructors()
            if ty == "ParityPlot" for axis in range(3)]
    made += [("from_vector_grids", None, True, None), ("from_grids", None, False, None)]
    k = mk("gv", ("pair",))
    for name, axis, vec, deep in made:
        a = built(ck, "ParityPlot", name, axis, 2, deep)
        if a is None:
            continue
        key, w = f"ParityPlot:{name}:{axis}", a.fn["span"]
        sets = [chunks(fld(a.ret, "", n)) for n in ("reference_data", "comparison_data")]
        comps = (list(SIDES[axis]) if axis is not None else [0, 1, 2]) if vec else [None]
        if not ck.ob(f"{key}:number", all(len(s) == len(comps) for s in sets),
                     "each value of one grid is paired with one of the other", w,
                     lambda: clip(show(a.ret))):
            continue
        for c, x, y in zip(comps, *sets):
            for g, t, which in ((REF, x, "reference"), (OTHER, y, "comparison")):
                src = g if c is None else component(g, c)
                n = [idx(mk("call", "get_cells", src), (num(j),)) for j in range(3)]
                if axis is None:
                    dims = tuple(n)
                    ix = tuple(terms.uix(dims, k, j) for j in range(3))
                    want = idx(mk("call", "get_data", src), ix)
                elif deep:
                    arr = mk("call", "collapse", src, num(axis))
                    dims = tuple(a.dim(arr, j) for j in range(2))
                    want = value(src, axis, True, *(terms.uix(dims, k, j) for j in range(2)))
                else:
                    dims = tuple(n[j] for j in SIDES[axis])
                    want = value(src, axis, False, *(terms.uix(dims, k, j) for j in range(2)))
                ck.same(f"{key}:{which}:{c}", layers(idx(t, (k,))), want, 1,
                        "both values of a pair belong to the same cell and component of the part "
                        "of the grids that was asked for", w)
        for lo, hi in (("xmin", "ymin"), ("xmax", "ymax")):
            ck.same(f"{key}:{lo}", fld(a.ret, "", lo), fld(a.ret, "", hi), 1,
                    "the line of equal values is drawn where both values are equal", w)
        ck.count("pairings")
    ck.floor("pairings", 14, "pairings")
    f = ck.method("ParityPlot", "create_parity_scatter")
    a = ck.run(f, [PLOT])
    at = lambda n: fld(PLOT, "", n)
    drawn_ = [x.a[1:] for x in terms.subterms(a.ret) if x.k == "call" and len(x.a) == 3
              and x.a[0].startswith("plotly::Scatter") and x.a[0].endswith("::new")]
    line = (mk("array", (at("xmin"), at("xmax"))), mk("array", (at("ymin"), at("ymax"))))
    ck.ob("ParityPlot:drawn", sorted(drawn_, key=str) == sorted(
        [line, (at("reference_data"), at("comparison_data"))], key=str),
        "the pairs are drawn against each other, with the line of equal values", f["span"],
        lambda: clip(show(a.ret)))


def chunks(t):
    """The runs of values a list is put together from."""
    if t.k == "concat":
        return [y for x in t.a for y in chunks(x)]
    return [t]

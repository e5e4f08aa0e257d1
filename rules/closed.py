"""Analyses whose result is a closed form over all qualifying samples."""

import terms
from core import B, Abort, Ck, mk, num, show, clip, gshow, name_of, differ, same_guard
from fields import base, closest, lookahead, is_zeroed, ZERO
from spec import *
from terms import add, anyk, as_bool, cmp, div, eq, ew, fld, idx, mul, sub, subterms, subst, subst_guard

TV, PV = var("t"), var("p")
CUBE = [num(x) for x in range(3)]


def total(body, guard):
    """Sum of body over all timesteps TV and particles PV with guard."""
    return summation(summation(body, guard, PV), 1, TV)


def in_cell(t, p, c, grid=GRID):
    k, ok = cell(grid, pos(step(t), p))
    g = ok
    for i, x in enumerate(c):
        g = B.AND(g, cmp("Eq", idx(k, (num(i),)), x, True))
    return g


def sq(x):
    return mul(x, x)


def out_of(ck, a, name, kind="call"):
    return [e for e in ck.effs(a) if e.kind == kind and e.name == name]


def one(ck, a, name, key, rule):
    r = out_of(ck, a, name)
    if len(r) != 1:
        ck.fail(f"{key}:{name}", rule, a.fn["span"], f"{len(r)} calls of {name}")
    return r[0]


# ---------------------------------------------------------------- guards of the summed samples
def g_mean(ck, t, p):
    ts = step(t)
    sel = arg(1)
    return B.AND(in_steps(t), selected_time(t, sel), in_range(ts, p), selected(ts, p, sel),
                 numbers(speed([vel(ts, p, k) for k in range(3)])))


def g_dispersion(ck, t, p):
    later, ok = lookahead(step(t), arg(3))
    return B.AND(base(t, p), ok, cell(GRID, pos(step(t), p))[1], stays(step(t), buf(later), p))


def g_granular(ck, t, p):
    return B.AND(base(t, p), cell(GRID, pos(step(t), p))[1])


def hist_edges(n=None):
    """(lowest edge, highest edge, bins)."""
    vm = fld(GS, "", "velocity_mag")
    off = cmp("Eq", arg(4), num(0), False)
    lo = idx(vm, (num(0),))
    hi = terms.mk_case([(idx(vm, (num(2),)), off), (arg(4), B.NOT(off))])
    return lo, hi, n or arg(5)


CLOSED = {
    ("Granular", "mean_velocity_showcase"): (g_mean, 1),
    ("Granular", "dispersion"): (g_dispersion, 2),
    ("Granular", "granular_temperature_field"): (g_granular, 2),
    ("Granular", "histogram"): (None, 2),
}


class Sample:
    """One sum over samples: guard and leaf with T and P for the positions."""

    def __init__(self, guard, leaf, n):
        self.guard, self.leaf, self.n = guard, leaf, n


def sums_of(x):
    """The maximal sums in a term that range over timesteps."""
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.k == "sum" and reads(y, mk("bv", y.a[0])):
            out.append(y)
            continue
        st += terms.children(y)
    return out


def reads(s, v):
    from roles import step_sites
    return any(v in subterms(x) for _, x in step_sites([s.a[1], s.a[2]]))


def walk(s):
    """[(guard, leaf)] of a sum over timesteps: nested sums over particles unfolded."""
    n, body, g = s.a
    m = {mk("bv", n): T}
    g, body = subst_guard(as_bool(g), m), subst(body, m)
    inner = [x for x in subterms(body) if x.k == "sum"]
    top = [x for x in inner if not any(x is not y and x in subterms(y) for y in inner)]
    if not top:
        return [(g, body, 1)]
    out = []
    for x in top:
        n2, b2, g2 = x.a
        m2 = {mk("bv", n2): P}
        out.append((B.AND(g, subst_guard(as_bool(g2), m2)), subst(b2, m2), 2))
    return out


def results(ck, a):
    """The terms an analysis gives back: its value and what it writes into grids."""
    out = [a.ret]
    for e in ck.effs(a):
        if e.kind == "call" and e.name in ("add_to_cell", "set_data", "set_weights",
                                           "add_value", "insert"):
            out += list(e.args) + [terms.mk_bool(e.cond)]
    return out


# ---------------------------------------------------------------- the closed forms
def reciprocal(x):
    return div(num(1), x)


def mean_velocity(ck):
    """The mean speed of all selected particles with a velocity."""
    a = ck.run(ck.default("Granular", "mean_velocity_showcase"))
    v = speed([vel(step(TV), PV, k) for k in range(3)])
    g = g_mean(ck, TV, PV)
    ck.same("mean_velocity:value", a.ret, div(total(v, g), total(num(1), g)), a.ok,
            "the mean velocity is the sum of the speeds over their number", a.fn["span"])


def cells_visited(ck, e, key):
    """(cell components renamed to anyk, guard left) of an effect executed per cell."""
    i = e.args[0]
    c = [idx(i, (x,)) for x in CUBE]
    dims = mk("call", "get_cells", GRID)
    if all(x.k == "iv" for x in c) and len(set(c)) == 3:
        m = {x: anyk(k) for k, x in enumerate(c)}
        lids = {x.a[0] for x in c}
    elif all(x.k == "uix" for x in c) and len({x.a[1] for x in c}) == 1 \
            and c[0].a[1].k == "iv" and [x.a[2] for x in c] == [0, 1, 2]:
        m = {x: anyk(k) for k, x in enumerate(c)}
        lids = {c[0].a[1].a[0]}
    else:
        ck.fail(f"{key}:cells", "every cell is visited once", e.sp,
                f"cell index {clip(show(i))}")
    ck.ob(f"{key}:cells", set(e.loops) == lids, "every cell is visited once", e.sp,
          lambda: f"loops {e.loops}, cell {clip(show(i))}")
    m2 = dict(m)
    m2[i] = mk("array", tuple(anyk(k) for k in range(3)))
    val = subst(e.args[1], m2)
    cond = subst_guard(e.cond, m2)
    flat = [x for x in lids if mk("iv", x) not in m]
    if flat:
        cond = B.exists(cond, lambda at: any(isinstance(y, terms.T) and mk("iv", flat[0])
                                             in terms.loopy(y) for y in at[1:]))
    inr = 1
    for k, x in enumerate(CUBE):
        inr = B.AND(inr, cmp("Lt", anyk(k), idx(dims, (x,)), True))
    return val, cond, inr, bool(flat)


def dispersion_value(c):
    """(variance summed over the axes with Bessel's correction, number of samples) of cell c."""
    g0 = B.AND(g_dispersion(None, TV, PV), in_cell(TV, PV, c))
    nx = buf(lookahead(step(TV), arg(3))[0])
    n = total(num(1), g0)
    s = num(0)
    for k in range(3):
        x = pos(nx, PV, k)
        s = add(s, sub(div(total(sq(x), g0), n), div(div(sq(total(x, g0)), n), n)))
    return mul(s, div(n, sub(n, num(1)))), n


def dispersion(ck):
    """Per cell, the variance of where the particles of that cell are a while later."""
    a = ck.run(ck.default("Granular", "dispersion"), opaque=closest(ck))
    e = one(ck, a, "add_to_cell", "dispersion", "the dispersion is written cell by cell")
    val, cond, inr, flat = cells_visited(ck, e, "dispersion")
    c = [anyk(k) for k in range(3)]
    v, n = dispersion_value(c)
    many = cmp("Gt", n, num(1), False)
    want = B.AND(many, inr)
    ck.same_guard("dispersion:which", B.AND(cond, inr) if flat else cond, want, 1,
                  "cells visited by more than one sample get a dispersion, no others", e.sp)
    ck.same("dispersion:value", val, v, B.AND(cond, inr),
            "the dispersion of a cell is the sum over the axes of the sample variance of the "
            "later positions", e.sp)
    ck.ob("dispersion:grid", is_zeroed(e.obj), "the dispersion is written to an empty grid", e.sp,
          lambda: show(e.obj))
    r0, r1 = fld(a.ret, "", "0"), fld(a.ret, "", "1")
    ck.ob("dispersion:returned", r0 is e.obj, "the grid written to is returned", a.fn["span"],
          lambda: clip(show(r0)))
    st = mk("state", e.obj, ("add_to_cell",))
    d, w = mk("call", "get_data", st), mk("call", "get_weights", st)
    dims = mk("call", "get_cells", GRID)

    def cellsum(f):
        vs = [var(f"c{k}") for k in range(3)]
        r = f(tuple(vs))
        for k in (2, 1, 0):
            r = summation(r, cmp("Lt", vs[k], idx(dims, (CUBE[k],)), True), vs[k])
        return r
    ck.same("dispersion:mean", r1,
            div(cellsum(lambda i: mul(idx(w, i), idx(d, i))), cellsum(lambda i: idx(w, i))), a.ok,
            "the overall dispersion is the mean of the cells' dispersions", a.fn["span"])


GT_MODES = {"x": (0,), "y": (1,), "z": (2,), "xyz": (0, 1, 2)}


def mode_known(mode, table):
    known = 0
    for m in table:
        known = B.OR(known, eq(mode, mk("str", m)))
    return known


def granular(ck):
    """Per cell, the velocity fluctuation of the samples in it."""
    a = ck.run(ck.default("Granular", "granular_temperature_field"))
    w = a.fn["span"]
    data, weights = (a.held.get((what, a.ret), num(0)) for what in ("data", "weight"))
    ck.ob("granular:grid", is_zeroed(a.ret), "a grid of its own is returned", w,
          lambda: show(a.ret))
    c = [anyk(k) for k in range(3)]
    g = B.AND(g_granular(ck, TV, PV), in_cell(TV, PV, c))
    n = total(num(1), g)
    dims = tuple(idx(mk("call", "get_cells", GRID), (x,)) for x in CUBE)
    fl = []
    for k in range(3):
        v = vel(step(TV), PV, k)
        fl.append(sub(total(sq(v), g), div(sq(total(v, g)), n)))
    pairs, seen = [], 0
    for m, ks in GT_MODES.items():
        s = num(0)
        for k in ks:
            s = add(s, fl[k])
        h = eq(arg(3), mk("str", m))
        pairs.append((terms.f_sqrt(div(div(s, num(len(ks))), n)), B.AND(h, B.NOT(seen))))
        seen = B.OR(seen, h)
    ck.same("granular:value", data, ew(terms.mk_case(pairs), dims), a.ok,
            "the field is the root of the mean square fluctuation of the velocity components "
            "the mode names", w)
    ck.same("granular:weights", weights, ew(n, dims), a.ok,
            "the weights are the numbers of samples", w)


def histogram(ck):
    """Counts of the speeds of the qualifying samples, by bin."""
    a = ck.run(ck.default("Granular", "histogram"))
    w = a.fn["span"]
    lo, hi, n = hist_edges()
    h, edges = fld(a.ret, "", "0"), fld(a.ret, "", "1")
    care = B.AND(a.ok, cmp("Ge", n, num(1), True))
    i = anyk(0)
    step_ = mul(i, div(sub(hi, lo), n))
    want = terms.mk_case([(add(lo, step_), cmp("Lt", i, n, True)),
                          (hi, cmp("Eq", i, n, True))])
    inr = B.AND(care, cmp("Le", i, n, True))
    ck.same("histogram:edges", idx(edges, (i,)), want, inr,
            "the bin edges are evenly spaced from the lowest to the highest speed", w)
    ck.same("histogram:edge_count", terms.dim_of(edges, 0), add(n, num(1)), care,
            "there is one edge more than bins", w)
    ck.same("histogram:bin_count", terms.dim_of(h, 0), n, care, "there is one count per bin", w)
    many = add(mk("len", mk("in", "bins")), num(2))
    given = add(mk("len", mk("in", "limit")), num(1))         # any limit other than 0
    for nm, k in (("one", num(1)), ("many", many)):
        for lim, m in (("recorded", num(0)), ("given", given)):
            hist_counts(ck, a.fn, f"{nm}_{lim}", k, m)


def hist_counts(ck, fn, nm, n, limit):
    """The counts for n bins up to limit."""
    a = ck.run(fn, [arg(0), arg(1), arg(2), arg(3), limit, n])
    h, edges = fld(a.ret, "", "0"), fld(a.ret, "", "1")
    lo, hi, _ = hist_edges(n)
    if limit is not num(0):
        hi = limit
    else:
        hi = idx(fld(GS, "", "velocity_mag"), (num(2),))
    i = anyk(0)
    v = speed([vel(step(TV), PV, k) for k in range(3)])
    e0, e1 = idx(edges, (num(0),)), idx(edges, (num(1),))
    inr = B.AND(a.ok, cmp("Lt", i, n, True))
    got = idx(h, (i,))
    cand = []
    for width, low in ((sub(e1, e0), e0), (div(sub(hi, lo), n), lo)):
        b = terms.trunc(div(sub(v, low), width))
        g = B.AND(base(TV, PV), B.NOT(terms.is_nan(v)), B.NOT(cmp("Lt", v, low, False)),
                  cmp("Lt", b, n, True), cmp("Eq", b, i, True))
        cand.append(total(num(1), g))
    ok = any(differ(got, x, inr) is None for x in cand)
    ck.ob(f"histogram:counts_{nm}", ok,
          "a bin counts the qualifying samples whose speed lies in it", fn["span"],
          lambda: f"is   {clip(show(got))}\n    spec {clip(show(cand[0]))}")


# ---------------------------------------------------------------- guards, for C01 and C02
def guard_table(ck):
    """Per analysis: its samples' guards and what they have to be."""
    for (tr, name), (g, depth) in CLOSED.items():
        a = ck.run(ck.default(tr, name), opaque=closest(ck))
        found = {}
        for r in results(ck, a):
            for s in sums_of(r):
                for gg, leaf, n in walk(s):
                    gg = B.exists(gg, lambda at: any(isinstance(x, terms.T) and any(
                        y.k in ("anyk", "iv") for y in subterms(x)) for x in at[1:]))
                    found.setdefault(gg, (leaf, n))
        ck.count("closed forms")
        yield a, name, found, (g(ck, T, P) if g else None), depth
    ck.floor("closed forms", len(CLOSED), "analyses with a closed form")


def gating_sums(ck):
    ts = step(T)
    for a, name, found, g, depth in guard_table(ck):
        w = a.fn["span"]
        ck.ob(f"{name}:sums", found, "the result is made of sums over samples", w)
        sel = arg(1) if name.startswith("mean") else SEL
        for gg, (leaf, n) in found.items():
            k = f"{name}:sum"
            need = [("window", selected_time(T, sel), "only samples of timesteps in the "
                     "selected window count"), ("steps", in_steps(T), "only recorded "
                                                "timesteps are read"),
                    ("selector", selected(ts, P, sel), "only particles the selector accepts "
                     "count, judged by their own attributes at that timestep"),
                    ("particles", in_range(ts, P), "only particles of that timestep count")]
            if depth == 2:
                need.append(("inside", inside(GRID, pos(ts, P)), "only samples inside the grid "
                             "count"))
            for nm, h, rule in need:
                ck.implied(f"{k}:{nm}", gg, h, rule, f"{w}, sum of {clip(show(leaf), 80)}")


def complete_sums(ck):
    for a, name, found, g, depth in guard_table(ck):
        w = a.fn["span"]
        if name == "histogram":
            lo, hi, n = hist_edges()
            v = speed([vel(step(T), P, k) for k in range(3)])
            # which samples lie in a bin is the histogram's own rule
            ats = [gg for gg in found]
            for gg in ats:
                free = B.exists(gg, lambda at: not plain(at))
                ck.same_guard(f"{name}:all", free, B.AND(base(T, P), B.NOT(terms.is_nan(v))), 1,
                              "every qualifying sample in a bin is counted", w)
            continue
        for gg, (leaf, n) in found.items():
            ck.same_guard(f"{name}:all", gg, g, 1,
                          "exactly the qualifying samples are summed", w)


def plain(at):
    """An atom that does not compare a speed or a bin."""
    return at[0] in ("P", "NAN") or not any(
        y.k == "sqrt" or y.k == "arg" and y.a[0] in (4, 5)
        for x in at[1:] if isinstance(x, terms.T) for y in subterms(x))

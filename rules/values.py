"""What is deposited, how the result is normalised and which grid is returned."""

import terms
from closed import CUBE, GT_MODES, PV, TV, mode_known, one, out_of, sq, total
from core import B, Abort, differ, mk, num, show, clip, gshow
from fields import (DEPOSITS, FIELDS, Field, MODES, ZERO, base, closest, each, is_zeroed,
                    lookahead, match, mode_value, outputs)
from roles import Eff
from spec import *
from terms import add, anyk, cmp, div, eq, ew, fld, idx, mul, sub, subst, subterms

NORM = ("divide_by_weight", "divide_by_array", "divide_by_scalar", "set_data", "set_weights",
        "outlier_removal")


def position(a, e):
    """Where an effect comes in the order of the analysis."""
    return a.log.index(e.ev)


def quantity(ck, f, specs, names=None):
    """Each deposit carries the quantity the field is about."""
    for sp in specs:
        if names and f.name not in names:
            continue
        for e in match(f, sp):
            k = f"{f.name}:{sp.out}" + ("" if sp.part is None else f".{sp.part}")
            for i, want in enumerate(sp.args):
                if want is None:
                    continue
                ck.same(f"{k}:arg{i}", e.args[i], want, e.cond,
                        "the deposited quantity is the one the field is about",
                        f"{e.sp} (in {f.name})")


def holds(f, obj, value, key, rule):
    """The returned grid obj holds value(sum of the samples, their weight) once f is done."""
    c = tuple(anyk(k) for k in range(3))
    names = {e.name for e in f.effs if e.obj is obj}
    d, w = (idx(reading(r, obj, *names), c) for r in ("get_data", "get_weights"))
    for what, want in (("data", value(d, w)), ("weight", w)):
        got = f.a.held.get((what, obj))
        if got is None:
            got = reading("get_data" if what == "data" else "get_weights", obj, *names)
        f.ck.same(f"{key}:{what}", idx(got, c), want, f.a.ok, rule, f.where)


def fields(ck):
    for f, specs in each(ck):
        try:
            one_field(ck, f, specs)
        except Abort:
            pass


def one_field(ck, f, specs):
    if f.name == "vectorfield":
        vector(ck, f, specs)
        return
    if f.name in ("lacey_mixing", "concentration_field", "msd_field"):
        return
    quantity(ck, f, specs)
    k = f"{f.name}:norm"
    ck.ob(f"{f.name}:returned", set(f.groups) == {f.a.ret},
          "the grid the samples went into is returned", f.where,
          lambda: f"returned {clip(show(f.a.ret))}")
    if f.name == "velocityfield":
        holds(f, f.a.ret, lambda d, w: div(d, w), k,
              "the field is the mean of the samples of a cell")
    elif f.name == "numberfield":
        holds(f, f.a.ret, lambda d, w: d, k, "the field is the number of samples of a cell")
    elif f.name == "occupancyfield":
        m = {T: TV, P: PV}
        grp = match(f, specs[0])
        g = terms.subst_guard(B.OR(*[d.cond for d in grp]), m)
        if grp:
            whole = total(subst(grp[0].args[2], m), g)    # what every deposit brings in
            holds(f, f.a.ret, lambda d, w: div(d, whole), k,
                  "the time in a cell is divided by the whole time of all samples")


def vector(ck, f, specs):
    ck_a = ck.run(f.fn, opaque=tuple(closest(ck)) + (
        ck.method("VectorGrid", "velocity_calculation")["id"],))
    effs = [e for e in ck.effs(ck_a) if e.kind == "call" and e.name in DEPOSITS]
    d = fld(ck_a.ret, "", "data")
    ts = step(T)
    for e in effs:
        part = [k for k in range(3) if e.obj is idx(d, (num(k),))]
        if not ck.ob("vectorfield:returned", len(part) == 1,
                     "samples go into the components of the returned grid", e.sp,
                     lambda: clip(show(e.obj))):
            continue
        p = part[0]
        x = e.args[1]
        call = x.a[0] if x.k == "idx" and x.a[1] == (num(p),) else None
        good = call is not None and call.k == "call" and call.a[0] == "velocity_calculation"
        ck.ob(f"vectorfield:component{p}", good,
              "each component gets its own part of the velocity in grid coordinates", e.sp,
              lambda: clip(show(x)))
        if not good:
            continue
        ck.same(f"vectorfield:{p}:position", call.a[2], pos(ts, P), e.cond,
                "the velocity is converted at the particle's own position", e.sp)
        for k in range(3):
            ck.same(f"vectorfield:{p}:velocity{k}", idx(call.a[3], (num(k),)), vel(ts, P, k),
                    e.cond, "the velocity is the particle's own", e.sp)
    d = fld(f.a.ret, "", "data")
    for k in range(3):
        holds(f, idx(d, (num(k),)), lambda d, w: div(d, w), f"vectorfield:norm{k}",
              "every component is the mean of the samples of a cell")


# ---------------------------------------------------------------- C10
def velocity_modes(ck):
    """The velocity field's value, filter and mode table."""
    f = Field(ck, "Granular", "velocityfield")
    sp = FIELDS[("Granular", "velocityfield")](ck)[0]
    ts = step(T)
    v, known = mode_value(arg(3), ts, P)
    ck.ob("deposits", f.effs, "samples are deposited", f.where)
    for e in f.effs:
        for m, comps in MODES.items():
            g = B.AND(e.cond, eq(arg(3), mk("str", m)))
            want = speed([vel(ts, P, k) for k in comps]) if isinstance(comps, tuple) \
                else vel(ts, P, comps)
            ck.ob(f"mode:{m}:reached", g != 0, "every mode deposits samples", e.sp)
            ck.same(f"mode:{m}", e.args[1], want, g,
                    f"mode {m!r} is the quantity it names", e.sp)
        ck.implied("low", e.cond, B.NOT(cmp("Lt", e.args[1], arg(4), False)),
                   "values below the minimum are left out", e.sp)
        ck.implied("high", e.cond, B.NOT(cmp("Gt", e.args[1], arg(5), False)),
                   "values above the maximum are left out", e.sp)
        ck.implied("number", e.cond, B.NOT(terms.is_nan(e.args[1])),
                   "samples without a velocity are left out", e.sp)
    tot = B.OR(*[e.cond for e in f.effs])
    ck.same_guard("all", tot, sp.cond, f.a.ok,
                  "exactly the samples whose value lies in the interval count", f.where)
    ck.same_guard("known", f.a.ok, known, 1, "an unknown mode is rejected", f.where)


# ---------------------------------------------------------------- C22, C24: mixing
def component_grids(ck, name):
    f = Field(ck, "Mixing", name)
    outs = outputs(f)
    a, b = outs.get(("a", None)), outs.get(("b", None))
    if a is None or b is None:
        ck.fail(f"{name}:grids", "the two types are counted in separate grids", f.where,
                f"{len(f.groups)} grids")
    for sp in FIELDS[("Mixing", name)](ck):
        grp = match(f, sp)
        ck.same_guard(f"{name}:{sp.out}:all", B.OR(*[e.cond for e in grp]), sp.cond, f.a.ok,
                      "a type's grid counts exactly the qualifying particles of that type", f.where)
        for e in grp:
            ck.same(f"{name}:{sp.out}:one", e.args[1], num(1), e.cond, "each counts one", e.sp)
    return f, a, b


def reading(getter, obj, *muts):
    return mk("call", getter, mk("state", obj, tuple(sorted(muts))) if muts else obj)


def cells_of(g=GRID):
    return tuple(idx(mk("call", "get_cells", g), (x,)) for x in CUBE)


def concentration(ck):
    f, a, b = component_grids(ck, "concentration_field")
    da, db = reading("get_data", a, "add_value"), reading("get_data", b, "add_value")
    wa, wb = reading("get_weights", a, "add_value"), reading("get_weights", b, "add_value")
    c = tuple(anyk(k) for k in range(3))
    data, weights = result(f, "")
    ck.same("set_data", idx(data, c), div(idx(da, c), add(idx(da, c), idx(db, c))), f.a.ok,
            "the concentration of a cell is the share of the first type", f.where)
    ck.same("set_weights", idx(weights, c), add(idx(wa, c), idx(wb, c)), f.a.ok,
            "its weight is the number of samples", f.where)


def result(f, key):
    """Data and weights of the grid a field function returns."""
    out = []
    for what in ("data", "weight"):
        v = f.a.held.get((what, f.a.ret))
        if v is None or v.k == "stale":
            f.ck.fail(f"{key}{what}", "the returned grid holds the result", f.where,
                      clip(show(f.a.ret)))
        out.append(v)
    return out


def box_sum(body, dims, name):
    """Sum of body(i, j, k) over all cells."""
    vs = tuple(var(f"{name}{k}") for k in range(len(dims)))
    r, g = body(vs), 1
    if isinstance(r, tuple):
        r, g = r
    for k in range(len(dims) - 1, -1, -1):
        r = summation(r, B.AND(g, cmp("Lt", vs[k], dims[k], True)), vs[k])
        g = 1
    return r


def lacey(ck):
    f, a, b = component_grids(ck, "lacey_mixing")
    m = {T: anyk(0)}
    t = anyk(0)
    dims = cells_of()
    ts = step(t)
    on = selected_time(t)
    n = mul(mul(dims[0], dims[1]), dims[2])
    a1, b1 = subst(a, m), subst(b, m)
    da, db = reading("get_data", a1, "add_value"), reading("get_data", b1, "add_value")
    wa, wb = reading("get_weights", a1, "add_value"), reading("get_weights", b1, "add_value")

    def kind(x):
        return cmp("Eq", terms.trunc(attr(ts, "ptype", PV)), x, True)
    some = B.AND(in_range(ts, PV), selected(ts, PV))
    ca = summation(num(1), B.AND(some, kind(arg(3))), PV)
    cb = summation(num(1), B.AND(some, kind(arg(4))), PV)
    mean = div(ca, add(ca, cb))

    def part(i):
        x = div(idx(da, i), add(idx(da, i), idx(db, i)))      # share of the first type
        g = B.AND(B.NOT(terms.is_nan(x)),
                  B.NOT(cmp("Lt", add(idx(wa, i), idx(wb, i)), arg(5), False)))
        return sq(sub(x, mean)), g
    var_ = div(box_sum(part, dims, "c"), sub(n, num(1)))
    top = mul(mean, sub(num(1), mean))
    low = div(top, n)
    want = div(sub(top, var_), sub(top, low))
    inr = B.AND(f.a.ok, cmp("Lt", t, NT, True))
    r = f.a.ret
    ck.same("time", idx(fld(r, "", "0"), (t,)),
            terms.mk_case([(time(ts), on), (num(0), B.NOT(on))]), inr,
            "the first result is the time of every timestep in the window", f.where)
    ck.same("index", idx(fld(r, "", "1"), (t,)),
            terms.mk_case([(want, on), (num(0), B.NOT(on))]), inr,
            "the mixing index is (s0² - s²) / (s0² - sr²)", f.where)
    for k in range(2):
        ck.same(f"length{k}", terms.dim_of(fld(r, "", str(k)), 0), NT, f.a.ok,
                "there is one entry per recorded timestep", f.where)


# ---------------------------------------------------------------- C33: displacement
def msd(ck):
    f = Field(ck, "Mixing", "msd_field")
    specs = FIELDS[("Mixing", "msd_field")](ck)
    if len(f.groups) != 1:
        ck.fail("field:grid", "one grid collects the displacements", f.where, str(len(f.groups)))
    g, = f.groups
    ts = step(T)
    nx = buf(lookahead(ts, arg(3))[0])
    d2 = num(0)
    for k in range(3):
        d2 = add(d2, sq(sub(pos(ts, P, k), pos(nx, P, k))))
    for e in f.effs:
        ck.same("field:value", e.args[1], d2, e.cond,
                "what counts is the squared distance to where the particle is later", e.sp)
    ck.same_guard("field:all", B.OR(*[e.cond for e in f.effs]), specs[0].cond, f.a.ok,
                  "every qualifying particle with a later timestep counts", f.where)
    c = tuple(anyk(k) for k in range(3))
    d, w = idx(reading("get_data", g, "add_value"), c), idx(reading("get_weights", g, "add_value"), c)
    some = cmp("Gt", w, num(0), False)
    inr = f.a.ok
    for k, n in enumerate(cells_of()):
        inr = B.AND(inr, cmp("Lt", c[k], n, True))
    data, weights = result(f, "field:")
    ck.same("field:set_data", idx(data, c),
            terms.mk_case([(div(d, w), some), (num(0), B.NOT(some))]), inr,
            "a cell's value is the mean over its samples, 0 without samples", f.where)
    ck.same("field:set_weights", idx(weights, c), w, inr, "its weight is the number of samples",
            f.where)


def msd_curve(ck):
    fn = ck.default("Mixing", "msd")
    a = ck.run(fn, opaque=(ck.default("Mixing", "msd_field")["id"],))
    n = arg(5)
    i = anyk(0)
    t = add(arg(3), mul(i, div(sub(arg(4), arg(3)), sub(n, num(1)))))
    calls = [e for e in a.log if e.kind == "call" and e.name.endswith("msd_field")]
    if len(calls) != 1 or len(calls[0].loops) != 1:
        ck.fail("curve:fields", "each lag time has its own field", fn["span"],
                f"{len(calls)} calls")
    e = calls[0]
    iv = mk("iv", e.loops[0])
    ck.same("curve:lag", subst(e.args[-1], {iv: i}), t, cmp("Gt", n, num(1), True),
            "the lag times are evenly spaced between the two given", e.sp)
    same_grid = e.args[0]
    while same_grid.k == "fresh" and same_grid.a[0].k == "clone":
        same_grid = same_grid.a[0].a[0]
    ck.ob("curve:grid", same_grid is GRID and e.args[1] is SEL,
          "every lag uses the caller's grid and selector", e.sp,
          lambda: clip(show(e.args[0])))
    fcall = mk("call", e.name, e.obj, *e.args)
    out = subst(fcall, {iv: i})
    d, w = mk("call", "get_data", out), mk("call", "get_weights", out)
    dims = cells_of(out)
    want = div(box_sum(lambda c: mul(idx(d, c), idx(w, c)), dims, "c"),
               box_sum(lambda c: idx(w, c), dims, "c"))
    inr = B.AND(a.ok, cmp("Lt", i, n, True))
    ck.same("curve:value", idx(fld(a.ret, "", "0"), (i,)), want, inr,
            "a point of the curve is the mean over the samples of its field", fn["span"])
    ck.same("curve:time", idx(fld(a.ret, "", "1"), (i,)), t, B.AND(inr, cmp("Gt", n, num(1), True)),
            "the second result is the lag times", fn["span"])


# ---------------------------------------------------------------- C34
def homogeneity(ck):
    fn = ck.default("Granular", "homogenity_index")
    a = ck.run(fn, opaque=(ck.default("Granular", "occupancyfield")["id"],))
    calls = [e for e in a.log if e.kind == "call" and e.name.endswith("occupancyfield")]
    if len(calls) != 1:
        ck.fail("field", "the index is about one occupancy field", fn["span"], f"{len(calls)} calls")
    e = calls[0]
    ck.ob("field", e.args[:3] == (GRID, SEL, arg(3)), "the field is the caller's", e.sp,
          lambda: clip(show(e.args)))
    occ = mk("call", e.name, e.obj, *e.args)
    f = mk("call", "collapse_two", occ, num(0), num(1))
    f2 = mk("call", "collapse_two", occ, num(1), num(0))
    got = subst(a.ret, {f2: f})
    n = terms.dim_of(f, 0)
    v = var("z")
    x = idx(f, (v,))
    g = B.AND(cmp("Lt", v, n, True), B.NOT(terms.is_nan(x)))
    mean = div(summation(x, g, v), n)
    want = terms.f_sqrt(div(summation(sq(sub(x, mean)), g, v), n))
    ck.same("index", got, want, a.ok,
            "the index is the standard deviation of the layers' occupancy", fn["span"])


# ---------------------------------------------------------------- C14
def extract(ck):
    fn = ck.default("Extraction", "extract")
    a = ck.run(fn)
    t0, t1 = fld(arg(2), "", "0"), fld(arg(2), "", "1")
    i = anyk(0)
    ts = step(add(t0, i))
    row = [time(ts)] + [pos(ts, arg(1), k) for k in range(3)] + [vel(ts, arg(1), k)
                                                                for k in range(3)]
    ck.same("rows", terms.dim_of(a.ret, 0), sub(t1, t0), a.ok, "one row per timestep", fn["span"])
    ck.same("columns", terms.dim_of(a.ret, 1), num(7), a.ok, "seven columns", fn["span"])
    inr = B.AND(a.ok, cmp("Lt", i, sub(t1, t0), True))
    names = ("time", "x", "y", "z", "vx", "vy", "vz")
    for k, want in enumerate(row):
        ck.same(f"column:{names[k]}", idx(a.ret, (i, num(k))), want, inr,
                f"column {k} is the {names[k]} of the particle at that timestep", fn["span"])
    ck.same_guard("bounds", a.ok, B.AND(cmp("Lt", t0, NT, True), cmp("Lt", t1, NT, True)), 1,
                  "a period that does not lie within the recording is rejected", fn["span"])

"""What Python callers get: the analysis they name, of the recording and selection they hold, with the
arguments they pass under each name, and the results in the documented order."""

import terms
from core import B, clip, gshow, mk, num, show
from terms import add, anyk, cmp, fld, idx, mk_case, subst

SELF = mk("in", "self")
DATA = fld(SELF, "", "data")
SELECTOR = fld(SELF, "", "selector")
STATS = mk("call", "global_stats", DATA)
GRID = fld(SELF, "", "grid")


def arg(name):
    return mk("in", name)


def of(name):
    """The layout of the grid passed under this name."""
    return fld(arg(name), "", "grid")


def call(name, *args):
    return mk("call", name, *args)


def swap(v, f):
    """Replaces the terms f knows better ones for."""
    m = {t: r for t in terms.subterms(v) for r in (f(t),) if r is not None}
    return subst(v, m) if m else v


def plain(v):
    """Copies, and things known to be of some type, are what they are copies of."""
    return swap(v, lambda t: plain(t.a[0]) if t.k in ("fresh", "clone", "downcast") else None)


class Method:
    """A method as Python calls it: what it returns, what it is passed, and what it does."""

    def __init__(self, ck, ty, name, sealed=()):
        self.ck, self.name, self.ty = ck, name, ty
        self.key = f"{ty[2:]}.{name}"
        inner = ck.method(ty, name)
        self.where = inner["span"]
        if name.startswith("__"):
            a = self.a = ck.run(inner, (SELF,), sealed=tuple(sealed))
            self.ret = plain(a.ret)
        else:
            a = self.a = ck.run(ck.method(ty, f"__pymethod_{name}__"), sealed=tuple(sealed))
            self.ret = plain(fld(a.ret, "Ok", "0"))
        self.ok = a.ok
        self.final = a.final.get(0 if name.startswith("__") else "self", SELF)
        self.passed = [e for e in a.log if e.kind == "call" and e.name == "pyarg"]
        self.effects = [e for e in a.log if e.kind == "call" and (e.extra or {}).get("local")]

    def takes(self, *names):
        got = [e.args[1].a[0] for e in self.passed]
        self.ck.ob(f"{self.key}:arguments", got == list(names), "a method takes its arguments under "
                   "their names and in their order", self.where, lambda: f"takes {', '.join(got)}")
        return self

    def returns(self, want, rule, care=None):
        self.ck.same(f"{self.key}:returns", self.ret, want, self.ok if care is None else care, rule,
                     self.where)
        return self

    def does(self, *names):
        """Nothing else of the library is called that may change something."""
        for e in self.effects:
            if e.extra.get("mut") and e.name not in names:
                self.ck.fail(f"{self.key}:does:{e.name}", "a method does what it is named after and no "
                             "more", e.sp, f"also calls {e.name}")
        self.ck.same(f"{self.key}:unchanged", self.final, SELF, 1, "asking a question changes neither the "
                     "recording, the selection nor the grid it is asked of", self.where)
        self.ck.count("methods")
        return self


RIGHT = "a method hands back the result of the analysis it is named after, applied to the recording, the " \
        "selection and the arguments given"

#: method -> (arguments, analysis, its arguments)
ANALYSES = {
    "vectorfield": (("grid",), "vectorfield", ("grid", None)),
    "velocityfield": (("grid", "mode", "min_velocity", "max_velocity"), "velocityfield",
                      ("grid", None, "mode", "min_velocity", "max_velocity")),
    "numberfield": (("grid",), "numberfield", ("grid", None)),
    "occupancyfield": (("grid", "min_vel"), "occupancyfield", ("grid", None, "min_vel")),
    "mean_velocity": ((), "mean_velocity", (None,)),
    "dispersion": (("grid", "time_for_dispersion"), "dispersion", ("grid", None, "time_for_dispersion")),
    "histogram": (("grid", "property", "bins", "limit"), "histogram",
                  ("grid", None, "property", "limit", "bins")),
    "granular_temperature": (("grid", "mode"), "granular_temperature_field", ("grid", None, "mode")),
    "lacey_mixing_index": (("grid", "type_a", "type_b", "threshold"), "lacey_mixing",
                           ("grid", None, "type_a", "type_b", "threshold")),
    "circulation_time": (("position", "axis"), "circulation_time", (None, "axis", "position")),
    "circulation_time_two_boundary": (("position", "axis"), "circulation_time_two_boundary",
                                      (None, "axis", "position")),
    "concentration_field": (("grid", "type_a", "type_b"), "concentration_field",
                            ("grid", None, "type_a", "type_b")),
    "homogenity_index": (("grid", "min_vel"), "homogenity_index", ("grid", None, "min_vel")),
    "msd_field": (("grid", "time"), "msd_field", ("grid", None, "time")),
    "msd": (("grid", "min_time", "max_time", "steps"), "msd",
            ("grid", None, "min_time", "max_time", "steps")),
}
#: those that give a grid, those that give a grid of vectors, those that give two things
GRIDS = {"velocityfield", "numberfield", "occupancyfield", "granular_temperature", "concentration_field",
         "msd_field"}
VECTORS = {"vectorfield"}
PAIRS = {"histogram", "lacey_mixing_index", "msd"}


def bare(v):
    """Grids handed back are wrapped for Python."""
    return swap(v, lambda t: bare(fld(t, "", "grid")) if t.k == "adt" and
                         t.a[0].split("::")[-1] in ("PyGrid", "PyVecGrid") else None)


# ---------------------------------------------------------------- C43
def analyses(ck):
    for name, (takes, what, args) in ANALYSES.items():
        m = Method(ck, "PyData", name).takes(*takes).does(what)
        r = call(what, DATA, *(SELECTOR if x is None else of(x) if x == "grid" else arg(x) for x in args))
        m.ret = bare(m.ret)
        if name in PAIRS or name == "dispersion":
            r = mk("tuple", (fld(r, "", "0"), fld(r, "", "1")))
        m.returns(r, RIGHT)
    ck.floor("methods", 15, "analyses offered to Python")
    window(ck)
    opened(ck)


def window(ck):
    m = Method(ck, "PyData", "set_time").takes("min_time", "max_time").does("set_time")
    lo, hi = arg("min_time"), arg("max_time")
    calls = [e for e in m.effects if e.name == "set_time"]
    ck.ob("Data.set_time:once", len(calls) == 1, "the selection is given the window once", m.where)
    for e in calls:
        ck.ob("Data.set_time:what", e.obj is fld(SELF, "", "selector") and e.args == (lo, hi),
              "the window selected is the one asked for", e.sp,
              lambda: f"{show(e.obj)} gets {', '.join(map(show, e.args))}")
        ck.same_guard("Data.set_time:when", e.cond, B.NOT(cmp("Gt", lo, fld(STATS, "", "max_time"), False)),
                      1, "windows that start after the recording has ended are refused, others are not",
                      e.sp)


def opened(ck):
    """Which reader a file is given to."""
    news = tuple((ck.method(k, "new")["id"], k) for k in ("TData", "PData"))
    default = ck.run(ck.method("ParticleSelector", "default")).ret
    for name, kind in (("from_tdata", "TData"), ("from_pdata", "PData")):
        m = Method(ck, "PyData", name, sealed=news).takes("filename")
        reader(ck, m, m.ret, {kind: 1}, default)
    f = ck.method("PyData", "constructor")
    a = ck.run(f, (arg("filename"),), sealed=news)
    file = mk("call", "hdf5::File::open", arg("filename"))
    attr = [t for t in terms.subterms(a.ret) if t.k == "call" and t.a[0] == "hdf5.read"]
    ck.ob("Data.new:type", len({t for t in attr if "hdf5_up4_type" in show(t)}) == 1 and
          all(mentions(t, file) for t in attr), "the type is read from the file opened", f["span"],
          lambda: clip(show(a.ret)))
    for t in attr[:1]:
        class M:
            key, where, ok = "Data.new", f["span"], a.ok
        reader(ck, M, plain(a.ret), {"TData": cmp("Eq", t, num(1), True), "PData": cmp("Eq", t, num(2), True)}, default)
        ck.implied("Data.new:known", a.ok, B.OR(cmp("Eq", t, num(1), True), cmp("Eq", t, num(2), True)),
                   "files of other types are refused", f["span"])


def mentions(t, x):
    return any(s is x for s in terms.subterms(t))


def reader(ck, m, v, kinds, default):
    for k, g in kinds.items():
        care = B.AND(m.ok, g)
        ck.ob(f"{m.key}:{k}:reached", terms.sat(care), f"files are given to {k}", m.where)
        ck.same(f"{m.key}:{k}:reader", fld(v, "", "data"), call(k, arg("filename")), care, "a file is read as what its type says", m.where)
        ck.same(f"{m.key}:{k}:selector", fld(v, "", "selector"), default, care,
                "a recording just opened has everything selected", m.where)


# ---------------------------------------------------------------- C44
#: columns of the rows handed out for a timestep
COLUMNS = 7


def row(ts, p, k):
    """Column k of the row of particle p at a timestep: number, position, velocity."""
    if k == 0:
        return idx(fld(ts, "", "particleid"), (p,))
    return idx(fld(ts, "", "position"), (p, num(k - 1))) if k < 4 else \
        idx(fld(ts, "", "velocity"), (p, num(k - 4)))


def records(ck):
    totals(ck)
    f = ck.method("PyData", "__getitem__")
    n = fld(STATS, "", "ntimesteps")
    which, p, m = arg("index"), mk("in", "particle"), mk("in", "row")
    a = ck.run(f, (SELF, which))
    rule = "indexing hands out, for each timestep asked for and each particle in it, number, position and " \
           "velocity in this order"

    def wrapped(i):
        return mk_case([(i, cmp("Ge", i, num(0), True)), (add(n, i), cmp("Lt", i, num(0), True))])

    sl = call("pyo3::types::PySlice::indices", fld(which, "Slice", "0"), n)
    span = fld(sl, "Ok", "0")
    vec = fld(which, "Vec", "0")
    forms = {
        "Int": (wrapped(fld(which, "Int", "0")), None),
        "Vec": (wrapped(idx(vec, (m,))), terms.dim_of(vec, 0)),
        "Slice": (add(fld(span, "", "start"), terms.mul(m, fld(span, "", "step"))),
                  fld(span, "", "slicelength")),
    }
    for form, (at, many) in forms.items():
        g = terms.is_variant(which, form)
        if form == "Slice":
            g = B.AND(g, terms.is_variant(sl, "Ok"))
        else:
            g = B.AND(g, B.AND(*[B.NOT(terms.is_variant(which, x)) for x in forms if x != form]))
        ts = call("get_timestep", DATA, at)
        count = terms.dim_of(fld(ts, "", "position"), 0)
        care = B.AND(g, cmp("Ge", p, num(0), True), cmp("Lt", p, count, True))
        if many is not None:
            care = B.AND(care, cmp("Ge", m, num(0), True), cmp("Lt", m, many, True))
        ck.implied(f"Data.getitem:{form}:answers", g, a.ok, "every index is answered", f["span"])
        v = fld(a.ret, "Ok", "0")
        ck.same_guard(f"Data.getitem:{form}:ok", terms.is_variant(a.ret, "Ok"), 1, g, "an index is accepted",
                      f["span"])
        for k in range(COLUMNS):
            ck.same(f"Data.getitem:{form}:{k}", idx(v, ((p,) if many is None else (m, p)) + (num(k),)),
                    row(ts, p, k), care, rule, f["span"])
            ck.count("columns")
        if many is not None:
            ck.same(f"Data.getitem:{form}:many", terms.dim_of(v, 0), many, g,
                    "there is one layer for each timestep asked for", f["span"])
        else:
            ck.same(f"Data.getitem:{form}:rows", terms.dim_of(v, 0), count, g,
                    "there is one row for each particle of the timestep", f["span"])
        asked = [e for e in a.log if e.kind == "call" and e.name.startswith("get_timestep") and
                 terms.sat(B.AND(e.cond, g))]
        ck.ob(f"Data.getitem:{form}:asks", len(asked) == 1, "each timestep is asked for once", f["span"])
    ck.floor("columns", 21, "columns of rows handed out")


def totals(ck):
    dims = fld(STATS, "", "dimensions")
    for name, want in (
            ("nparticles", fld(STATS, "", "nparticles")), ("__len__", fld(STATS, "", "ntimesteps")),
            ("time", fld(STATS, "", "time_array")), ("min_position", idx(dims, (num(0),))),
            ("max_position", idx(dims, (num(1),)))):
        Method(ck, "PyData", name).takes().does().returns(want, "Python is told what the recording says")
    m = Method(ck, "PyData", "dimensions").takes().does()
    got = m.ret.a[1] if m.ret.k == "call" and m.ret.a[0].endswith("into_py_dict") else None
    ck.ob("Data.dimensions:pairs", got is not None and got.k == "array", "extents are given by name",
          m.where, lambda: clip(show(m.ret)))
    pairs = {fld(e, "", "0").a[0]: fld(e, "", "1") for e in got.a[0]}
    for i, side in enumerate(("min", "max")):
        for j, axis in enumerate("xyz"):
            ck.same(f"Data.dimensions:{axis}{side}", pairs.get(axis + side, mk("text")),
                    idx(dims, (num(i), num(j))), m.ok, "an extent is given under its own name", m.where)
    m = Method(ck, "PyData", "extract").takes("particle_id", "timestep").does("extract")
    m.returns(call("extract", DATA, arg("particle_id"), arg("timestep")), RIGHT)


# ---------------------------------------------------------------- C45
LAYOUTS = {"cartesian": "CartesianGrid3D", "cylindrical": "CylindricalGrid3D"}


def grids(ck):
    constructors(ck)
    readings(ck)
    heat_map(ck)
    ck.floor("methods", 25, "methods of grids")


def triple(f):
    return mk("array", tuple(f(k) for k in range(3)))


def constructors(ck):
    sealed = [(ck.method(t, "new")["id"], t) for t in LAYOUTS.values()]
    cells, limit = arg("cells"), arg("limit")
    recorded = fld(call("global_stats", fld(arg("pydata"), "", "data")), "", "dimensions")
    rule = "a grid has the cells asked for, along each axis, and spans what was asked for"
    for style, ty in LAYOUTS.items():
        mode = ("mode",) if style == "cylindrical" else ()
        for name, names, lim in (
                (f"{style}3d", ("cells", "limit"), lambda k, i: idx(limit, (num(2 * k + i),))),
                (f"{style}3d_from_data", ("pydata", "cells"), lambda k, i: idx(recorded, (num(i), num(k))))):
            m = Method(ck, "PyGrid", name, sealed).takes(*names, *mode).does(ty)
            dim = mk("adt", "grid::Dim", "ThreeD", ("0",),
                     (triple(lambda k: mk("array", (lim(k, 0), lim(k, 1)))),))
            m.ret = bare(m.ret)
            m.returns(call(ty, triple(lambda k: idx(cells, (num(k),))), dim, *map(arg, mode)), rule)
            if names[1] == "limit":
                ck.same_guard(f"{m.key}:refuses", m.ok, B.AND(
                    cmp("Eq", terms.dim_of(cells, 0), num(3), True),
                    cmp("Eq", terms.dim_of(limit, 0), num(6), True)), 1,
                    "numbers of cells and limits that are not those of three axes are refused, others are not",
                    m.where)


def positions(g, k):
    return call(f"get_{'xyz'[k]}positions", g)


#: reading -> (arguments, what is read of one grid)
READINGS = {
    "to_numpy": ((), lambda g: call("get_data", g)),
    "slice": (("axis", "index"), lambda g: call("slice_idx", g, arg("axis"), arg("index"))),
    "slice_pos": (("axis", "position"), lambda g: call("slice", g, arg("axis"), arg("position"))),
    "collapse": (("axis",), lambda g: call("collapse", g, arg("axis"))),
}


def readings(ck):
    rule = "what is read of a grid is what the grid holds"
    g, parts = GRID, fld(GRID, "", "data")
    for name, (takes, read) in READINGS.items():
        Method(ck, "PyGrid", name).takes(*takes).does().returns(read(g), rule)
        Method(ck, "PyVecGrid", name).takes(*takes).does().returns(
            mk("tuple", tuple(read(idx(parts, (num(k),))) for k in range(3))),
            "what is read of a grid of vectors is given for each component, in order")
    for name, takes, want in (
            ("weights_to_numpy", (), call("get_weights", g)),
            ("collapse_two", ("axis1", "axis2"), call("collapse_two", g, arg("axis1"), arg("axis2"))),
            ("xpositions", (), positions(g, 0)), ("ypositions", (), positions(g, 1)),
            ("zpositions", (), positions(g, 2)),
            ("cell_positions", (), mk("tuple", tuple(positions(g, k) for k in range(3)))),
            ("is_inside", ("position",), call("is_inside", g, triple(
                lambda k: idx(arg("position"), (num(k),))))),
            ("cell_id", ("x", "y", "z"), fld(call("cell_id", g, triple(lambda k: arg("xyz"[k]))), "Ok", "0")),
            ("shape", (), triple(lambda k: idx(call("get_cells", g), (num(k),))))):
        Method(ck, "PyGrid", name).takes(*takes).does().returns(want, rule)
    one = idx(parts, (num(0),))
    m = Method(ck, "PyVecGrid", "cell_positions").takes().does()
    m.returns(mk("tuple", tuple(positions(one, k) for k in range(3))), rule)
    m = Method(ck, "PyVecGrid", "shape").takes().does()
    m.returns(triple(lambda k: idx(call("get_cells", one), (num(k),))), rule)
    m = Method(ck, "PyGrid", "remove_outliers").takes("mode", "threshold").does("outlier_removal")
    done = [e for e in m.effects if e.name == "outlier_removal"]
    ck.ob("Grid.remove_outliers:what", len(done) == 1 and done[0].obj is g and done[0].cond == 1 and
          done[0].args == (arg("threshold"), arg("mode")), "outliers are removed as asked", m.where,
          lambda: "; ".join(f"{show(e.obj)}: {', '.join(map(show, e.args))}" for e in done))


def heat_map(ck):
    m = Method(ck, "PyGrid", "plot").takes("axis").does()
    drawn = [e for e in m.a.log if e.kind == "call" and e.name.endswith("Plot::add_trace")]
    ck.ob("Grid.plot:once", len(drawn) == 1, "one map is drawn", m.where)
    for axis in range(3):
        first, second = [k for k in range(3) if k != axis]
        g = cmp("Eq", arg("axis"), num(axis), True)
        care = B.AND(g, drawn[0].cond)
        t = drawn[0].args[0]
        for v, c in (t.a[0] if t.k == "case" else ((t, 1),)):
            if not terms.sat(B.AND(care, c)):
                continue
            ck.ob(f"Grid.plot:{axis}:map", v.k == "call" and v.a[0].endswith("HeatMap::<X, Y, Z>::new"),
                  "a map of values is drawn", m.where, lambda: clip(show(v)))
            flat = call("collapse", GRID, arg("axis"))
            at = mk("in", "p"), mk("in", "q")
            for part, got, want in (
                    ("across", v.a[1], positions(GRID, second)), ("up", v.a[2], positions(GRID, first)),
                    ("shown", idx(idx(v.a[3], (at[0],)), (at[1],)), idx(flat, at))):
                ck.same(f"Grid.plot:{axis}:{part}", got, want, B.AND(care, c),
                        "a map shows the collapsed grid over the positions of its cells", drawn[0].sp)
                ck.count("map")
    ck.floor("map", 9, "sides and values of maps")


# ---------------------------------------------------------------- C46
DEEP = "depth_average"


def sealed_plots(ck):
    out = []
    for f in ck.js["fns"]:
        if f["kind"] != "fn" or "::plotting" not in f["id"]:
            continue
        ty = (f.get("impl_self") or "").split("::")[-1]
        if ty and f["name"].startswith(("from_", "bound_", "create_")):
            out.append((f["id"], f"{ty}.{f['name']}"))
        elif f["name"] == "plot" and not ty:
            out.append((f["id"], "plot"))
    out.append((ck.method("PyPlotter2D", "get_gradient")["id"], "gradient"))
    return tuple(out)


class Figure:
    """What a plotting method draws from."""

    def __init__(self, ck, name, names):
        f = ck.method("PyPlotter2D", name)
        w = Method(ck, "PyPlotter2D", name, sealed_plots(ck)).takes(*names)
        self.ck, self.where, self.key = ck, f["span"], w.key
        a = self.a = ck.run(f, (SELF, *map(arg, names)), sealed=sealed_plots(ck))
        self.good = B.AND(a.ok, terms.is_variant(a.ret, "Ok"))
        drawn = fld(a.final[0], "", "plotting_string")
        drawn = [(v, g) for v, g in (drawn.a[0] if drawn.k == "case" else ((drawn, 1),))
                 if terms.sat(B.AND(g, self.good))]
        ok = all(v.k == "call" and v.a[0].endswith("Plot::to_json") and v.a[1].k == "call" and
                 v.a[1].a[0] == "plot" for v, g in drawn)
        ck.ob(f"{self.key}:kept", ok and drawn, "the figure asked for is what is kept to be shown", f["span"],
              lambda: "; ".join(clip(show(v)) for v, g in drawn))
        ck.same(f"{self.key}:unchanged", fld(a.final[0], "", "grid"), GRID, 1, "drawing a grid does not "
                "change it", f["span"])
        self.traces = plain(mk_case([(v.a[1].a[1], g) for v, g in drawn]))
        ck.count("figures")

    def shows(self, key, care, got, want, rule):
        self.ck.same(f"{self.key}:{key}", got, want, B.AND(care, self.good), rule, self.where)

    def answers(self, key, care):
        """Requests in care are answered."""
        self.ck.implied(f"{self.key}:{key}:answered", care, self.good, "what can be shown is shown",
                        self.where)


def vectors(*grids_):
    """They are grids of vectors."""
    return B.AND(*[B.var("IS", mk("type", g), "grid::vector_grid::VectorGrid") for g in grids_])


AXIS = arg("axis")
LAYER = fld(arg("index"), "Some", "0")


def said(name, text):
    """The argument is this text."""
    return terms.eq(arg(name), mk("str", text))


def some(name):
    return terms.is_variant(arg(name), "Some")


def choices(ty, what, grids_):
    """(guard, plotter): the plane averaged over depth, and that of one layer."""
    yield "deep", said("selection", DEEP), call(f"{ty}.from_{what}_depth_averaged", *grids_, AXIS)
    yield "plane", B.AND(said("selection", "plane"), some("index")), \
        call(f"{ty}.from_{what}_single_plane", *grids_, AXIS, LAYER)


SHOWN = "a figure shows the plane asked for, of the grid it is drawn from"


def figures(ck):
    arrows(ck)
    scalars(ck)
    parity(ck)
    ck.floor("figures", 10, "figures offered to Python")
    colours(ck)
    holders(ck)


def holders(ck):
    """The grid a plotter is made for."""
    for name, takes in (("_from_vector_grid", "vector_grid"), ("_from_grid", "grid")):
        m = Method(ck, "PyPlotter2D", name).takes(takes).does()
        ck.same(f"{m.key}:grid", fld(m.ret, "", "grid"), of(takes), m.ok, "a plotter draws the grid it is "
                "made for", m.where)


def arrows(ck):
    for name, ty in (("_quiver_plot", "QuiverPlot"), ("_unit_vector_plot", "UnitVectorPlot")):
        fig = Figure(ck, name, ("axis", "selection", "index", "scaling_mode", "min_size", "max_size",
                                "colour_map"))
        def arrows_of(t):
            return call("arrows", t.a[1], t.a[3]) if t.k == "call" and \
                t.a[0] == f"{ty}.create_quiver_traces" else None
        drawn = swap(fig.traces, arrows_of)
        for key, care, plot in choices(ty, "vector_grid", (GRID,)):
            care = B.AND(care, vectors(GRID))
            step = [terms.sub(idx(fld(plot, "", c), (num(1),)), idx(fld(plot, "", c), (num(0),)))
                    for c in "xy"]
            lo, hi = (fld(arg(f"{m}_size"), "Some", "0") for m in ("min", "max"))
            mode = fld(arg("scaling_mode"), "Some", "0")
            bound = {"min": (lo,), "max": (hi,), "minmax": (lo, hi), "half_node": step, "full_node": step}
            rest = care
            for word, args in bound.items():
                c = B.AND(some("scaling_mode"), terms.eq(mode, mk("str", word)))
                rest = B.AND(rest, B.NOT(c))
                full = f"{ty}.bound_{word.replace('minmax', 'min_max')}"
                for m in ("min", "max"):
                    if word in (m, "minmax"):
                        c = B.AND(c, some(f"{m}_size"))
                fig.shows(f"{key}:{word}", B.AND(care, c), drawn,
                          call("arrows", call(full, plot, *args), tint()),
                          "arrows are bounded in the way asked for")
                fig.answers(f"{key}:{word}", B.AND(care, c))
            fig.shows(f"{key}:free", rest, drawn, call("arrows", plot, tint()), SHOWN)
            fig.answers(f"{key}:free", rest)


def tint():
    return call("gradient", SELF, arg("colour_map"))


def each_trace(fig, key, care, traces):
    """The traces drawn are these, one by one."""
    q = mk("in", "trace")
    n = terms.dim_of(traces, 0)
    fig.shows(f"{key}:number", care, terms.dim_of(fig.traces, 0), n, "all of a plot is shown")
    at = B.AND(care, cmp("Ge", q, num(0), True), cmp("Lt", q, n, True))
    return at, idx(fig.traces, (q,)), idx(traces, (q,))


def scalars(ck):
    for name, ty, extra in (("_scalar_map", "ScalarMap", ()),
                            ("_scalar_contour", "ScalarContour", ("n_contours",))):
        fig = Figure(ck, name, ("grid_type", "axis", "selection", "index", "colour_map") + extra)
        for what, c in (("vector_grid", vectors(GRID)), ("grid", 1)):
            c = B.AND(c, said("grid_type", what))
            for key, care, plot in choices(ty, what, (GRID,)):
                care = B.AND(care, c)
                for x in extra:
                    care = B.AND(care, some(x))
                key = f"{what}:{key}"
                fig.answers(key, care)
                made = call(f"{ty}.create_{'scalar_map' if not extra else 'scalar_contour'}", plot, tint())
                at, got, want = each_trace(fig, key, care, made)
                if not extra:
                    fig.shows(key, at, got, want, SHOWN)
                    continue
                levels(fig, key, at, got, want, plot)


def levels(fig, key, care, got, want, plot):
    """Levels from the smallest to the largest value, as many steps apart as asked for."""
    lo, hi = fld(plot, "", "min"), fld(plot, "", "max")
    n = fld(arg("n_contours"), "Some", "0")
    parts = {"start": lo, "end": hi, "size": terms.div(terms.sub(hi, lo), n)}
    leaves = [(v, g) for v, g in (got.a[0] if got.k == "case" else ((got, 1),))
              if terms.sat(B.AND(care, g))]
    for v, g in leaves:
        base, seen = chain(v, "contours")
        fig.shows(f"{key}:trace", B.AND(care, g), base, want, SHOWN)
        for part, value in parts.items():
            fig.shows(f"{key}:{part}", B.AND(care, g), seen.get(part, mk("text")), value,
                      "contours are drawn from the smallest to the largest value, in as many steps as asked for")


def chain(v, inside):
    """What a trace was made of, and the settings given to it (those of `inside` within)."""
    seen = {}
    while v.k == "call" and "::" in v.a[0] and len(v.a) > 1:
        word = v.a[0].split("::")[-1]
        if len(v.a) > 2:
            seen.setdefault(word, v.a[2])
        v = v.a[1]
    if inside in seen:
        seen.update(chain(seen[inside], None)[1])
    return v, seen


def parity(ck):
    for ty, word, made, free in (("ParityPlot", "plot", "create_parity_scatter", True),
                                 ("ParityMap", "map", "create_parity_map", False),
                                 ("ParityContour", "contour", "create_parity_contour", False)):
        for what in ("vector_grid", "grid"):
            fig = Figure(ck, f"_parity_{word}_from_{what}", ("comparison_grid", "axis", "selection", "index"))
            pair = GRID, of("comparison_grid")
            cases = list(choices(ty, f"{what}s", pair))
            if free:
                cases.append(("all", B.AND(B.NOT(said("selection", DEEP)), B.NOT(said("selection", "plane"))),
                              call(f"{ty}.from_{what}s", *pair)))
            for key, care, plot in cases:
                if what == "vector_grid":
                    care = B.AND(care, vectors(*pair))
                fig.answers(key, care)
                at, got, want = each_trace(fig, key, care, call(f"{ty}.{made}", plot))
                fig.shows(key, at, got, want, "a comparison is of the grid it is drawn from with the one given")


def colours(ck):
    f = ck.method("PyPlotter2D", "get_gradient")
    a = ck.run(f, (SELF, arg("colour")))
    word = fld(arg("colour"), "Some", "0")
    names = set()
    for t, g in (a.ret.a[0] if a.ret.k == "case" else ((a.ret, 1),)):
        if t.k == "adt" and t.a[1] == "None":
            continue
        v = fld(t, "Some", "0")
        for x, h in (v.a[0] if v.k == "case" else ((v, 1),)):
            name = x.a[0].split("::")[-1].lower() if x.k == "const" else show(x)
            names.add(name)
            care = B.AND(B.AND(g, h), a.ok)
            ck.ob(f"Plotter2D.colours:{name}", terms.implies(care, B.AND(
                some("colour"), terms.eq(word, mk("str", name)))), "a colour map is found under its own name",
                f["span"], lambda: f"{name} when {gshow(care)}")
    ck.count("colours", len(names))
    ck.floor("colours", 30, "colour maps")


# ---------------------------------------------------------------- C47
FILES = "write_hdf5_from_files"
FOLDER = "write_hdf5_from_folder"
CONVERTERS = ("csv_converter", "csv_multi_converter", "csv_multi_file_time_step")


def conversions(ck):
    """The conversions of the library, and what each is called here."""
    out = []
    for f in ck.js["fns"]:
        if f["kind"] != "fn" or "::converter" not in f["id"]:
            continue
        ty = (f.get("impl_self") or "").split("::")[-1]
        if ty and f["name"] in (FILES, FOLDER):
            out.append((f["id"], f"{ty}.{f['name']}"))
        elif not ty and f["name"] in CONVERTERS:
            out.append((f["id"], f["name"]))
    return tuple(out)


def holds(e):
    """What a logged call was applied to, and what it was given."""
    return ((e.obj,) if e.obj is not None else ()) + tuple(e.args)


CSV = ("filename", "outname", "columns", "delimiter", "header", "comment", "vel", "interpolate", "radius")
RECORDINGS = {
    "csv": (CSV + ("sampling_steps",), "csv_converter", CSV + ("sampling_steps",)),
    "csv_multi": (CSV + ("method",), "csv_multi_converter", CSV + ("method",)),
    "csv_multi_files": (("filenames", "outname", "times") + CSV[2:], "csv_multi_file_time_step",
                        ("filenames", "outname", "columns", "times") + CSV[3:]),
}
FIELDS = ("velocity", "id", "type", "radius", "diameter")


def converting(ck):
    known = conversions(ck)
    names = {n for _, n in known}
    for name, (takes, what, given) in RECORDINGS.items():
        m = Method(ck, "PyConverter", name, known).takes(*takes)
        calls = [e for e in m.a.log if e.kind == "call" and e.name in names]
        rule = "a conversion is the one it is named after, of the files, columns and settings given"
        for e in calls:
            got = holds(e)
            ok = e.name == what and len(got) == len(given)
            ck.ob(f"{m.key}:what", ok, rule, e.sp, f"is {e.name}")
            for n, v in zip(given, got) if ok else ():
                ck.same(f"{m.key}:{n}", plain(v), arg(n), e.cond, rule, e.sp)
        done = B.OR(*[e.cond for e in calls]) if calls else 0
        ck.implied(f"{m.key}:done", m.ok, done, "what is asked to be converted is converted", m.where)
        if name == "csv":
            even = terms.eq(mk("rem", arg("sampling_steps"), num(2)), num(0))
            ck.implied(f"{m.key}:odd", even, B.NOT(m.ok), "velocities are not computed from an even number "
                       "of steps", m.where)
            ck.implied(f"{m.key}:accepted", B.NOT(even), m.ok, "an odd number of steps is accepted", m.where)
        else:
            ck.implied(f"{m.key}:accepted", 1, m.ok, "conversions asked for are not refused", m.where)
        ck.count("conversions")
    for name, source, how in (("vtk", "filenames", FILES), ("vtk_from_folder", "folder", FOLDER)):
        takes = (source, "timestep", "outname", "filter") + tuple(
            f"{f}_field_name" for f in ("velocity", "radius", "id", "type", "diameter"))
        m = Method(ck, "PyConverter", name, known).takes(*takes)
        calls = [e for e in m.a.log if e.kind == "call" and e.name in names]
        ends = {x: B.var("P", mk("call", "core::str::<impl str>::contains", arg("filter"), mk("str", x)))
                for x in (".vtk", ".vtu", ".vtp")}
        for x, kind, file_type in ((".vtk", "LegacyVTKConverter", None),
                                   (".vtu", "XMLVTKConverter", "UnstructuredGrid"),
                                   (".vtp", "XMLVTKConverter", "PolyData")):
            care = B.AND(m.ok, ends[x], *[B.NOT(g) for y, g in ends.items() if y != x])
            done = 0
            for e in calls:
                at = B.AND(care, e.cond)
                if not terms.sat(at):
                    continue
                key = f"{m.key}:{x[1:]}"
                got = holds(e)
                ck.ob(f"{key}:what", e.name == f"{kind}.{how}", "files are read as what they are: legacy "
                      "text, unstructured grids or polygons", e.sp, f"is {e.name}")
                ck.ob(f"{key}:once", not terms.sat(B.AND(at, done)), "files are converted once", e.sp)
                done = B.OR(done, at)
                if e.name != f"{kind}.{how}" or len(got) != 5:
                    continue
                for n, v in zip((source, "timestep", "outname", "filter"), got[1:]):
                    ck.same(f"{key}:{n}", plain(v), arg(n), at, "a conversion is of the files given, into "
                            "the file named", e.sp)
                if file_type:
                    ck.ob(f"{key}:type", terms.implies(at, terms.is_variant(fld(got[0], "", "file_type"),
                                                                            file_type)),
                          "modern files are of the type their extension says", e.sp,
                          lambda: show(fld(got[0], "", "file_type")))
                diam = some("diameter_field_name")
                for f in FIELDS:
                    v = fld(got[0], "", f"{f}_field_name")
                    here = at
                    if f == "diameter":
                        here = B.AND(at, diam)
                    elif f == "radius":
                        here = B.AND(at, B.NOT(diam))
                        ck.implied(f"{key}:radius:unused", B.AND(at, diam), terms.is_variant(v, "None"),
                                   "a diameter is used rather than a radius when it is named", e.sp)
                    want = fld(arg("diameter_field_name"), "Some", "0") if f == "diameter" else \
                        arg(f"{f}_field_name")
                    ck.implied(f"{key}:{f}:named", here, terms.is_variant(v, "Some"), "each quantity is read "
                               "from the field named for it", e.sp)
                    ck.same(f"{key}:{f}", plain(fld(v, "Some", "0")), want, here, "each quantity is read "
                            "from the field named for it", e.sp)
                    ck.count("fields")
            ck.implied(f"{m.key}:{x[1:]}:done", care, done, "what is asked to be converted is converted",
                       m.where)
    ck.implied("Converter.vtk:accepted", 1, m.ok, "conversions asked for are not refused", m.where)
    folders(ck)
    ck.floor("conversions", 3, "conversions of text")
    ck.floor("fields", 30, "quantities of files for visualisation")


def folders(ck):
    """A folder is its files of the right kind, in the order of the numbers in their names."""
    for ty, exts in (("LegacyVTKConverter", (".vtk",)), ("XMLVTKConverter", (".vtk", ".vtu", ".vtp"))):
        f = ck.method(ty, FOLDER)
        me, folder, step, out, flt = (mk("in", n) for n in ("converter", "folder", "timestep", "outname",
                                                            "filter"))
        a = ck.run(f, (me, folder, step, out, flt), sealed=conversions(ck))
        calls = [e for e in a.log if e.kind == "call" and e.name == f"{ty}.{FILES}"]
        key = f"{ty}.folder"
        ck.ob(f"{key}:done", len(calls) == 1 and terms.implies(a.ok, calls[0].cond),
              "the files of a folder are converted", f["span"], f"{len(calls)} conversions")
        for e in calls:
            got = holds(e)
            for n, v, w in zip(("converter", "timestep", "outname", "filter"), (got[0],) + got[2:],
                               (me, step, out, flt)):
                ck.same(f"{key}:{n}", plain(v), w, e.cond, "a folder is converted as its files would be", e.sp)
            files, order = got[1], None
            while files.k == "mut":
                order = files if order is None else None
                files = files.a[2]
            cmps = [x for x in a.log if x.kind == "call" and ".." not in x.name and "sort" in x.name
                    and x.obj is files]
            ck.ob(f"{key}:sorted", order is not None and len(cmps) == 1, "files are converted in order",
                  e.sp, clip(show(got[1])))
            for c in cmps:
                natural(ck, key, c)
            ck.ob(f"{key}:files", files.k == "filtered", "the files of a folder are the ones in it", e.sp,
                  lambda: clip(show(files)))
            if files.k != "filtered":
                continue
            _, path, keep, n, *_ = files.a
            keep = terms.as_bool(keep)
            src = {t for t in terms.subterms(path) if t.k == "call" and t.a[0] == "std::fs::read_dir"}
            ck.ob(f"{key}:source", len(src) == 1, "the files of a folder are the ones in it", e.sp,
                  lambda: clip(show(path)))
            text = [B.var("P", mk("call", "core::str::<impl str>::ends_with", path, mk("str", x)))
                    for x in exts]
            sub = B.var("P", mk("call", "core::str::<impl str>::contains", path, mk("str", "boundingBox")))
            want = B.AND(B.OR(*text), B.NOT(sub))
            ck.same_guard(f"{key}:kept", keep, want, 1, "every file of the right kind in a folder is "
                          "converted, and only those, without the bounding boxes beside them", e.sp)
            ck.count("folders")
    ck.floor("folders", 2, "conversions of folders")


def natural(ck, key, c):
    ok = False
    if len(c.args) == 1 and c.args[0].k == "closure":
        x, y = mk("in", "one"), mk("in", "other")
        r = ck.run(ck.by_id(c.args[0].a[0]), (c.args[0], x, y)).ret
        ok = r is mk("call", "natord::compare", x, y)
    elif len(c.args) == 1 and c.args[0].k == "fn":
        ok = c.args[0].a[0] == "natord::compare"
    ck.ob(f"{key}:order", ok, "numbers in the names of files are read as numbers when they are put in order",
          c.sp, lambda: "; ".join(map(show, c.args)))


# ---------------------------------------------------------------- C48
#: what the documentation says an argument is when it is left out
DEFAULTS = {
    "PyConverter": {
        "vtk": {"filter": "(\\d+).vtk", "velocity_field_name": "v", "radius_field_name": "radius",
                "id_field_name": "id", "type_field_name": "type", "diameter_field_name": None},
        "vtk_from_folder": {"filter": "(\\d+).vtk", "velocity_field_name": "v",
                            "radius_field_name": "radius", "id_field_name": "id",
                            "type_field_name": "type", "diameter_field_name": None},
        "csv": {"columns": [0, 1, 2, 3], "delimiter": ",", "header": True, "comment": "#", "vel": False,
                "interpolate": False, "radius": 0, "sampling_steps": 9},
        "csv_multi": {"columns": [0, 1, 2, 3], "delimiter": ",", "header": True, "comment": "#",
                      "vel": False, "interpolate": False, "radius": 0, "method": "chain"},
        "csv_multi_files": {"columns": [0, 1, 2, 3], "delimiter": ",", "header": True, "comment": "#",
                            "vel": False, "interpolate": False},
    },
    "PyData": {
        "granular_temperature": {"mode": "xyz"},
        "circulation_time": {"axis": 0},
        "circulation_time_two_boundary": {"axis": 0},
    },
    "PyGrid": {
        "cylindrical3d": {"mode": "volume"},
        "cylindrical3d_from_data": {"mode": "volume"},
        "plot": {"axis": 0},
    },
}


def means(t, v):
    """The value t is what the documentation writes as v."""
    if v is None:
        return t.k == "adt" and t.a[1] == "None"
    if isinstance(v, bool):
        return t is terms.mk_bool(1 if v else 0)
    if isinstance(v, str):
        return t is mk("str", v)
    if isinstance(v, list):
        return terms.dim_of(t, 0) is num(len(v)) and \
            all(means(idx(t, (num(i),)), x) for i, x in enumerate(v))
    return t is num(v)


def defaults(ck):
    for ty, methods in DEFAULTS.items():
        for name, want in methods.items():
            m = Method(ck, ty, name, conversions(ck))
            got = {e.args[1].a[0]: e for e in m.passed}
            for arg_, v in want.items():
                key = f"{m.key}:{arg_}"
                e = got.get(arg_)
                d = e and e.extra["default"]
                if not ck.ob(f"{key}:optional", d is not None and d.k in ("closure", "fn"), "what has a "
                             "documented default may be left out", m.where,
                             lambda: f"{arg_} has to be given"):
                    continue
                f = ck.by_id(d.a[0])
                a = ck.run(f, (d,))
                t = plain(a.ret)
                ck.ob(f"{key}:default", a.ok == 1 and means(t, v), "an argument that is left out is what "
                      "the documentation says it is", f["span"], lambda: f"is {clip(show(t))}")
                ck.count("defaults")
    ck.floor("defaults", 35, "arguments with documented defaults")

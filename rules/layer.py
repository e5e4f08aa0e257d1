"""The Python layer: grids and figures asked for in Python."""
import itertools
import os
import re

import pyflow
from program import REPO
from pyflow import K, Module, Obj, Raised, Undecided, same, show

GIVEN = ("data", "limits", "xlim", "ylim", "zlim", "cell_size")
LENS = {("sym", "limits"): 6, ("sym", "xlim"): 2, ("sym", "ylim"): 2, ("sym", "zlim"): 2,
        ("sym", "cell_size"): 3, ("sym", "num_cells"): 3}


def where(module, name):
    return f"up4/{module}.py ({name})"


def module(ck, name):
    try:
        return Module(os.path.join(REPO, "up4", f"{name}.py"), name)
    except (OSError, SyntaxError) as ex:
        ck.fail(f"anchor:{name}", f"up4/{name}.py can be read", f"up4/{name}.py", str(ex))


def walk(ck, key, run, facts, w, lens=None):
    try:
        r = pyflow.ways(run, facts, lens)
    except (Undecided, RecursionError) as ex:
        ck.fail(f"{key}:analysis", "the function is within what the analysis can decide", w, str(ex))
    for o in r:
        ck.fns |= {f"up4.{f}" for f in o.fns}
        ck.lines_ = getattr(ck, "lines_", set()) | o.lines
    ck.sites = len(getattr(ck, "lines_", ()))
    return r


def method(ck, m, cls, name):
    c = m.cls(cls)
    if c is None or name not in c.methods:
        ck.fail(f"anchor:{cls}.{name}", f"{cls}.{name} exists", where(m.name, cls), "it cannot be found")
    return c.methods[name]


def sym(name):
    return ("sym", name)


def elements(v, n):
    """The elements of an argument of a call, None where there are not n."""
    if isinstance(v, tuple) and v[0] == "seq":
        return list(v[2]) if len(v[2]) == n else None
    w = pyflow.Walk(lambda t: None, LENS, [])
    return [w.elem(v, k) for k in range(n)]


def valid(t):
    """What holds of arguments that are as documented."""
    if t[0] == "isinstance":
        return True
    if t[0] == "none" and t[1][0] in ("sym", "call", "idx"):
        return False
    if t[0] == "lt" and all(isinstance(x, tuple) and x[0] == "idx" and x[1] in LENS and isinstance(x[2], K)
                            for x in t[1:]) and t[1][1] == t[2][1]:
        # the lower limit is not above the upper one
        a, b = t[1][2].v, t[2][2].v
        if {a, b} == {0, 1} or t[1][1] == sym("limits") and a // 2 == b // 2:
            return True if a < b else False
    if t[0] == "lt" and t[2] == K(0) and isinstance(t[1], tuple) and t[1][0] == "idx" and t[1][1] in LENS:
        return False
    if t[0] == "eq" and isinstance(t[2], tuple) and t[1][0] == "idx" and t[2][0] == "idx" and t[1][1] == t[2][1]:
        return False
    return None


def grids(ck):
    """A Grid covers what it is asked to, with the cells asked for."""
    m = module(ck, "grid")
    w = where("grid", "Grid")
    new = method(ck, m, "Grid", "__new__")
    cls = m.cls("Grid")
    for style in ("cartesian", "cylindrical"):
        for given in itertools.product((False, True), repeat=len(GIVEN)):
            has = dict(zip(GIVEN, given))
            axes = [a for a in ("xlim", "ylim", "zlim") if has[a]]
            key = f"{style}:" + (".".join(a for a in GIVEN if has[a]) or "nothing")
            args = [(a, sym(a) if has[a] else K(None)) for a in GIVEN] + \
                [("num_cells", sym("num_cells")), ("grid_style", K(style))]
            one = bool(axes)
            if has["limits"] and one and has["data"]:
                continue                     # limits given twice: which of them counts is not said
            outcomes = walk(ck, key, lambda x: x.call(pyflow.Fn(new, None, m), [sym("class")], args), valid, w, LENS)
            made = [o for o in outcomes if o.kind == "return"]
            ck.count("grids")
            if not has["data"] and (has["limits"] and one or not has["limits"] and len(axes) < 3):
                ck.ob(f"{key}:refused", not made, "a grid without limits, or with limits given twice, is refused", w,
                      lambda: show(made[0].value))
                continue
            ck.ob(f"{key}:made", bool(made), "a grid asked for as documented is made", w,
                  lambda: ", ".join(sorted({o.value for o in outcomes})))
            for o in made:
                one_grid(ck, key, o.value, style, has, w)
    # a style that does not exist
    args = [("data", sym("data")), ("num_cells", sym("num_cells")), ("grid_style", sym("style"))]
    outcomes = walk(ck, "style", lambda x: x.call(pyflow.Fn(new, None, m), [sym("class")], args),
                    lambda t: False if t[0] == "eq" and t[1] == sym("style") else valid(t), w, LENS)
    ck.ob("style:refused", all(o.kind == "raise" for o in outcomes), "a grid of a style that does not exist is refused", w)
    ck.floor("grids", 90, "ways of asking for a grid")


def one_grid(ck, key, v, style, has, w):
    f = v[1][2] if isinstance(v, tuple) and v[0] == "call" and isinstance(v[1], tuple) and v[1][0] == "attr" else None
    if f is None:
        ck.ob(f"{key}:style", False, "a grid of the style named is made", w, show(v))
        return
    args, kwargs = list(v[2]), dict(v[3])
    extents = has["limits"] or any(has[a] for a in ("xlim", "ylim", "zlim"))
    lo, hi = [], []
    for k, a in enumerate(("xlim", "ylim", "zlim")):
        if has["limits"]:
            at, to = ("idx", sym("limits"), K(2 * k)), ("idx", sym("limits"), K(2 * k + 1))
        elif has[a]:
            at, to = ("idx", sym(a), K(0)), ("idx", sym(a), K(1))
        else:
            at, to = (("idx", ("call", ("attr", sym("data"), n), (), ()), K(k)) for n in ("min_position", "max_position"))
        lo.append(at)
        hi.append(to)
    kind = f"{style}3d" if extents else f"{style}3d_from_data"
    ck.ob(f"{key}:style", f == kind, "a grid of the style named is made, of the recording where it alone is given", w,
          lambda: show(v))
    if f != kind:
        return

    def argument(k, name):
        return args[k] if k < len(args) else kwargs.get(name)
    if extents:
        cells, limits = argument(0, "cells"), argument(1, "limit")
        got = elements(limits, 6) if limits is not None else None
        want = [x for p in zip(lo, hi) for x in p]
        ck.ob(f"{key}:limits", got is not None and all(same(a, b) for a, b in zip(got, want)),
              "a grid covers the limits given, and the recording where none are", w, lambda: show(limits))
    else:
        data, cells = argument(0, "pydata"), argument(1, "cells")
        ck.ob(f"{key}:recording", data == sym("data"), "a grid of a recording is that of the one given", w,
              lambda: show(data))
    got = elements(cells, 3) if cells is not None else None
    if has["cell_size"]:
        want = [("trunc", ("op", "/", ("op", "-", b, a), ("idx", sym("cell_size"), K(k))))
                for k, (a, b) in enumerate(zip(lo, hi))]
        ck.ob(f"{key}:whole", not (isinstance(cells, tuple) and cells[0] == "seq" and cells[1] == "float"),
              "numbers of cells are whole", w, lambda: show(cells))
        ck.ob(f"{key}:size", got is not None and all(same(a, b) for a, b in zip(got, want)),
              "there are as many cells of the size given as fit between the limits", w, lambda: show(cells))
    else:
        plain = [x[1] if isinstance(x, tuple) and x[0] == "trunc" else x for x in got or ()]
        ck.ob(f"{key}:cells", plain == [("idx", sym("num_cells"), K(k)) for k in range(3)],
              "there are as many cells as asked for", w, lambda: show(cells))


# ---------------------------------------------------------------- figures
FIGURES = {
    "quiver_plot": ("_quiver_plot", ("scaling_mode", "min_size", "max_size", "colour_map")),
    "unit_vector_plot": ("_unit_vector_plot", ("scaling_mode", "min_size", "max_size", "colour_map")),
    "scalar_map": ("_scalar_map", ("colour_map",)),
    "scalar_contour": ("_scalar_contour", ("colour_map",)),
    "parity_plot": ("_parity_plot_from_", ()),
    "parity_map": ("_parity_map_from_", ()),
    "parity_contour": ("_parity_contour_from_", ()),
}
MODES = {"min": ("min_size",), "max": ("max_size",), "minmax": ("min_size", "max_size"), "half_node": (), "full_node": ()}


def signature(ck, text, name):
    """The arguments a drawing operation of the Rust side takes from Python."""
    found = re.search(r"fn\s+" + name + r"\s*\(([^)]*)\)", text)
    if not found:
        return None
    names = [x.split(":")[0].strip() for x in found.group(1).split(",") if ":" in x]
    return [n.removeprefix("mut ").strip() for n in names if not n.startswith("&")]


def figures(ck):
    m = module(ck, "plotting")
    rust = open(os.path.join(REPO, "src", "pylib", "libplot.rs")).read()
    maps = sorted(set(re.findall(r'Some\("(\w+)"\)\s*=>\s*Some\(colorous::', rust)))
    ck.floor_maps = len(maps)
    ck.ob("maps", len(maps) >= 30, "colour maps are found", "src/pylib/libplot.rs", str(len(maps)))
    init = method(ck, m, "Plotter2D", "__init__")
    cls = m.cls("Plotter2D")

    def plotter(x, kind):
        o = Obj(cls)
        x.call(pyflow.Fn(init, None, m, o), [sym("field")], [])
        return o

    def facts(kind):
        def f(t):
            if t[0] == "isinstance" and t[1] == sym("field"):
                kinds = [k for k in ("RustVectorGrid", "RustGrid") if k in {y[1] for y in flat(t[2]) if y[0] == "sym"}]
                return kind in kinds or (kind == "RustGrid" and "Grid" in {y[1] for y in flat(t[2]) if y[0] == "sym"})
            if t[0] == "isinstance":
                return True
            if t[0] == "none":
                return False
            if t[0] == "eq" and isinstance(t[1], tuple) and t[1][0] == "sym" and t[1][1].startswith("no_"):
                return False
            return None
        return f

    for kind, origin in (("RustGrid", "_from_grid"), ("RustVectorGrid", "_from_vector_grid")):
        w = where("plotting", "Plotter2D.__init__")
        for o in walk(ck, f"{kind}:of", lambda x: plotter(x, kind), facts(kind), w):
            calls = [e for e in o.effects if e[0] == "call"]
            ck.ob(f"{kind}:of", o.kind == "return" and len(calls) == 1 and calls[0][1][2] == origin and
                  calls[0][2] == (sym("field"),), "figures are those of the grid given", w,
                  lambda: ", ".join(show(c) for c in calls))
        for name, (drawn, options) in FIGURES.items():
            figure(ck, m, rust, kind, name, drawn, options, plotter, facts(kind), maps)
    w = where("plotting", "Plotter2D.__init__")
    for o in walk(ck, "other:of", lambda x: plotter(x, ""), lambda t: False if t[0] == "isinstance" else facts("")(t), w):
        ck.ob("other:of", o.kind == "raise", "there are no figures of anything but grids", w)
    ck.floor("requests", 500, "requests for a figure")
    saved(ck, m)


def flat(t):
    if isinstance(t, tuple) and t and t[0] == "seq":
        for x in t[2]:
            yield from flat(x)
    elif isinstance(t, tuple) and t and t[0] == "op":
        yield from flat(t[2])
        yield from flat(t[3])
    elif isinstance(t, tuple):
        yield t


def requests(options, maps):
    """(arguments, whether they are as documented)."""
    good = dict(axis=K(1), selection=K("depth_average"), index=K(None))
    for o in options:
        good[o] = K(None)
    for a in (0, 1, 2):
        yield dict(good, axis=K(a)), True
    yield dict(good, axis=sym("no_axis")), False
    for a in (3, -1):
        yield dict(good, axis=K(a)), False
    yield dict(good, index=sym("index")), True
    for i in (K(None), sym("index"), K(0)):
        yield dict(good, selection=K("plane"), index=i), i != K(None)
    yield dict(good, selection=sym("no_selection"), index=sym("index")), False
    if "scaling_mode" in options:
        for mode, needs in MODES.items():
            for least, most in itertools.product((K(None), sym("min_size")), (K(None), sym("max_size"))):
                r = dict(good, scaling_mode=K(mode), min_size=least, max_size=most)
                yield r, all(r[n] != K(None) for n in needs)
        yield dict(good, scaling_mode=sym("no_mode"), min_size=sym("min_size"), max_size=sym("max_size")), False
    if "colour_map" in options:
        for c in maps:
            yield dict(good, colour_map=K(c), selection=K("plane"), index=sym("index")), True
        yield dict(good, colour_map=sym("no_map")), False


def figure(ck, m, rust, kind, name, drawn, options, plotter, facts, maps):
    f = method(ck, m, "Plotter2D", name)
    w = where("plotting", f"Plotter2D.{name}")
    vectors = kind == "RustVectorGrid"
    if drawn.endswith("_from_"):
        drawn += "vector_grid" if vectors else "grid"
    takes = signature(ck, rust, drawn)
    if takes is None:
        ck.fail(f"anchor:{drawn}", f"{drawn} exists", "src/pylib/libplot.rs", "it cannot be found")
    possible = vectors or name not in ("quiver_plot", "unit_vector_plot")
    names = [x.arg for x in f.args.args]
    for request, good in requests(options, maps):
        ck.count("requests")
        said = ".".join(f"{k}={show(v)}" for k, v in request.items() if v != K(None))
        key = f"{kind}:{name}:{said}"
        args = list(request.items()) + [("layout", sym("layout")), ("style", sym("style"))]
        if "comparison_grid" in names:
            args.append(("comparison_grid", sym("other")))
        for o in walk(ck, key, lambda x: x.call(pyflow.Fn(f, None, m, plotter(x, kind)), [], args), facts, w):
            calls = [e for e in o.effects if e[0] == "call" and e[1][0] == "attr" and e[1][2] in DRAWN]
            if not good or not possible:
                ck.ob(f"{key}:refused", o.kind == "raise" and not calls,
                      "a request that cannot be met is refused before anything is drawn", w, lambda: show(o.value))
                continue
            ck.ob(f"{key}:drawn", o.kind == "return" and len(calls) == 1 and calls[0][1][2] == drawn,
                  "the figure of that name is drawn", w, lambda: o.value if o.kind == "raise" else
                  ", ".join(show(c) for c in calls))
            if o.kind != "return" or len(calls) != 1 or calls[0][1][2] != drawn:
                continue
            call = calls[0]
            got = dict(zip(takes, call[2]))
            got.update(call[3])
            want = dict(request, grid_type=K("vector_grid" if vectors else "grid"), comparison_grid=sym("other"))
            for k in takes:
                if k in want and (k in request or k in ("comparison_grid", "grid_type")):
                    ck.ob(f"{key}:{k}", k in got and got[k] == want[k], "it is drawn as asked for", w,
                          lambda: f"{k} is {show(got[k]) if k in got else 'left out'}")
            ck.ob(f"{key}:known", all(k in takes for k in got), "every argument is one the drawing takes", w, str(list(got)))
            shown(ck, key, o, call, w)


DRAWN = {n + s for n, _ in FIGURES.values() for s in ("", "vector_grid", "grid")}


def shown(ck, key, o, call, w):
    """The figure returned is the one drawn, in the style and layout asked for."""
    fig = o.value
    good = isinstance(fig, tuple) and fig[0] == "call" and fig[1] == sym("from_json") and len(fig[2]) == 1 and \
        fig[2][0] == ("attr", call[1][1], "plotting_string")
    ck.ob(f"{key}:figure", good, "the figure drawn is the one returned", w, lambda: show(fig))
    styled = [e for e in o.effects if e[0] == "call" and e[1] == ("attr", fig, "plotly_update")]
    good = len(styled) == 1
    if good:
        got = dict(zip(("restyle_data", "relayout_data"), styled[0][2]))
        got.update(styled[0][3])
        good = got.get("restyle_data") == sym("style") and got.get("relayout_data") == sym("layout")
    ck.ob(f"{key}:styled", good, "a figure has the style and layout asked for", w,
          lambda: ", ".join(show(e) for e in o.effects if e[0] == "call"))


def saved(ck, m):
    f = m.names.get("save_fig")
    w = where("plotting", "save_fig")
    if not isinstance(f, pyflow.Fn):
        ck.fail("anchor:save_fig", "save_fig exists", w, "it cannot be found")
    args = [(k, sym(k)) for k in ("fig", "filename", "dpi", "border_width", "paper_width")]
    for o in walk(ck, "saved", lambda x: x.call(f, [], args), lambda t: True if t[0] == "isinstance" else None, w):
        width = ("attr", ("attr", sym("fig"), "layout"), "width")
        calls = [e for e in o.effects if e[0] == "call" and e[1][0] == "attr" and e[1][2] == "write_image"]
        wide = K(700) if o.known.get(("none", width)) else width
        want = ("op", "/", ("op", "*", ("op", "-", sym("paper_width"), ("op", "*", K(2), sym("border_width"))), sym("dpi")),
                ("op", "*", K(25.4), wide))
        if o.kind != "return" or len(calls) != 1:
            ck.ob("saved:written", False, "a figure is saved", w, lambda: ", ".join(show(c) for c in calls))
            continue
        c = calls[0]
        got = dict(c[3])
        ck.ob("saved:written", c[1][1] == sym("fig") and (c[2][:1] or (got.get("file"),))[0] == sym("filename"),
              "the figure given is saved in the file named", w, show(c))
        scale = got.get("scale")
        ck.ob("saved:scale" + (":default" if wide == K(700) else ""), scale is not None and same(scale, want),
              "a saved figure is as wide as the text, at the resolution asked for", w, lambda: show(scale))

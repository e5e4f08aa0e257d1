"""Fields deposited sample by sample: which samples, what, and into which grid."""

import terms
from core import B, Abort, differ, implies, mk, num, show, clip, gshow, name_of
from roles import role
from spec import *
from terms import cmp, eq, fld, idx, subterms

DEPOSITS = ("add_value", "add_to_cell", "add_trajectory_value", "insert")
NORMAL = ("divide_by_weight", "divide_by_array", "divide_by_scalar", "set_data", "set_weights",
          "outlier_removal")
ZERO = mk("call", "new_zeros", GRID)


def closest(ck):
    """timestep_at_seconds_closest stays a call: it has a property of its own."""
    return (ck.method("GlobalStats", "timestep_at_seconds_closest")["id"],)


def lookahead(ts, dt):
    """The timestep `dt` after ts, and the guard that there is one."""
    c = mk("call", "timestep_at_seconds_closest", GS, terms.add(time(ts), dt))
    return fld(c, "Ok", "0"), terms.is_variant(c, "Ok")


class Deposit:
    """A required effect: `name`(args) on the output grid, once for every (T, P) with cond.
    out names the output grid, part its component."""

    def __init__(self, name, args, cond, out="out", part=None):
        self.name, self.args, self.cond, self.out, self.part = name, args, cond, out, part


def base(t=T, p=P, hi=None, grid=GRID, sel=SEL):
    ts = step(t)
    return B.AND(in_steps(t, None, hi), selected_time(t, sel), in_range(ts, p),
                 selected(ts, p, sel), inside(grid, pos(ts, p)))


MODES = {
    "absolute": (0, 1, 2), "x": 0, "r": 0, "y": 1, "theta": 1, "z": 2,
    "xy": (0, 1), "xz": (0, 2), "yz": (1, 2),
}


def mode_value(mode, ts, p):
    """The quantity each velocity mode stands for, and the guard that the mode is known."""
    pairs, known = [], 0
    for m, c in MODES.items():
        g = eq(mode, mk("str", m))
        v = speed([vel(ts, p, k) for k in c]) if isinstance(c, tuple) else vel(ts, p, c)
        pairs.append((v, B.AND(g, B.NOT(known))))
        known = B.OR(known, g)
    return terms.mk_case(pairs), known


def numberfield(ck):
    return [Deposit("add_value", [pos(step(T), P), num(1)], base())]


def velocityfield(ck):
    ts = step(T)
    v, known = mode_value(arg(3), ts, P)
    c = B.AND(base(), known, position_known(ts, P), B.NOT(terms.is_nan(v)),
              B.NOT(cmp("Lt", v, arg(4), False)), B.NOT(cmp("Gt", v, arg(5), False)))
    return [Deposit("add_value", [pos(ts, P), v], c)]


def vectorfield(ck):
    ts = step(T)
    c = B.AND(base(), position_known(ts, P))
    # what the components are is the vector grid's velocity calculation (a rule of its own)
    return [Deposit("add_value", [pos(ts, P), None], c, part=k) for k in range(3)]


def occupancyfield(ck):
    ts, nx = step(T), buf(terms.add(T, num(1)))
    dt = terms.sub(time(nx), time(ts))
    sp = speed([vel(ts, P, k) for k in range(3)])
    c = B.AND(base(hi=terms.sub(NT, num(1))), stays(ts, nx, P),
              B.NOT(cmp("Lt", dt, num(0), False)), B.NOT(cmp("Lt", sp, arg(3), False)))
    return [Deposit("add_trajectory_value", [pos(ts, P), pos(nx, P), dt], c)]


def by_type(ck):
    ts = step(T)
    c = B.AND(base(), position_known(ts, P))
    ty = terms.trunc(attr(ts, "ptype", P))
    a, b = cmp("Eq", ty, arg(3), True), cmp("Eq", ty, arg(4), True)
    return [Deposit("add_value", [pos(ts, P), num(1)], B.AND(c, a), out="a"),
            Deposit("add_value", [pos(ts, P), num(1)], B.AND(c, B.NOT(a), b), out="b")]


def msd_field(ck):
    ts = step(T)
    t2, ok = lookahead(ts, arg(3))
    nx = buf(t2)
    return [Deposit("add_value", [pos(ts, P), None], B.AND(base(), ok, stays(ts, nx, P)))]


FIELDS = {
    ("Granular", "vectorfield"): vectorfield,
    ("Granular", "velocityfield"): velocityfield,
    ("Granular", "numberfield"): numberfield,
    ("Granular", "occupancyfield"): occupancyfield,
    ("Mixing", "lacey_mixing"): by_type,
    ("Mixing", "concentration_field"): by_type,
    ("Mixing", "msd_field"): msd_field,
}


class Field:
    """The deposits of one field function, grouped by output grid and component."""

    def __init__(self, ck, trait, name):
        self.ck, self.name = ck, name
        self.fn = ck.default(trait, name)
        self.a = ck.run(self.fn, opaque=closest(ck))
        self.where = self.fn["span"]
        self.effs = [e for e in ck.effs(self.a) if e.kind == "call" and e.name in DEPOSITS]
        ck.count("deposit sites", len(self.effs))
        self.groups = {}
        for e in self.effs:
            self.groups.setdefault(self.target(e), []).append(e)

    def target(self, e):
        """The grid object an effect changes."""
        return e.obj


def is_zeroed(obj):
    """obj is a grid created empty from the caller's grid (a copy of such a grid included)."""
    while obj.k == "fresh" and obj.a[0].k == "clone":
        obj = obj.a[0].a[0]
    return obj.k == "fresh" and obj.a[0] is ZERO


def each(ck):
    for (trait, name), spec in FIELDS.items():
        try:
            f = Field(ck, trait, name)
        except Abort:
            continue
        ck.count("fields")
        yield f, spec(ck)
    ck.floor("fields", len(FIELDS), "field functions")
    ck.floor("deposit sites", 7, "deposit sites")


# ---------------------------------------------------------------- C01
def gating(ck):
    """Nothing unselected, outside the grid or without a position is deposited."""
    ts = step(T)
    for f, specs in each(ck):
        for i, e in enumerate(f.effs):
            k = f"{f.name}:{e.name}"
            w = f"{e.sp or f.where} (in {f.name})"
            ck.ob(f"{k}:sample", set(("T", "P")) <= set(map(str, e.loops)),
                  "every deposit belongs to one particle at one timestep", w,
                  lambda: f"loops {e.loops}")
            for nm, g in (("window", selected_time(T)), ("selector", selected(ts, P)),
                          ("inside", inside(GRID, pos(ts, P))),
                          ("particles", in_range(ts, P)), ("steps", in_steps(T))):
                ck.implied(f"{k}:{nm}", e.cond, g,
                           {"window": "only samples of timesteps in the selected window count",
                            "selector": "only particles the selector accepts count, judged by "
                                        "their own attributes at that timestep",
                            "inside": "only samples inside the grid count",
                            "particles": "only particles of that timestep count",
                            "steps": "only recorded timesteps are read"}[nm], w)
            if f.name in ("vectorfield", "velocityfield", "lacey_mixing", "concentration_field"):
                ck.implied(f"{k}:position", e.cond, position_known(ts, P),
                           "samples without a position do not count", w)
            same_pos = e.args and differ(e.args[0], pos(ts, P), e.cond) is None
            ck.ob(f"{k}:where", same_pos, "a sample is deposited at its own position", w,
                  lambda: f"deposited at {clip(show(e.args[0]))}")


# ---------------------------------------------------------------- C02
def complete(ck):
    """Every qualifying sample is deposited, exactly once."""
    for f, specs in each(ck):
        used = set()
        for sp in specs:
            k = f"{f.name}:{sp.out}" + ("" if sp.part is None else f".{sp.part}")
            grp = match(f, sp)
            for e in grp:
                used.add(id(e))
            loops_ok = all(sorted(map(str, e.loops)) == ["P", "T"] for e in grp)
            ck.ob(f"{k}:once_loops", grp and loops_ok,
                  "deposits run over timesteps and particles, each visited once", f.where,
                  lambda: f"{len(grp)} deposits, loops {[e.loops for e in grp]}")
            tot = B.OR(*[e.cond for e in grp]) if grp else 0
            care = f.a.ok
            ck.same_guard(f"{k}:all", tot, sp.cond, care,
                          "exactly the qualifying samples are deposited", f.where)
            for i, x in enumerate(grp):
                for y in grp[i + 1:]:
                    ck.ob(f"{k}:twice", not terms.sat(B.AND(x.cond, y.cond)),
                          "no sample is deposited twice", f"{x.sp} and {y.sp}",
                          lambda: gshow(B.AND(x.cond, y.cond)))
        extra = [e for e in f.effs if id(e) not in used]
        ck.ob(f"{f.name}:extra", not extra, "nothing else is deposited", f.where,
              lambda: "; ".join(f"{e.name} at {e.sp}" for e in extra))


def match(f, sp):
    """The deposits that go to the output (and component) of sp."""
    outs = outputs(f)
    tgt = outs.get((sp.out, sp.part))
    if tgt is None:
        return []
    return [e for e in f.effs if f.target(e) == tgt and e.name == sp.name]


def outputs(f):
    """{(output, component): grid object}, by what each object is used for."""
    r = f.a.ret
    if f.name == "vectorfield":
        d = fld(r, "", "data")
        return {("out", k): idx(d, (num(k),)) for k in range(3)}
    if f.name in ("lacey_mixing", "concentration_field"):
        out = {}
        ty = terms.trunc(attr(step(T), "ptype", P))
        for t, es in f.groups.items():
            c = B.OR(*[e.cond for e in es])
            a = implies(c, cmp("Eq", ty, arg(3), True))
            b = implies(c, cmp("Eq", ty, arg(4), True))
            if a:
                out[("a", None)] = t
            elif b:
                out[("b", None)] = t
        return out
    if f.name == "msd_field":
        # the grid whose statistics the result is made of
        return {("out", None): t for t in f.groups}
    return {("out", None): r}


# ---------------------------------------------------------------- C09
def zeroed(ck):
    """Deposits go into grids created empty in this call."""
    for f, specs in each(ck):
        for obj, es in f.groups.items():
            ck.ob(f"{f.name}:zeroed", is_zeroed(obj),
                  "samples accumulate in a grid that starts empty", f"{es[0].sp} (in {f.name})",
                  lambda: f"deposited into {clip(show(obj))}")

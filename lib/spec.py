"""The vocabulary of the specifications: timesteps, particles, selection, grids."""

import terms
from roles import role
from terms import B, add, cmp, fld, idx, mk, mk_bool, num, summation

T, P = role("T"), role("P")
SELF, GRID, SEL = mk("arg", 0), mk("arg", 1), mk("arg", 2)
GS = mk("call", "global_stats", SELF)
NT = fld(GS, "", "ntimesteps")


def arg(k):
    return mk("arg", k)


def step(t):
    return mk("call", "get_timestep", SELF, t)


def buf(t, b=0):
    return mk("call", "get_timestep_buffer", SELF, t, num(b))


def time(ts):
    return fld(ts, "", "time")


def count(ts):
    return terms.dim_of(fld(ts, "", "position"), 0)


def attr(ts, name, p, *k):
    return idx(fld(ts, "", name), (p,) + tuple(num(x) if isinstance(x, int) else x for x in k))


def pos(ts, p, *k):
    return attr(ts, "position", p, *k)


def vel(ts, p, k):
    return attr(ts, "velocity", p, k)


def in_steps(t, lo=None, hi=None):
    """lo <= t < hi, by default every recorded timestep."""
    g = cmp("Lt", t, NT if hi is None else hi, True)
    if lo is not None:
        g = B.AND(g, cmp("Ge", t, num(lo), True))
    return g


def selected_time(t, sel=SEL):
    return B.var("P", mk("call", "timestep_valid", sel, time(step(t))))


def selected(ts, p, sel=SEL):
    return B.var("P", mk("call", "is_valid", sel, attr(ts, "radius", p), attr(ts, "clouds", p),
                         attr(ts, "density", p), terms.trunc(attr(ts, "particleid", p))))


def in_range(ts, p):
    return cmp("Lt", p, count(ts), True)


def stays(ts, later, p):
    """Particle p of ts is recorded at the same place of the later timestep."""
    return B.AND(in_range(later, p), cmp("Eq", attr(ts, "particleid", p),
                                         attr(later, "particleid", p), False))


def inside(grid, x):
    return B.var("P", mk("call", "is_inside", grid, x))


def numbers(*xs):
    """None of xs is NaN."""
    return B.AND(*[B.NOT(terms.is_nan(x)) for x in xs])


def position_known(ts, p):
    return numbers(*[pos(ts, p, k) for k in range(3)])


def cell(grid, x):
    """(cell index of x, guard under which there is one)."""
    c = mk("call", "cell_id", grid, x)
    return fld(c, "Ok", "0"), terms.is_variant(c, "Ok")


def speed(vs):
    s = num(0)
    for v in vs:
        s = add(s, terms.mul(v, v))
    return terms.f_sqrt(s)


def over(body, loops):
    """Sum of body over loops [(variable, guard)], innermost last."""
    for v, g in reversed(loops):
        body = summation(body, g, v)
    return body


def var(n):
    return mk("gv", ("spec", n))


def dispatch(g):
    """get_... of the grid layout."""
    return mk("call", "get_cells", g)

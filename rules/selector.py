"""Particle selector: which criteria accept which values."""

from core import B, Abort, mk, num, terms
from terms import add, as_bool, cmp, fld, idx, mk_bool

TY = "ParticleSelector"


def sym(n):
    return mk("in", n)


def built(ck):
    """The selector `new` builds from five inputs, as a value."""
    ins = [sym(n) for n in ("time", "radius", "clouds", "density", "particleid")]
    f = ck.method(TY, "new")
    a = ck.run(f, ins)
    return a.ret, ins, f


def length(ck, x):
    return terms.dim_of(x, 0)


def criterion(ck, xs, v, off, isint):
    """The documented meaning of one criterion list."""
    n = length(ck, xs)
    at = lambda i: idx(xs, (num(i) if isinstance(i, int) else i,))
    none = cmp("Eq", at(0), num(off), isint)
    one = cmp("Eq", n, num(1), True)
    two = cmp("Eq", n, num(2), True)
    eq = cmp("Eq", v, at(0), isint)
    rng = B.AND(cmp("Ge", v, at(0), isint), cmp("Le", v, at(1), isint))
    i = mk("gv", ("listed",))
    listed = terms.some_position(B.AND(cmp("Lt", i, n, True), cmp("Eq", v, at(i), isint)), i)[0]
    return B.OR(none, B.AND(B.NOT(none), B.OR(
        B.AND(one, eq), B.AND(two, rng), B.AND(B.NOT(one), B.NOT(two), listed))))


def nonempty(ck, xs):
    return cmp("Ge", length(ck, xs), num(1), True)


def criteria(ck):
    sel, ins, _ = built(ck)
    f = ck.method(TY, "is_valid")
    vals = [sym(n) for n in ("r", "c", "d", "id")]
    a = ck.run(f, [sel] + vals)
    care = B.AND(*[nonempty(ck, x) for x in ins[1:]],
                 *[B.NOT(terms.is_nan(idx(x, (num(i),)))) for x in ins[1:4] for i in (0, 1)])
    specs = [criterion(ck, ins[1], vals[0], -1, False), criterion(ck, ins[2], vals[1], -1, False),
             criterion(ck, ins[3], vals[2], -1, False), criterion(ck, ins[4], vals[3], 0, True)]
    got = as_bool(a.ret)
    names = ("radius", "cloud", "density", "particle id")
    # one criterion at a time: the others switched off
    for i, nm in enumerate(names):
        off = 1
        for j, x in enumerate(ins[1:]):
            if j != i:
                off = B.AND(off, cmp("Eq", idx(x, (num(0),)), num(0 if j == 3 else -1), j == 3))
        ck.same_guard(f"criterion:{nm.replace(' ', '_')}", got, specs[i], B.AND(care, off),
                      f"the {nm} criterion accepts exactly: switched off, the one value, the "
                      "inclusive range, or the listed values", f["span"])
        ck.count("criteria")
    ck.same_guard("conjunction", got, B.AND(*specs), care,
                  "a particle is selected exactly when all four criteria accept it", f["span"])
    panics(ck, a, care, f)
    ck.floor("criteria", 4, "criteria")


def panics(ck, a, care, f):
    for e in a.log:
        if e.kind == "panic":
            ck.ob("selector:panic", not terms.sat(B.AND(care, e.cond)),
                  "selecting never panics for non-empty criteria", f["span"], "panic reachable")


def window(ck):
    sel, ins, _ = built(ck)
    f = ck.method(TY, "timestep_valid")
    t = sym("t")
    a = ck.run(f, [sel, t])
    lo, hi = fld(ins[0], "", "0"), fld(ins[0], "", "1")
    want = B.AND(cmp("Ge", t, lo, False), cmp("Le", t, hi, False))
    known = lambda *xs: B.AND(*[B.NOT(terms.is_nan(x)) for x in xs])
    ck.same_guard("window", as_bool(a.ret), want, known(lo, hi),
                  "a timestep is selected exactly when its time lies in the closed window",
                  f["span"])
    g = ck.method(TY, "set_time")
    b = ck.run(g, [sel, sym("lo"), sym("hi")])
    c = ck.run(f, [b.final[0], t])
    want = B.AND(cmp("Ge", t, sym("lo"), False), cmp("Le", t, sym("hi"), False))
    ck.same_guard("set_time", as_bool(c.ret), want, known(sym("lo"), sym("hi")),
                  "after setting a window, that window decides", g["span"])
    # the criteria are untouched by set_time
    v = ck.method(TY, "is_valid")
    vals = [sym(n) for n in ("r", "c", "d", "id")]
    x = ck.run(v, [sel] + vals)
    y = ck.run(v, [b.final[0]] + vals)
    ck.same("set_time:criteria", y.ret, x.ret, 1,
            "setting the window leaves the other criteria as they were", g["span"])


def default(ck):
    f = ck.method(TY, "default")
    a = ck.run(f)
    v = ck.method(TY, "is_valid")
    vals = [sym(n) for n in ("r", "c", "d", "id")]
    x = ck.run(v, [a.ret] + vals)
    ck.same_guard("default:all", as_bool(x.ret), 1, 1,
                  "the default selector selects every particle", f["span"])
    t = ck.method(TY, "timestep_valid")
    y = ck.run(t, [a.ret, sym("t")])
    g = as_bool(y.ret)
    fin = B.AND(B.NOT(B.var("NAN", sym("t"))), B.NOT(B.var("INF", sym("t"))))
    lo, hi = fld(a.ret, "", "time").a[0] if fld(a.ret, "", "time").k == "tuple" else (None, None)
    ck.ob("default:window", lo is not None and is_extreme(lo, -1) and is_extreme(hi, 1)
          , "the default window spans every finite time", f["span"],
          lambda: f"window is {core_show(lo)} .. {core_show(hi)}")


def is_extreme(t, s):
    import sys
    if t is None:
        return False
    if terms.is_num(t):
        return float(terms.num_val(t)) == s * sys.float_info.max
    return t.k == "const" and t.a[0] in (("-inf",) if s < 0 else ("inf",))


def core_show(t):
    return terms.show(t) if t is not None else "?"

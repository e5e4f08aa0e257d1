"""Circulation times: the clocks an analysis keeps per particle, followed as a small machine.

The loop bodies give, for one particle at one timestep, the next state of its clocks and what is
reported, as functions of the state before and the two positions. All states reachable from the
first are followed together with the specified machine; positions matter only by which side of each
boundary they are on (checked), so a few of them stand for all."""

import terms
import core
from core import B, clip, gshow, mk, num, show
from spec import *
from terms import add, as_bool, cmp, fld, idx, poly, sub, subst, subst_guard, subterms

SEL1, AXIS, BOUND = arg(1), arg(2), arg(3)
START = mk("in", "start of the clock")
NAN = mk("const", "nan")
D, E = mk("in", "from boundary now"), mk("in", "from boundary before")


def circulation(ck):
    machine(ck, "circulation_time", [BOUND], single,
            [add(BOUND, num(x)) for x in (-1, 0, 1)], {})
    lo, hi = fld(BOUND, "", "0"), fld(BOUND, "", "1")
    half = terms.div(num(1), num(2))
    machine(ck, "circulation_time_two_boundary", [lo, hi], double,
            [add(lo, x) for x in (num(-1), num(0), half, num(1), num(2))], {hi: add(lo, num(1))})
    ck.floor("machines", 2, "circulation analyses")
    ck.floor("steps", 60, "steps of the clocks")


# ---------------------------------------------------------------- the specified machines
def single(state, old, new, ends):
    """(next state, whether the clock starts now, whether a time is reported): a circulation
    lasts from the first crossing to the third."""
    if old is None or new is None or old * new >= 0:
        return state, False, False
    return (state + 1) % 3, state == 0, state == 2


def double(state, old, new, ends):
    """A circulation lasts from one leaving of the first region to the next, if the other region
    was entered in between."""
    home, been = state
    starts = reported = False
    if old is None or new is None:
        return state, False, False
    lo, hi = ends
    left = "upper" if old > hi > new else "lower" if old < lo < new else None
    entered = "upper" if old < hi < new else "lower" if old > lo > new else None
    if left and home in (None, left):
        starts, reported = True, been
        home, been = left, False
    if entered and home not in (None, entered):
        been = True
    return (home, been), starts, reported


# ---------------------------------------------------------------- the analysed machine
def machine(ck, name, bounds, spec, sides, unit):
    f = ck.default("Conditional", name)
    a = ck.run(f)
    w = f["span"]
    refusal(ck, name, a, f, bounds)
    pushes = [e for e in a.log if e.kind == "push"]
    nests = {tuple(e.loops) for e in pushes}
    if len(nests) != 1 or len(next(iter(nests))) != 2:
        ck.fail(f"{name}:loops", "times are reported from a loop over particles in one over "
                "timesteps", w, str(nests))
    lo, li = next(iter(nests))
    outer, inner = a.loops[lo]["cur"], a.loops[li]["cur"]
    io, ii = mk("iv", lo), mk("iv", li)
    t = add(io, num(1))
    now, before = step(t), step(io)
    # what is remembered of one timestep is the previous one at the next
    past = {}
    for q, bi in outer.items():
        if bi and subst(bi[0], {io: sub(io, num(1))}) is not bi[0]:
            c = subst(bi[0], {io: sub(io, num(1))})
            if subst(c, {io: num(0)}) is bi[1] and not any(x.k == "phi" for x in subterms(c)):
                past[q] = c
    p0, p1 = pos(before, ii, AXIS), pos(now, ii, AXIS)
    el = {}                                                   # state before, by inner variable
    body = {}
    res = None
    for p, bi in inner.items():
        if bi is None or not terms_mention(bi[0], p) or bi[0] is p:
            continue
        b = subst(bi[0], past)
        if any(x.k == "pushed" for x in subterms(b)):
            if res is not None:
                ck.fail(f"{name}:result", "times are reported in one list", w)
            res = p
        elif b is add(p, num(1)):
            continue                                          # the loop's own counter
        body[p] = b
    if res is None:
        ck.fail(f"{name}:result", "times are reported in one list", w)
    used = set().union(*[set(subterms(b)) for b in body.values()])
    for p in list(body):
        if p is res:
            continue
        e = idx(p, (ii,))
        if e in used:
            el[p] = e
        elif p in used and not only_base(p, body):
            ck.fail(f"{name}:own:{p.a[1]}", "a particle's clocks depend on that particle alone", w,
                    clip(show(body[p])))
        else:
            body.pop(p)                                       # never looked at
    ck.ob(f"{name}:result:start", outer.get(inner[res][1], (0, None))[1] is not None
          and empty(outer[inner[res][1]][1]), "the list of times starts empty", w,
          lambda: clip(show(inner[res][1])))
    other = mk("gv", ("other", 0))
    for p, e in el.items():
        q = inner[p][1]
        if q not in outer:
            ck.fail(f"{name}:kept:{p.a[1]}", "clocks are kept from one timestep to the next", w,
                    clip(show(q)))
        ck.same(f"{name}:others:{role_of(p, el)}", idx(body[p], (other,)), idx(p, (other,)),
                B.NOT(cmp("Eq", other, ii, True)), "a particle's step leaves the clocks of others", w)
    tv = selected_time(t, SEL1)
    for p in [res, *el]:
        q = inner[p][1]
        b = outer[q][0]
        parts = b.a[0] if b.k == "case" else ((b, 1),)
        ok = all(x is q or not terms.sat(B.AND(c, B.NOT(tv))) for x, c in parts) and \
            all(x is not q and goes_on(a, li, p, inner, q, x) or not terms.sat(B.AND(c, tv))
                for x, c in parts)
        ck.ob(f"{name}:kept:{'result' if p is res else role_of(p, el)}", ok,
              "clocks and list change at selected timesteps, by the steps of the particles alone",
              w, lambda: clip(show(b)))
    ck.ob(f"{name}:returned", a.ret.k == "fin" and empty(a.ret.a[2][0])
          and any(x.k == "pushed" for x in subterms(a.ret)), "the list is returned as it is", w,
          lambda: clip(show(a.ret)))
    # every particle of every selected timestep takes its step
    parts = body[res].a[0] if body[res].k == "case" else ((body[res], 1),)
    pushed = B.OR(*[c for x, c in parts if x.k == "pushed"])
    ran = B.AND(in_steps(t), tv, in_range(now, ii))
    got = subst_guard(B.OR(*[e.cond for e in pushes]), past)
    ck.same_guard(f"{name}:all", got, B.AND(ran, pushed), inside_system(bounds),
                  "every particle of every selected timestep is followed", w)
    own = B.AND(selected(now, ii, SEL1),
                cmp("Eq", attr(now, "particleid", ii), attr(before, "particleid", ii), False))
    care = B.AND(ran, inside_system(bounds))
    guards = [c for b in body.values() for x in subterms(b) if x.k == "case"
              for _, c in x.a[0]]
    check_sides(ck, name, guards, bounds, p0, p1, w)
    state = {e: subst(idx(outer[inner[p][1]][1], (ii,)), {}) for p, e in el.items()}
    first = 0 if spec is single else (None, False)
    seen, queue = set(), [(tuple(state.items()), first, None)]
    where = {e: p for p, e in el.items()}
    for _ in range(200):
        if not queue:
            break
        st, phase, clock = queue.pop()
        key = (tuple(v for _, v in st), phase)
        if key in seen:
            continue
        seen.add(key)
        # a particle that is not followed
        ctx = dict(st)
        for p, e in el.items():
            v = value(idx(body[p], (ii,)), ctx, B.AND(care, B.NOT(own)))
            ck.ob(f"{name}:{phase}:idle:{role_of(p, el)}", v is not None and v is ctx[e],
                  "a particle that is not selected or not the same keeps its clocks", w,
                  lambda: clip(show(v)) if v is not None else "several values")
        ck.ob(f"{name}:{phase}:idle:silent", not terms.sat(B.AND(
            subst_guard(pushed, ctx), care, B.NOT(own))), "and reports nothing", w)
        for old in (None, *sides):
            for new in (None, *sides):
                ends = [number(b, bounds[0], unit) for b in bounds]
                ph, starts, reports = spec(phase, side(old, bounds, unit, spec),
                                           side(new, bounds, unit, spec), ends)
                m = {p0: NAN if old is None else old, p1: NAN if new is None else new}
                tag = f"{name}:{phase}:{side(old, bounds, unit, spec)}>{side(new, bounds, unit, spec)}"
                take = lambda v: value(v, ctx, B.AND(care, own), m, unit)
                nxt, bad = {}, False
                for p, e in el.items():
                    v = take(idx(body[p], (ii,)))
                    if v is None:
                        bad = True
                        ck.ob(f"{tag}:{role_of(p, el)}", False, "a step has one outcome", w,
                              lambda: clip(show(idx(body[p], (ii,)))))
                    nxt[e] = v
                if bad:
                    continue
                g = fold(subst_guard(subst_guard(pushed, {**ctx, **m}), unit))
                say = terms.implies(B.AND(care, own), g), not terms.sat(B.AND(care, own, g))
                ck.ob(f"{tag}:report", say[0] if reports else say[1],
                      "a time is reported exactly when a circulation is complete" if not reports
                      else "a complete circulation is reported", w, lambda: gshow(g))
                if reports and say[0]:
                    vals = [(x.a[1], c) for x, c in parts if x.k == "pushed"]
                    got = take(terms.mk_case(vals)) if len(vals) > 1 else take(vals[0][0])
                    want = sub(time(now), clock) if spec is single else \
                        mk("tuple", (clock, time(now)))
                    ck.ob(f"{tag}:time", got is not None and terms_same(got, want),
                          "the time reported is that since the circulation began", w,
                          lambda: clip(show(got)) if got is not None else "several values")
                clk = START if starts else clock
                stale = {}
                if starts:
                    stale = {START: mk("in", "an earlier start")}
                out = []
                for e, v in nxt.items():
                    v = subst(v, stale)
                    v = subst(v, {time(now): START if starts else mk("in", "another time")})
                    out.append((e, v))
                ck.count("steps")
                queue.append((tuple(out), ph, clk))
    else:
        ck.fail(f"{name}:states", "the clocks have finitely many states", w, f"{len(seen)} states")
    ck.count("states", len(seen))
    ck.count("machines")


def terms_mention(t, p):
    return p in subterms(t)


def only_base(p, body):
    """p is looked at nowhere but in its own update."""
    return not any(p in subterms(b) for q, b in body.items() if q is not p)


def role_of(p, el):
    return sorted(el, key=lambda x: str(x.a[1])).index(p)


def empty(t):
    return t is not None and t.k == "vec" and t.a[0].k == "array" and not t.a[0].a[0]


def terms_same(x, y):
    if x.k in ("tuple", "array") and y.k == x.k and len(x.a[0]) == len(y.a[0]):
        return all(terms_same(p, q) for p, q in zip(x.a[0], y.a[0]))
    return x is y or terms.is_num(sub(x, y)) and terms.num_val(sub(x, y)) == 0


def goes_on(a, li, p, inner, q, x):
    """x is what p is when the inner loop, started with q, ends."""
    if inner[p][1] is not q:
        return False
    if x.k == "fin":
        n, bodies, inits, gt = x.a
        y = a.fin(li, p, q, inner[p][0], as_bool(subst(gt, {mk("bv", n): mk("iv", li)})))
        return y.a[1:3] == x.a[1:3]
    v = mk("gv", ("any", 0))
    ran = [e for e in a.log if e.kind == "push" and e.loops and e.loops[-1] == li]
    want = subst(idx(inner[p][0], (mk("iv", li),)), {mk("iv", li): v})
    want = subst(want, {r: inner[r][1] for r in inner if inner[r]})
    got = idx(x, (v,))
    m = past_of(a, li)
    n = cmp("Lt", v, count(step(add(m, num(1)))), True)
    return core.differ(got, want, n) is None and \
        core.differ(got, idx(q, (v,)), B.AND(B.NOT(n), cmp("Ge", v, num(0), True))) is None


def past_of(a, li):
    return mk("iv", a.loops[li]["parent"])


def inside_system(bounds):
    dim = fld(GS, "", "dimensions")
    g = 1
    for b in bounds:
        lo, hi = idx(dim, (num(0), AXIS)), idx(dim, (num(1), AXIS))
        g = B.AND(g, cmp("Le", b, hi, False), cmp("Ge", b, lo, False))
    return g


def refusal(ck, name, a, f, bounds):
    dim = fld(GS, "", "dimensions")
    care = numbers(*bounds, *[idx(dim, (num(k), AXIS)) for k in (0, 1)])
    sane = B.AND(*[B.OR(*terms.rel(sub(b, idx(dim, (num(k), AXIS))), False))
                   for b in bounds for k in (0, 1)])
    got = B.OR(*[e.cond for e in a.log if e.kind == "panic" and not e.loops])
    ck.same_guard(f"{name}:refused", got, B.NOT(inside_system(bounds)), B.AND(care, sane),
                  "exactly boundaries outside the system are refused", f["span"])


def number(b, origin, unit):
    return terms.num_val(sub(subst(b, unit), origin))


def side(x, bounds, unit, spec):
    return None if x is None else terms.num_val(sub(x, bounds[0]))


def fold(g):
    """Comparisons with what is not a number do not hold."""
    for at in list(B.atoms(g)):
        if at[0] in "LEG" and len(at) == 3 and NAN in subterms(at[1]):
            g = drop(g, at, False)
        elif at[0] == "NAN" and NAN in subterms(at[1]):
            g = drop(g, at, True)
    return g


def drop(g, at, val):
    v = B.var(*at)
    return B.restrict(g, v if val else B.NOT(v))


def value(t, ctx, care, m=None, unit=None):
    """The one value t has under care, or None."""
    t = subst(t, {**ctx, **(m or {})})
    if unit:
        t = subst(t, unit)
    out = set()
    for x, c in (t.a[0] if t.k == "case" else ((t, 1),)):
        if terms.sat(B.AND(fold(c), care)):
            out.add(x)
    return out.pop() if len(out) == 1 else None


def check_sides(ck, name, guards, bounds, p0, p1, w):
    """Positions are only compared with the boundaries, alone or multiplied."""
    n = 0
    for g in guards:
        for at in B.atoms(g):
            ts = [y for y in at if isinstance(y, terms.T)]
            if not any(p in subterms(*ts) for p in (p0, p1)):
                continue
            n += 1
            ok = at[0] == "NAN" and at[1] in (p0, p1)
            if at[0] in "LEG" and not at[2]:
                for b in bounds:
                    q = poly(subst(at[1], {p1: add(b, D), p0: add(b, E)}))
                    ok |= len(q) == 1 and all(x in (D, E) for m in q for x, _ in m)
            ck.ob(f"{name}:sides", ok, "a position matters only by its side of the boundaries", w,
                  lambda: gshow(B.var(*at)))
    ck.ob(f"{name}:sided", n > 0, "positions are compared with the boundaries", w)

"""Names the loops of an effect by what they range over: the timestep they read and the
particle they look at.  Counters, offsets and directions disappear, so the effects of
differently written loops are the same terms."""

import terms
from terms import (ANY, B, T, add, cmp, loopy, mk, mk_bool, num, poly, scale, sub, subst,
                   subst_guard, subterms, from_poly)

STEP = ("get_timestep", "get_timestep_unbuffered", "get_timestep_buffer")
ARR = ("position", "velocity", "radius", "particleid", "clouds", "density", "ptype")


def role(n):
    return mk("role", n)


def linear(x, v):
    """(c, r) with x == c*v + r, c in {1,-1}, else None."""
    p = poly(x)
    c = p.get(((v, 1),))
    if c not in (1, -1):
        return None
    r = sub(x, scale(v, c))
    if v in loopy(r):
        return None
    return c, r


def invert(x, v, r):
    """(value of v, guard) for which x == r."""
    c, k = linear(x, v)
    val = scale(sub(r, k), c)
    return val, cmp("Ge", val, num(0), True)


def step_sites(ts):
    """(rank, position term) of timestep reads in ts."""
    out = []
    for x in subterms(*ts):
        if x.k == "call" and x.a[0] in STEP and len(x.a) > 2:
            out.append((STEP.index(x.a[0]), x.a[2]))
    return out


def part_sites(ts):
    out = []
    for x in subterms(*ts):
        if x.k == "idx" and x.a[0].k == "fld" and x.a[0].a[2] in ARR and x.a[0].a[0].k == "call" \
                and x.a[0].a[0].a[0] in STEP:
            out.append((0, x.a[1][0]))
    return out


def const_of(x):
    return poly(x).get((), 0)


def assign(lids, ts, guard):
    """Role substitution for the loops lids of an effect with value terms ts under guard.
    Returns (substitution, extra guard, {lid: role name})."""
    m, extra, names = {}, 1, {}
    cur = list(ts) + [mk_bool(guard)]
    for name, sites in (("T", step_sites), ("P", part_sites)):
        n = 0
        for lid in lids:
            if lid in names:
                continue
            cand = []
            for v in [mk("iv", lid)] + [x for t in cur for x in loopy(t)
                                        if x.k == "gv" and x.a[0] == lid]:
                for rank, x in sites(cur):
                    if v in loopy(x) and linear(x, v):
                        cand.append((rank, const_of(x), x.id, x, v))
            if not cand:
                continue
            _, _, _, x, v = min(cand, key=lambda c: c[:3])
            rn = name + ("" if n == 0 else str(n + 1))
            val, g = invert(x, v, role(rn))
            n += 1
            names[lid] = rn
            s = {v: val}
            m = {k: subst(t, s) for k, t in m.items()}
            m[v] = val
            extra = B.AND(subst_guard(extra, s), g)
            cur = [subst(t, s) for t in cur]
    return m, extra, names


class Eff:
    """An effect with its loops named by role."""

    def __init__(self, ev):
        self.ev = ev
        ts = [x for x in (ev.args or ())] + [x for x in (ev.obj, ev.val, ev.old) if x is not None]
        m, extra, self.names = assign(ev.loops or (), ts, ev.cond)
        self.kind, self.name = ev.kind, ev.name
        self.obj = subst(ev.obj, m) if ev.obj is not None else None
        self.args = tuple(subst(x, m) for x in ev.args or ())
        self.val = subst(ev.val, m) if ev.val is not None else None
        self.old = subst(ev.old, m) if ev.old is not None else None
        self.cond = B.AND(subst_guard(ev.cond, m), extra)
        self.loops = tuple(self.names.get(l, l) for l in ev.loops or ())
        self.sp = ev.sp
        self.fn = ev.fn
        self.m = m


def reindex(delta, g, var):
    """A sum over positions whose lookups are shifted, renamed to the lookup itself."""
    gt = mk_bool(g)
    for sites in (step_sites, part_sites):
        cand = []
        for rank, x in sites([delta, gt]):
            if var in loopy(x):
                if x is var:
                    cand.append((rank, 0, 0, x))
                elif linear(x, var):
                    cand.append((rank, const_of(x), x.id, x))
        if cand:
            x = min(cand, key=lambda c: c[:3])[3]
            if x is var:
                return None
            val, h = invert(x, var, var)
            s = {var: val}
            return subst(delta, s), B.AND(subst_guard(g, s), h)
    return None


terms.reindex = reindex

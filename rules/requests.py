"""What an analysis asks its recording for: timesteps it has, buffers that were set up, and the later
position of the same particle."""

import terms
from closed import guard_table
from core import B, clip, gshow, impossible, mk, num, show
from fields import closest, each, lookahead
from spec import *
from terms import add, cmp, fld, idx, subterms

ASKS = ("get_timestep", "get_timestep_buffer", "get_timestep_unbuffered")
TRAITS = ("Granular", "Mixing", "Conditional", "Extraction")


def analyses(ck):
    for f in ck.js["fns"]:
        p = f["id"].split("::")
        if f["kind"] == "fn" and len(p) > 2 and p[-2] in TRAITS and "functions" in p \
                and not f.get("impl_self"):
            yield f


# ---------------------------------------------------------------- C31
def requests(ck):
    for f in analyses(ck):
        a = ck.run(f, may_die=True, opaque=closest(ck))
        if a is None:
            continue                                          # does nothing but refuse
        name = f["name"]
        for n, e in enumerate(a.log):
            if e.kind != "call" or e.name not in ASKS:
                continue
            t = e.args[0]
            ck.count("requests")
            have = B.AND(e.cond, cmp("Ge", NT, num(1), True))
            ok = within(t, have) or all(within(v, B.AND(have, c)) for v, c in
                                        (t.a[0] if t.k == "case" else ()))
            ck.ob(f"{name}:{e.name}:range", ok, "an analysis asks only for timesteps the recording "
                  "has", e.sp, lambda: f"asks for {clip(show(t))}\n    when {gshow(e.cond)}")
            if e.name == "get_timestep_buffer":
                ready = [s for s in a.log[:n] if s.kind == "call" and s.name == "setup_buffer"
                         and s.obj is e.obj and s.args[0] is e.args[1]
                         and tuple(s.loops) == tuple(e.loops)[:len(s.loops)]
                         and terms.implies(e.cond, s.cond)]
                ck.count("buffered")
                ck.ob(f"{name}:buffer", bool(ready), "an extra buffer is set up before it is read "
                      "from", e.sp, lambda: f"buffer {show(e.args[1])}")
    ck.floor("requests", 16, "requests for timesteps")
    ck.floor("buffered", 3, "reads from extra buffers")


def within(t, cond):
    """0 <= t < number of timesteps under cond."""
    if t.k == "fld" and t.a[1] == "Ok" and t.a[2] == "0" and t.a[0].k == "call" \
            and t.a[0].a[0] == "timestep_at_seconds_closest" and t.a[0].a[1] is GS:
        return terms.implies(cond, terms.is_variant(t.a[0], "Ok"))
    bad = B.AND(cond, B.NOT(cmp("Lt", t, NT, True)))
    low = B.AND(cond, cmp("Lt", t, num(0), True))
    return all(not terms.sat(g) or impossible(g) for g in (bad, low))


# ---------------------------------------------------------------- C29
def pairing(ck):
    ts = step(T)
    expect = {"occupancyfield": (buf(add(T, num(1))), 1),
              "msd_field": lookahead(ts, arg(3)), "dispersion": lookahead(ts, arg(3))}
    for k in ("msd_field", "dispersion"):
        expect[k] = (buf(expect[k][0]), expect[k][1])
    rule = "a later position counts only if the same particle is recorded there"
    for f, specs in each(ck):
        if f.name not in expect:
            continue
        nx, ok = expect[f.name]
        for e in f.effs:
            check(ck, f.name, e.args, e.cond, nx, ok, rule, e.sp)
    for a, name, found, g, depth in guard_table(ck):
        if name not in expect:
            continue
        nx, ok = expect[name]
        for gg, (leaf, n) in found.items():
            check(ck, name, [leaf], gg, nx, ok, rule, a.fn["span"], read=False)
    ck.floor("pairs", 3, "uses of later positions")


def check(ck, name, values, cond, nx, ok, rule, w, read=True):
    later = {x for x in subterms(*values) if x.k == "idx" and x.a[0].k == "fld"
             and x.a[0].a[2] == "position" and mentions(x.a[0].a[0], "get_timestep_buffer")}
    if read:
        ck.ob(f"{name}:later", bool(later), "a later position is used", w)
    for x in later:
        ck.ob(f"{name}:when", x.a[0].a[0] is nx, "it is that of the timestep looked for", w,
              lambda: clip(show(x)))
        ck.ob(f"{name}:whose", x.a[1][0] is P, "and of the particle looked at", w,
              lambda: clip(show(x)))
    ck.implied(f"{name}:same", cond, stays(step(T), nx, P), rule, w)
    ck.implied(f"{name}:exists", cond, ok, "there is such a timestep", w)
    ck.count("pairs")


def mentions(t, name):
    return any(x.k == "call" and x.a[0] == name for x in subterms(t))

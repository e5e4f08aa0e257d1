"""What the readers of HDF5 files hand out: the record of the timestep they are asked for,
whatever was read before, and the totals written beside the records."""

from fractions import Fraction
from math import lcm

import terms
from core import B, infeasible, mk, num
from terms import (ANY, mk_bool, add, anyk, cmp, ew, fld, idx, is_variant, mk_case, mul, poly, scale, sub, subst,
                   subterms, with_field)

READER = mk("thing", "reader")
T = mk("in", "timestep")
P = mk("gv", ("particle",))
K = mk("gv", ("place",))
NAME, OTHER = mk("in", "identifier"), mk("in", "another")
TIMESTEP = "datamanager::Timestep"

#: content that files may lack, and what stands for it
SPARE = {"TData": {"density": 1}, "PData": {"density": 1, "radius": 0, "particletype": 0}}


class Roles:
    """Parts of a reader, told apart by their types."""

    def __init__(self, ck, ty):
        ds = [a for p, a in ck.P.adts.items() if p.split("::")[-1] == ty]
        if len(ds) != 1:
            raise LookupError(f"{len(ds)} types named {ty}")
        self.ty = ty
        self.fields = {n: t for n, t, _ in ds[0]["variants"][0]["fields"]}
        vec = "std::vec::Vec<%s>"
        self.file = self.one("hdf5::File")
        self.buffer = self.one(vec % TIMESTEP)
        self.buffers = self.one(vec % (vec % TIMESTEP))
        self.range = self.one("(usize, usize)")
        self.ranges = self.one(vec % "(usize, usize)")
        self.stats = self.one("datamanager::GlobalStats")
        self.size, self.sizes = "buffersize", "buffersize_extra"
        if self.fields.get(self.size) != "usize" or self.fields.get(self.sizes) != vec % "usize":
            raise LookupError(f"{ty} keeps no buffer sizes")
        self.ids = self.one(vec % "usize", but=self.sizes)

    def one(self, t, but=None):
        r = [n for n, x in self.fields.items() if x == t and n != but]
        if len(r) != 1:
            raise LookupError(f"{self.ty} has {len(r)} parts of type {t}")
        return r[0]


# ---------------------------------------------------------------- the records of a file
def stored(file, group, name):
    g = file if group is None else mk("call", "hdf5.group", file, terms.words(group))
    d = mk("call", "hdf5.dataset", g, terms.words([name]))
    return mk("call", "hdf5.read", fld(d, "Ok", "0")), is_variant(d, "Ok")


def attribute(file, name):
    a = mk("call", "hdf5.attr", file, terms.words([name]))
    return mk("call", "hdf5.read", fld(a, "Ok", "0"))


NAMES = {"position": "position", "velocity": "velocity", "radius": "radius", "density": "density",
         "ptype": "particletype", "particleid": "id", "clouds": "ppcloud", "time": "time"}


def value(ty, file, n, t, field, p, k):
    """Value of a field of timestep t for particle p (component k)."""
    if ty == "TData":
        v, there = stored(file, ["timestep ", t], NAMES[field])
        at = (p,) if k is None else (p, num(k))
        if field == "time":
            return v
    else:
        if field == "clouds":
            return num(1)
        if field == "particleid":
            return p
        who = num(0) if field == "time" else p
        v, there = stored(file, ["particle ", who], NAMES[field])
        at = (t,) if k is None else (t, num(k))
    e = idx(v, at)
    spare = SPARE[ty].get(NAMES[field])
    return e if spare is None else mk_case([(e, there), (num(spare), B.NOT(there))])


def record(ty, file, n, t):
    a, b = mk("anyk", ANY, 0), mk("anyk", ANY, 1)
    fs, vs = [], []
    for f in ("time", "position", "velocity", "radius", "particleid", "clouds", "density",
              "ptype"):
        fs.append(f)
        if f == "time":
            vs.append(value(ty, file, n, t, f, None, None))
        elif f == "position":
            vs.append(ew(mk("array", tuple(value(ty, file, n, t, f, a, k) for k in range(3))),
                         (n,)))
        elif f == "velocity":
            comps = [(value(ty, file, n, t, f, a, k),
                      cmp("Eq", b, num(k), True)) for k in range(2)]
            comps.append((value(ty, file, n, t, f, a, 2),
                          B.AND(*[B.NOT(c) for _, c in comps])))
            vs.append(ew(mk_case(comps), (n, num(3))))
        else:
            vs.append(ew(value(ty, file, n, t, f, a, None), (n,)))
    return mk("adt", TIMESTEP, "Timestep", tuple(fs), tuple(vs))


def facts(*ts):
    """What whole numbers rounded down are, and that mandatory content is there."""
    care = 1
    for x in subterms(*ts):
        if x.k == "trunc":
            p = poly(x.a[0])
            d = lcm(*[Fraction(c).denominator for c in p.values()]) if p else 1
            hi, lo = scale(x.a[0], d), scale(x, d)
            care = B.AND(care, cmp("Ge", hi, lo, True), cmp("Lt", hi, add(lo, num(d)), True),
                         cmp("Ge", x, num(0), True))
        elif x.k in ("idiv", "rem"):
            a, b = x.a
            q, r = mk("idiv", a, b), mk("rem", a, b)
            if x.k == "idiv":
                r = sub(a, mul(b, q))
            else:
                care = B.AND(care, cmp("Eq", r, sub(a, mul(b, q)), True))
            care = B.AND(care, cmp("Ge", r, num(0), True), cmp("Lt", r, b, True),
                         cmp("Ge", q, num(0), True), cmp("Ge", mul(b, q), num(0), True))
    return care


def present(ty, *ts, spare=None):
    """Content that files have to have is there."""
    care, spare = 1, SPARE[ty] if spare is None else spare
    for x in subterms(*ts):
        if x.k == "call" and x.a[0] == "hdf5.dataset" and \
                (len(x.a[2].a[0]) != 1 or x.a[2].a[0][0] not in spare):
            care = B.AND(care, is_variant(x, "Ok"))
        if x.k == "dim" and x.a[1] == 1 and x.a[0].k == "call" and x.a[0].a[0] == "hdf5.read":
            care = B.AND(care, cmp("Eq", x, num(3), True))     # coordinates of a point
    return care


def parts(t, c=1):
    if t.k == "case":
        for v, g in t.a[0]:
            yield from parts(v, B.AND(c, g))
    elif c != 0:
        yield t, c


def reached(t, care, pick):
    """{x: when it matters} for the parts x of t that pick accepts."""
    out, seen = {}, set()

    def go(x, c):
        if c == 0 or (x, c) in seen:
            return
        seen.add((x, c))
        if pick(x):
            out[x] = B.OR(out.get(x, 0), c)
        if x.k == "case":
            for v, g in x.a[0]:
                go(v, B.AND(c, g))
                for y in terms.children(mk_bool(g)):
                    go(y, c)
        else:
            for y in terms.children(x):
                go(y, c)
    go(t, care)
    return out


def prune(t, care):
    """t without the cases that whole numbers cannot reach within care."""
    ps = [(v, c) for v, c in parts(t)]
    if len(ps) < 2:
        return t
    keep = [(v, c) for v, c in ps if not infeasible(B.AND(c, care))]
    if len(keep) == len(ps) or not keep:
        return t
    if len(keep) == 1:
        return keep[0][0]
    m = [(v, c) for v, c in keep[:-1]]
    return mk_case(m + [(keep[-1][0], B.NOT(B.OR(*[c for _, c in m])))])


class Side:
    """One buffer of a reader in some state: it covers the timesteps from lo up to hi.
    spot is the place of an extra buffer among the others, None for the main buffer."""

    def __init__(self, r, state, spot=None):
        self.at0 = () if spot is None else (num(spot),)

        def get(name):
            v = terms.lift(lambda x: fld(x, "", name), state)
            return terms.lift(lambda x: idx(x, self.at0), v)
        rg = get(r.range if spot is None else r.ranges)
        self.lo, self.hi = (terms.lift(lambda x: fld(x, "", i), rg) for i in "01")
        self.size = get(r.size if spot is None else r.sizes)
        self.store = terms.lift(lambda x: fld(x, "", r.buffer if spot is None else r.buffers),
                                state)

    def at(self, k):
        return terms.lift(lambda x: idx(x, self.at0 + (k,)), self.store)

    def reads(self, t):
        for x in subterms(t):
            if x.k == "idx" and x.a[0] is self.store and x.a[1][:-1] == self.at0:
                yield x

    def holding(self, ck, key, r, file, n, t, care, rule, where):
        """t with every read of the buffer replaced by the record kept at that place."""
        if any(True for _ in self.reads(t)):
            for x, c in reached(t, care, lambda x: x.k == "idx" and x.a[0] is self.store and
                                x.a[1][:-1] == self.at0).items():
                i = x.a[1][-1]
                c = B.AND(c, present(r.ty, mk("bool", c)))
                c1 = B.AND(c, facts(x, mk("bool", c)))
                ck.implied(f"{key}:covered", c1, B.AND(
                    cmp("Ge", i, num(0), True), cmp("Lt", i, sub(self.hi, self.lo), True)),
                    "places read from a buffer are among those that hold its range", where)
        m = {}
        for x in self.reads(t):
            m[x] = mk_case([(record(r.ty, file, n, add(self.lo, v)), c)
                            for v, c in parts(x.a[1][-1])])
        return subst(t, m) if m else t


def check_record(ck, key, r, file, n, got, t, care, rule, where, skip=(), spare=None):
    want = record(r.ty, file, n, t)
    inside = B.AND(cmp("Ge", P, num(0), True), cmp("Lt", P, n, True))
    for f, w in zip(want.a[2], want.a[3]):
        if f in skip:
            continue
        g = terms.lift(lambda v: fld(v, "", f), got)
        if f == "time":
            pairs = [("", g, w)]
        elif f == "position":
            pairs = [(f".{'xyz'[k]}", terms.lift(lambda v: idx(v, (num(k),)), idx(g, (P,))),
                      idx(idx(w, (P,)), (num(k),))) for k in range(3)]
        elif f == "velocity":
            pairs = [(f".{'xyz'[k]}", idx(g, (P, num(k))), idx(w, (P, num(k))))
                     for k in range(3)]
        else:
            pairs = [("", idx(g, (P,)), idx(w, (P,)))]
        for tag, a, b in pairs:
            c = B.AND(care, inside, present(r.ty, a, b, spare=spare))
            a = prune(a, c)
            ck.same(f"{key}:{f}{tag}", a, b, c, rule, where)
            ck.count("values")


# ---------------------------------------------------------------- the readers
def sound(side, n, cap):
    """A buffer covers some of the file's timesteps, no more than it has places for, and is
    filled with some, no more than it has places for."""
    return B.AND(cmp("Ge", side.size, num(1), True), cmp("Le", side.size, cap, True),
                 cmp("Ge", side.lo, num(0), True), cmp("Lt", side.lo, side.hi, True),
                 cmp("Le", side.hi, n, True),
                 cmp("Le", sub(side.hi, side.lo), cap, True))


def check_state(ck, key, r, file, steps, n, old, new, care, cap, where):
    """new is sound, and the places of its range hold the records of its range."""
    care = B.AND(care, facts(new.lo, new.hi, new.size, mk("bool", care)))
    ck.implied(f"{key}:range", care, sound(new, steps, cap),
               "a buffer keeps covering timesteps of the file, as many as it has places for",
               where)
    inside = B.AND(cmp("Ge", K, num(0), True), cmp("Lt", K, sub(new.hi, new.lo), True))
    got = new.at(K)
    care = B.AND(care, inside)
    if old is not None:
        got = old.holding(ck, key, r, file, n, got, care, "", where)
    for lo, c in parts(new.lo):
        c = B.AND(c, care)
        if c != 0 and not infeasible(c):
            check_record(ck, f"{key}:kept", r, file, n, got, add(lo, K), c,
                         "the places of a buffer hold the records of its range", where)


def apart(ck, key, r, old, new, spot, care, where):
    """A request to one buffer leaves the one at spot as it was."""
    a, b = Side(r, old, spot), Side(r, new, spot)
    for tag, x, y in (("lo", a.lo, b.lo), ("hi", a.hi, b.hi), ("size", a.size, b.size),
                      ("at", a.at(K), b.at(K))):
        ck.same(f"{key}:apart{'' if spot is None else spot}.{tag}", y, x, care,
                "requests to one buffer leave the others alone", where)


def reader(ck, ty):
    r = Roles(ck, ty)
    new = ck.method(ty, "new")
    a = ck.run(new, [mk("in", "name")])
    made = a.ret
    cap = terms.dim_of(terms.lift(lambda x: fld(x, "", r.buffer), made), 0)
    if not terms.is_num(cap):
        ck.fail(f"{ty}.new:cap", "a reader has room for a fixed number of timesteps",
                new["span"], terms.show(cap))
    stats = fld(made, "", r.stats)
    file, steps, n = fld(made, "", r.file), fld(stats, "", "ntimesteps"), \
        fld(stats, "", "nparticles")
    some = B.AND(cmp("Gt", steps, num(0), True), cmp("Gt", n, num(0), True))
    side = Side(r, made)
    check_state(ck, f"{ty}.new", r, file, steps, n, None, side, some, cap, new["span"])

    stats = fld(READER, "", r.stats)
    file, steps, n = fld(READER, "", r.file), fld(stats, "", "ntimesteps"), \
        fld(stats, "", "nparticles")
    asked = B.AND(cmp("Ge", T, num(0), True), cmp("Lt", T, steps, True),
                  cmp("Gt", n, num(0), True))

    # every buffer, in any state it can be in
    others = cmp("Ne", NAME, OTHER, True)
    for tag, name, spot, args, names in (
            ("", "get_timestep", None, [T], None),
            ("", "get_timestep_buffer", 0, [T, NAME], (NAME,)),
            (":beside", "get_timestep_buffer", 1, [T, NAME], (OTHER, NAME))):
        f = ck.method(ty, name)
        me = READER if names is None else with_field(READER, r.ids, mk("vec", mk("array", names)))
        a = ck.run(f, [me] + args, others)
        key, where = f"{ty}.{name}{tag}", f["span"]
        old = Side(r, READER, spot)
        care = B.AND(asked, others, sound(old, steps, cap))
        got = a.ret
        care1 = B.AND(care, facts(got))
        got = old.holding(ck, key, r, file, n, got, care1, "", where)
        check_record(ck, key, r, file, n, got, T, care1,
                     "the record of the timestep asked for is returned", where)
        state = a.final[0] if 0 in a.final else me
        for st, c in parts(state):
            c = B.AND(c, care)
            if st is me or c == 0 or infeasible(B.AND(c, facts(mk("bool", c)))):
                continue
            check_state(ck, key, r, file, steps, n, old, Side(r, st, spot), c, cap, where)
            for other in (None, 0, 1):
                if other != spot:
                    apart(ck, key, r, me, st, other, c, where)
        ck.count("states")

    f = ck.method(ty, "get_timestep_unbuffered")
    a = ck.run(f, [READER, T])
    check_record(ck, f"{ty}.get_timestep_unbuffered", r, file, n, a.ret, T,
                 B.AND(asked, present(ty, mk("bool", a.ok)), facts(a.ret)),
                 "the record of the timestep asked for is returned", f["span"],
                 skip=("particleid", "clouds") if ty == "PData" else (), spare=("density",))
    ck.implied(f"{ty}.get_timestep_unbuffered:returns",
               B.AND(asked, present(ty, mk("bool", a.ok), spare=("density",))), a.ok,
               "reading a timestep of a complete file returns", f["span"])

    # setting up an extra buffer: the first, another one, and one of them again
    f = ck.method(ty, "setup_buffer")
    lists = (r.buffers, r.ranges, r.sizes)
    for x in lists + (r.ids,):
        ck.ob(f"{ty}.new:{x}", terms.dim_of(fld(made, "", x), 0) is num(0),
              "a new reader has no extra buffers", new["span"])
    some = B.AND(cmp("Gt", steps, num(0), True), cmp("Gt", n, num(0), True), others)
    for tag, there in (("first", ()), ("another", (OTHER,))):
        at = len(there)
        me = with_field(READER, r.ids, mk("vec", mk("array", there)))
        a = ck.run(f, [me, NAME], others)
        m = {terms.dim_of(fld(READER, "", x), 0): num(at) for x in lists}
        for x in subterms(a.final[0]):         # added to lists of known length
            if x.k == "pushed" and x.a[0] in [fld(READER, "", y) for y in lists]:
                m[x] = mk("vec", mk("array", tuple(idx(x.a[0], (num(k),)) for k in range(at))
                                    + (x.a[1],)))
                m[terms.dim_of(x, 0)] = num(at + 1)
        st = subst(a.final[0], m)
        key, where = f"{ty}.setup_buffer:{tag}", f["span"]
        check_state(ck, key, r, file, steps, n, None, Side(r, st, at), some, cap, where)
        for other in (None, 0)[:at + 1]:
            apart(ck, key, r, me, st, other, some, where)
        names = terms.lift(lambda v: fld(v, "", r.ids), st)
        ck.same(f"{key}:name", terms.lift(lambda v: idx(v, (num(at),)), names), NAME, some,
                "a new buffer goes by the name it is set up with", where)
        ck.ob(f"{key}:names", terms.dim_of(names, 0) is num(at + 1),
              "each new buffer has one name", where, terms.show(names)[:300])
    me = with_field(READER, r.ids, mk("vec", mk("array", (OTHER, NAME))))
    a = ck.run(f, [me, NAME], others)
    key = f"{ty}.setup_buffer:again"
    check_state(ck, key, r, file, steps, n, Side(r, READER, 1), Side(r, a.final[0], 1), some, cap,
                f["span"])
    for other in (None, 0):
        apart(ck, key, r, me, a.final[0], other, some, f["span"])
    ck.count("readers")


def records(ck):
    for ty in ("TData", "PData"):
        try:
            reader(ck, ty)
        except LookupError as e:
            ck.fail(f"roles:{ty}", "readers keep buffers of timesteps", "src/datamanager", str(e))
    ck.floor("readers", 2, "readers")
    ck.floor("values", 100, "values of records")


# ---------------------------------------------------------------- the totals
#: field: (attribute of the file, element)
TOTALS = {"dimensions": ("dimensions", None), "nparticles": ("particle number", None),
          "ntimesteps": ("timesteps", None), "min_time": ("time", 0), "max_time": ("time", 1),
          "sample_rate": ("sample rate", None), "velocity": ("velocity", None),
          "velocity_mag": ("velocity magnitude", None)}


def totals(ck):
    want_fields = set(TOTALS) | {"time_array"}
    have = [a for p, a in ck.P.adts.items() if p.split("::")[-1] == "GlobalStats"]
    names = {n for n, _, _ in have[0]["variants"][0]["fields"]} if have else set()
    ck.ob("fields", names == want_fields, "the totals of a dataset are known",
          "src/datamanager.rs", sorted(names))
    for ty in ("TData", "PData"):
        try:
            r = Roles(ck, ty)
        except LookupError as e:
            ck.fail(f"roles:{ty}", "readers keep a file", "src/datamanager", str(e))
            continue
        f = ck.method(ty, "global_stats")
        a = ck.run(f, [READER])
        file = fld(READER, "", r.file)
        care = 1
        for n in sorted(want_fields):
            got = terms.lift(lambda v: fld(v, "", n), a.ret)
            if n == "time_array":
                want = stored(file, None, "time array")[0]
            else:
                want = attribute(file, TOTALS[n][0])
                if TOTALS[n][1] is not None:
                    want = idx(want, (num(TOTALS[n][1]),))
            for x in subterms(want, mk("bool", a.ok)):
                if x.k == "call" and x.a[0] in ("hdf5.attr", "hdf5.dataset"):
                    care = B.AND(care, is_variant(x, "Ok"))
                if x.k == "dim" and x.a[0] is attribute(file, "time"):
                    care = B.AND(care, cmp("Eq", x, num(2), True))
            ck.same(f"{ty}:{n}", got, want, care,
                    "totals of a dataset are those written in its file", f["span"])
            ck.count("totals")
        ck.implied(f"{ty}:returns", care, a.ok, "the totals of a complete file are read",
                   f["span"])
        # the reader keeps the totals of the file it has opened
        g = ck.method(ty, "new")
        made = ck.run(g, [mk("in", "name")]).ret
        kept = terms.lift(lambda v: fld(v, "", r.stats), made)
        from_ = kept.a[1] if kept.k == "call" and kept.a[0] == "global_stats" else None
        ck.ob(f"{ty}:kept", from_ is not None and terms.lift(
            lambda v: fld(v, "", r.file), from_) == terms.lift(lambda v: fld(v, "", r.file), made),
            "a reader keeps the totals of the file it has opened", g["span"], terms.show(kept)[:300])
    ck.floor("totals", 18, "totals")

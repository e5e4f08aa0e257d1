"""Csv files of several particles: what is recorded of them."""

import core
import terms
from convert import (Fold, Kept, PER_FILE, ascending, called, core_of, extreme, file_of, inner_fold, kept_array, kept_count,
                     numbered, parts, peel, settings, settled, through, total, writes, written_out)
from core import B, clip, mk, num, show
from spec import arg, speed
from terms import add, as_bool, cmp, div, fld, idx, mk_bool, mk_case, sub, subst, subst_guard, subterms

#: way of writing several particles -> (velocities derived, rows spread evenly, columns)
WAYS = {
    "idline": ((0, 0, 8), (0, 1, 8), (1, 0, 5), (1, 1, 5)),
    "chain": ((0, 0, 7), (1, 0, 4), (1, 1, 4)),
}
PARTICLES = mk("thing", "particles")
COLUMNS = terms.dim_of(arg(2), 0)


def particle(p):
    """The rows of a particle, whatever they are."""
    return idx(PARTICLES, (p,))


class Recorded:
    """What is written of a file of several particles."""

    def __init__(self, ck, which, vel, smooth, columns):
        tools = [(f"convertertools::{n}", n) for n in ("interpolate", "velocity_polynom", "sort_by_column")]
        tools.append(("velocity_paralell::velocity_polynom_parallel", "velocity_polynom"))
        if which == "idline":
            tools += [(f"csv_multi_idline::{n}", n) for n in ("sort_by_id", "remove_columns")]
        self.fn = ck.free(f"csv_multi_{which}::csv_multi_{which}")
        self.w = self.fn["span"]
        self.key = f"{which}:{'derived' if vel else 'given'}:{'even' if smooth else 'measured'}"
        args = [arg(k) for k in range(9)]
        args[6], args[7] = mk_bool(vel), mk_bool(smooth)
        self.a = ck.run(self.fn, args, sealed=tuple((ck.fid(p), n) for p, n in tools))
        self.known = {COLUMNS: num(columns)}
        self.ws = writes(self.a)
        inside = [z for z in self.ws if z.e.loops]
        loops = {z.e.loops for z in inside}
        if len(loops) != 1 or len(next(iter(loops))) != 1:
            ck.fail(f"{self.key}:loops", "the records of particles are written in one loop over them", self.w, str(loops))
        self.n, = next(iter(loops))
        self.i = mk("iv", self.n)
        self.round = subst_guard(self.a.loops[self.n]["back"], self.known)
        self.back = settled(self.round)
        self.by = {}
        for z in self.ws:
            k = f"{'p' if z.e.loops else z.kind[0]}:{z.name}"
            if k in self.by:
                ck.fail(f"{self.key}:{k}:once", "each record is written once", z.e.sp)
            self.by[k] = z
        need = [f"p:{x}" for x in PER_FILE] + [f"a:{x}" for x in (
            "dimensions", "velocity", "velocity magnitude", "time", "timesteps", "hdf5_up4_type", "particle number")] + \
            ["d:time array"]
        for k in need:
            if k not in self.by:
                ck.fail(f"{self.key}:{k}:written", "what readers look for is written", self.w)
        self.here = {k: z.e.sp for k, z in self.by.items()}
        self.val = {k: subst(z.value, self.known) for k, z in self.by.items()}
        # the rows of the particle at hand: what is looked at, row by row
        v = self.val["p:position"]
        f = inner_fold(v.a[0] if v.k == "view" else v)
        self.rows = None
        if f and len(f.levels) == 1:
            bounds = {x.a[0] for _, at in B_atoms(f.runs(0)) for x in subterms(at) if x.k == "dim" and x.a[1] == 0}
            bounds = {x for x in bounds if self.i in set(subterms(x))}
            tops = [x for x in bounds if not any(x is not y and x in set(subterms(y)) for y in bounds)]
            self.rows = tops[0] if len(tops) == 1 else None
        if self.rows is None:
            ck.fail(f"{self.key}:rows", "the rows of a particle are recorded one after the other", self.here["p:position"],
                    clip(show(v)))

    def plain(self, t, *ps):
        """A value in which the rows of particles are just that."""
        if self.rows.k == "idx" and self.rows.a[1] == (self.i,):
            return subst(t, {self.rows.a[0]: PARTICLES})
        return subst(t, {subst(self.rows, {self.i: p}): particle(p) for p in (self.i, *ps)})


def B_atoms(g):
    return [(x[0], x[1]) for x in B.atoms(g) if x[0] in "EL"]


def several(ck):
    for which, ways in WAYS.items():
        for vel, smooth, columns in ways:
            of_particles(ck, Recorded(ck, which, vel, smooth, columns), vel)
    ck.floor("arrays", 40, "arrays of particles")
    ck.floor("totals", 100, "totals of particles")
    ck.floor("writes", 90, "records of particles")


def of_particles(ck, r, vel):
    key, i, here = r.key, r.i, r.here
    many = r.val["a:particle number"]
    care = B.NOT(terms.is_nan(idx(particle(i), (num(0), num(6)))))
    back = as_bool(r.plain(mk_bool(r.back)))
    ck.implied(f"{key}:velocity", back, care, "rows without velocities are refused", r.w)
    ck.same_guard(f"{key}:all", back, cmp("Lt", i, many, True), care, "there is a record for every particle there is", r.w)
    for k, z in r.by.items():
        ck.implied(f"{key}:{k}:always", r.round if z.e.loops else subst_guard(r.a.ok, r.known),
                   subst_guard(z.e.cond, r.known), "everything is written for every particle", z.e.sp)
        home = through(z.home)
        ck.ob(f"{key}:{k}:place", z.kind == "dataset" and called(home, "create_group") and
              home.a[1] is file_of(arg(1)) and numbered(home.a[2], "particle ", i) if z.e.loops
              else z.home is file_of(arg(1)), "the n-th particle is recorded as particle n of the file asked for, "
              "counted from zero", z.e.sp, lambda: clip(show(z.home)))
        ck.count("writes")
    val = {k: r.plain(v, i) for k, v in r.val.items()}
    mine = particle(i)
    for k, comps in (("p:time", (0,)), ("p:position", (1, 2, 3)), ("p:velocity", (4, 5, 6))):
        kept_array(ck, f"{key}:{k}", val[k], mine, comps, here[k])
    row = (mk("gv", ("row",)),)
    for k, x in (("p:id", i), ("p:radius", arg(8)), ("p:ppcloud", num(1)), ("p:particletype", None)):
        got = idx(val[k], row)
        if x is None:
            ck.ob(f"{key}:{k}:value", terms.is_num(got), "particles of a file have one type", here[k], lambda: clip(show(got)))
        else:
            ck.same(f"{key}:{k}:value", got, x, 1, "a particle has an identifier of its own and the radius given", here[k])
        size = terms.dim_of(val[k], 0)
        ck.ob(f"{key}:{k}:length", kept_count(size, mine), "there is a value for every row kept", here[k],
              lambda: clip(show(size)))
        ck.count("arrays")
    ck.ob(f"{key}:type", val["a:hdf5_up4_type"] is num(2), "files of trajectories are marked as such", here["a:hdf5_up4_type"])

    def everyone(k, fold):
        p = fold.var(0)
        care = B.NOT(terms.is_nan(idx(particle(p), (num(0), num(6)))))
        runs = as_bool(r.plain(mk_bool(fold.runs(0)), p))
        ck.same_guard(f"{key}:{k}:particles", runs, cmp("Lt", p, many, True), care,
                      "totals are those of every particle", here[k])

    # the most rows of a particle
    k = "a:timesteps"
    f = inner_fold(r.val[k])
    if f is None or len(f.levels) != 1:
        ck.fail(f"{key}:timesteps", "there are as many timesteps as a particle has rows at most", here[k], clip(show(val[k])))
    everyone(k, f)
    p, step = f.var(0), r.plain(f.step, f.var(0))
    sizes = {u for u, _ in parts(step) if u is not f.state and kept_count(u, particle(p))}
    if len(sizes) != 1:
        ck.fail(f"{key}:timesteps", "there are as many timesteps as a particle has rows at most", here[k], clip(show(step)))
    size, = sizes
    more = cmp("Gt", size, f.state, True)
    ck.same(f"{key}:timesteps", step, mk_case([(size, more), (f.state, B.NOT(more))]), 1,
            "there are as many timesteps as a particle has rows at most", here[k])
    ck.ob(f"{key}:timesteps:start", f.init is num(0), "there are as many timesteps as a particle has rows at most", here[k])

    def fold(k):
        f = inner_fold(r.val[k])
        if f is None or len(f.levels) != 2 or not f.ok:
            ck.fail(f"{key}:{k}:gathered", "totals are those of the rows kept of every particle", here[k], clip(show(val[k])))
        everyone(k, f)
        kept = inner(f)
        if kept is None:
            ck.fail(f"{key}:{k}:kept", "totals are those of the rows kept", here[k], clip(show(f.step)))
        ck.same_guard(f"{key}:{k}:rows", as_bool(r.plain(mk_bool(f.runs(1)), f.var(0))),
                      cmp("Lt", f.var(1), terms.dim_of(particle(f.var(0)), 0), True), 1,
                      "totals are those of the rows kept", here[k])
        for u, c in parts(f.step):
            if terms.sat(B.AND(c, B.NOT(kept.keep), kept.care)):
                ck.ob(f"{key}:{k}:left", u is f.state, "rows that are left out do not count", here[k],
                      lambda: clip(show(u)))
        f.step = written_out(f.step)
        kept.only = B.AND(kept.keep, kept.care)
        return f, kept

    def inner(f):
        """The rows kept, in a loop over the rows of every particle."""
        p = f.var(0)
        n, bodies, inits, g = f.levels[1]
        f.step = r.plain(f.step, p)
        f.levels[1] = (n, [r.plain(x, p) for x in bodies], inits, g)
        kept = Kept(f, particle(p), None)
        return kept if kept.keep is not None else None

    def counted(n):
        """Whether a number is that of the rows kept of all particles."""
        f = Fold(n) if n.k == "fin" else None
        if f is None or not f.ok or f.init is not num(0):
            return False
        if len(f.levels) == 1:
            p = f.var(0)
            more = sub(r.plain(f.step, p), f.state)
            return kept_count(more, particle(p))
        if len(f.levels) != 2:
            return False
        kept = inner(f)
        return kept is not None and core.differ(
            f.step, mk_case([(add(f.state, num(1)), kept.keep), (f.state, B.NOT(kept.keep))]), kept.care) is None

    def mean(k, at):
        v = r.val[k]
        n = div(idx(core_of(v), at), idx(v, at))
        ck.ob(f"{key}:{k}:{'.'.join(str(terms.tint(x)) for x in at)}:mean:count", counted(n),
              "a mean is that of the rows kept", here[k], lambda: clip(show(n)))

    row = lambda f, n: idx(particle(f.var(0)), (f.var(1), num(n)))
    f, kept = fold("a:dimensions")
    for n in range(3):
        extreme(ck, f"{key}:dimensions:{n}", f, (num(0), num(n)), (num(1), num(n)), row(f, 1 + n),
                here["a:dimensions"], "position", kept.only)
    f, kept = fold("a:time")
    extreme(ck, f"{key}:time", f, (num(0),), (num(1),), row(f, 0), here["a:time"], "time", kept.only)
    f, kept = fold("a:velocity")
    for n in range(3):
        extreme(ck, f"{key}:velocity:{n}", f, (num(n), num(0)), (num(n), num(2)), row(f, 4 + n), here["a:velocity"],
                "velocity", kept.only)
        total(ck, f"{key}:velocity:{n}:mean", f, (num(n), num(1)), row(f, 4 + n), here["a:velocity"], "velocity", kept.only)
        mean("a:velocity", (num(n), num(1)))
    f, kept = fold("a:velocity magnitude")
    x = speed([row(f, 4 + n) for n in range(3)])
    extreme(ck, f"{key}:speed", f, (num(0),), (num(2),), x, here["a:velocity magnitude"], "speed", kept.only)
    total(ck, f"{key}:speed:mean", f, (num(1),), x, here["a:velocity magnitude"], "speed", kept.only)
    mean("a:velocity magnitude", (num(1),))


# ---------------------------------------------------------------- whose rows they are
def rows_of(ck, r, vel, smooth):
    """How the rows of particle p come about: (what there is of it in the file, p, which are left out)."""
    key, w = r.key, r.w
    rows, keep, p = r.rows, 1, r.i
    if rows.k == "idx" and rows.a[1] == (r.i,) and rows.a[0].k == "filtered":
        n, rows, keep = rows.a[0].a[:3]
        p, keep = mk("bv", n), as_bool(keep)
    if vel:
        if not called(rows, "velocity_polynom"):
            ck.fail(f"{key}:derived", "velocities are derived where asked to", w, clip(show(rows)))
        ck.ob(f"{key}:derived:degree", rows.a[3] is num(2), "a parabola is fitted", w)
        ck.ob(f"{key}:derived:steps", terms.is_num(rows.a[2]) and terms.num_val(rows.a[2]) >= 3,
              "a parabola needs three rows", w)
        rows = rows.a[1]
    if smooth:
        if not called(rows, "interpolate"):
            ck.fail(f"{key}:even", "rows are spread evenly over time where asked to", w, clip(show(rows)))
        for k in (2, 3):
            ck.ob(f"{key}:even:{k}", p not in set(subterms(rows.a[k])),
                  "rows of all particles are spread over the same time", w, lambda: clip(show(rows.a[k])))
        rows = rows.a[1]
    return rows, p, keep


def shared_time(r):
    """The time particles are spread over (None where they are not)."""
    found = {x.a[2] for x in subterms(r.rows) if called(x, "interpolate")}
    return next(iter(found)) if len(found) == 1 else None


def read_rows(ck, r, x, columns):
    """The rows of the file, in the columns asked for."""
    key, w = r.key, r.w
    raws = {y for y in subterms(x) if called(y, "deserialize_array2_dynamic")}
    if len(raws) != 1:
        ck.fail(f"{key}:read", "rows are read from one file", w, str(len(raws)))
    source, = raws
    raw = fld(source, "Ok", "0")
    settings(ck, key, source, w)
    row, c = mk("gv", ("row",)), mk("gv", ("column",))
    care = B.AND(cmp("Lt", c, num(columns), True), cmp("Lt", row, terms.dim_of(raw, 0), True))
    ck.same(f"{key}:columns", idx(x, (row, c)), idx(raw, (row, idx(arg(2), (c,)))), care,
            "the columns asked for are read, in the order asked for", w)
    ck.same(f"{key}:read:rows", terms.dim_of(x, 0), terms.dim_of(raw, 0), 1, "every row is read", w)
    return raw


def allotted(ck):
    for which, ways in WAYS.items():
        for vel, smooth, columns in ways:
            r = Recorded(ck, which, vel, smooth, columns)
            rows, p, keep = rows_of(ck, r, vel, smooth)
            (numbered_rows if which == "idline" else chained_rows)(ck, r, rows, p, keep, columns, smooth)
            ck.count("ways")
    ck.floor("ways", 7, "ways of reading several particles")


def numbered_rows(ck, r, rows, p, keep, columns, smooth):
    """Particles told apart by their identifiers."""
    key, w, what = r.key, r.w, "the rows of a particle are those with its identifier, in order of time"
    ck.ob(f"{key}:kept", keep == 1, "no particle is left out", w, lambda: clip(core.gshow(keep)))
    if not called(rows, "remove_columns"):
        ck.fail(f"{key}:identifier", "identifiers are no part of a row", w, clip(show(rows)))
    gone = rows.a[2]
    ck.ob(f"{key}:identifier", terms.dim_of(gone, 0) is num(1) and idx(gone, (num(0),)) is num(1),
          "identifiers are no part of a row", w, lambda: clip(show(gone)))
    rows = rows.a[1]
    if not called(rows, "sort_by_column"):
        ck.fail(f"{key}:order", what, w, clip(show(rows)))
    ck.ob(f"{key}:order", rows.a[2] is num(0), what, w, lambda: clip(show(rows.a[2])))
    rows = rows.a[1]
    every = {x for x in subterms(rows) if called(x, "sort_by_id")}
    tops = [x for x in every if rows is idx(fld(x, "", "0"), (p,))]
    if len(tops) != 1:
        ck.fail(f"{key}:particle", what, w, clip(show(rows)))
    read_rows(ck, r, tops[0].a[1], columns)
    if smooth:
        ck.ob(f"{key}:even:time", shared_time(r) is fld(tops[0], "", "1"),
              "particles are spread over the time of the one that lasts longest", w)


def chained_rows(ck, r, rows, p, keep, columns, smooth):
    """Particles told apart by time starting anew."""
    key, w, what = r.key, r.w, "the rows of a particle are those from where time starts anew to where it does again"
    lists = {x.a[0] for x in subterms(terms.dim_of(rows, 0)) if x.k == "idx" and p in set(subterms(*x.a[1]))}
    if len(lists) != 1:
        ck.fail(f"{key}:starts", what, w, clip(show(terms.dim_of(rows, 0))))
    starts, = lists
    at, to = idx(starts, (p,)), idx(starts, (add(p, num(1)),))
    ck.same(f"{key}:length", terms.dim_of(rows, 0), sub(to, at), 1, what, w)
    row, c = mk("gv", ("row",)), mk("gv", ("column",))
    care = B.AND(cmp("Lt", c, num(7), True), cmp("Lt", row, sub(to, at), True))
    reads = {x for x in subterms(rows) if x.k == "ew" and any(called(y, "deserialize_array2_dynamic") for y in subterms(x))}
    tops = [x for x in reads if not any(x is not y and x in set(subterms(y)) for y in reads)]
    if len(tops) != 1:
        ck.fail(f"{key}:read", "rows are read from one file", w, str(len(tops)))
    raw = read_rows(ck, r, tops[0], columns)
    for k in range(7):
        ck.same(f"{key}:rows:{k}", idx(rows, (row, num(k))), idx(tops[0], (add(at, row), num(k))),
                subst_guard(care, {c: num(k)}), what, w)
    # where particles start: at the first row, where a row is earlier than the one before, and past the last
    many = terms.dim_of(raw, 0)
    good = starts.k == "pushed" and starts.a[1] is many and starts.a[0].k == "concat" and \
        terms.dim_of(starts.a[0].a[0], 0) is num(1) and idx(starts.a[0].a[0], (num(0),)) is num(0)
    ck.ob(f"{key}:ends", good, "the first particle starts with the file, the last one ends with it", w,
          lambda: clip(show(starts)))
    if good:
        later = starts.a[0].a[1]
        good = later.k == "filtered" and later.a[1] is mk("bv", later.a[0]) and later.a[3] is many
        ck.ob(f"{key}:restarts:rows", good, what, w, lambda: clip(show(later)))
    if good:
        v = mk("bv", later.a[0])
        time = lambda k: idx(raw, (k, idx(arg(2), (num(0),))))
        a, b = time(v), time(sub(v, num(1)))
        ck.same_guard(f"{key}:restarts", as_bool(later.a[2]),
                      B.AND(B.NOT(cmp("Eq", v, num(0), True)), cmp("Lt", a, b, False)),
                      B.AND(B.NOT(terms.is_nan(a)), B.NOT(terms.is_nan(b))), what, w)
        found = r.rows.a[0].a[3]
        if found is not sub(terms.dim_of(starts, 0), num(1)):
            ck.same(f"{key}:particles", found, add(num(1), later.a[4]), 1, "a particle starts wherever time starts anew", w)
    if smooth:
        lasting(ck, key, shared_time(r), raw, w)
    ck.implied(f"{key}:kept", cmp("Ge", sub(to, at), num(10), True), keep,
               "particles with rows enough to derive velocities from are kept", w)


def grouped(ck):
    """How rows are told apart by identifier, and identifiers taken out of them."""
    f = ck.free("csv_multi_idline::sort_by_id")
    w, key = f["span"], "identifiers"
    what = "a row belongs to the particle with its identifier, after those before it"
    data = arg(0)
    many = terms.dim_of(data, 0)
    a = ck.run(f)
    t = fld(a.ret, "", "0")
    fold = Fold(t) if t.k == "fin" else None
    if fold is None or len(fold.levels) > 2 or not fold.ok:
        ck.fail(f"{key}:rows", what, w, clip(show(t)))
    n, bodies, inits, _ = fold.levels[0]
    v = fold.var(0)
    runs = B.exists(fold.runs(0), lambda at: at[0] == "EX")
    ck.same_guard(f"{key}:all", runs, cmp("Lt", v, many, True), 1, "every row belongs to a particle", w)
    u = fold.step
    ok, cells = u.k == "elemupd" and len(u.a[1]) == 1, {}
    x, z = u.a[2] if ok else u, u
    # a row may be taken cell by cell: {column: value}
    while z.k == "elemupd" and len(z.a[1]) == 3 and z.a[1][:2] == u.a[1][:2]:
        cells.setdefault(z.a[1][2], z.a[2])
        z = z.a[0]
    if cells:
        c, every = fold.var(len(fold.levels) - 1), set(cells) == {num(k) for k in range(8)}
        if len(fold.levels) == 2:
            every = set(cells) == {c} and any(fold.runs(1) == cmp("Lt", c, m, True)
                                              for m in (num(8), terms.dim_of(data, 1)))
        ok = z is fold.state and every
        for k, val in sorted(cells.items(), key=str):
            ck.same(f"{key}:cell:{show(k)}", val, idx(data, (v, k)), 1, "a row is taken as it is", w)
        c = mk("gv", ("column",))
        j, line, cell = (*u.a[1][:2], idx(data, (v, c)))
    elif ok:
        c = mk("gv", ("column",))
        ok = x.k == "viewupd" and x.a[0] is idx(fold.state, u.a[1]) and x.a[1][0][0] == "ix" and x.a[1][1][0] == "all"
        j, line, cell = (u.a[1][0], x.a[1][0][1], idx(x.a[2], (c,))) if ok else (None, None, None)
    if not ok:
        ck.fail(f"{key}:place", what, w, clip(show(u)))
    ck.same(f"{key}:row", cell, idx(data, (v, c)), 1, "a row is taken as it is", w)
    # the next free place of the particle
    counters = [k for k in range(len(bodies)) if line is idx(mk("rec", n, k), (j,))]
    good = bool(counters)
    if good:
        k, = counters
        rec = mk("rec", n, k)
        good = bodies[k] is mk("elemupd", rec, (j,), add(num(1), idx(rec, (j,)))) and \
            idx(inits[k], (mk("gv", ("particle",)),)) is num(0)
    ck.ob(f"{key}:line", good, what, w, lambda: clip(show(line)))
    # the particle with the identifier
    lists = {x for x in subterms(j) if x.k == "mut" and "sort" in x.a[0]}
    tops = [x for x in lists if not any(x is not y and x in set(subterms(y)) for y in lists)]
    if j.k != "first" or len(tops) != 1:
        ck.fail(f"{key}:particle", what, w, clip(show(j)))
    ids, q = tops[0], mk("bv", j.a[0])
    own = lambda k: mk("trunc", idx(data, (k, num(1))))
    ck.same_guard(f"{key}:particle", as_bool(j.a[1]), B.AND(
        cmp("Lt", q, terms.dim_of(ids, 0), True), cmp("Eq", fld(idx(ids, (q,)), "", "0"), own(v), True)), 1, what, w)
    found, orders = peel(ids, "sort")
    ascending(ck, f"{key}:order", orders, lambda x: fld(x, "", "0"), 1, w)
    # identifiers are listed once, with the number of their rows
    g = mk("gv", ("identifier",))
    each = [fld(idx(found, (g,)), "", str(k)) for k in range(2)]
    folds = [Fold(x.a[0]) if x.k == "idx" and x.a[0].k == "fin" and x.a[1] == (g,) else None for x in each]
    if None in folds or any(len(x.levels) != 1 for x in folds):
        ck.fail(f"{key}:listed", "every identifier is listed once", w, clip(show(found)))
    for k, x in enumerate(folds):
        b = x.var(0)
        ck.same_guard(f"{key}:listed:{k}:all", x.runs(0), cmp("Lt", b, many, True), 1, "every identifier is listed once", w)
        ck.ob(f"{key}:listed:{k}:start", terms.dim_of(x.init, 0) is num(0), "every identifier is listed once", w)
        for s, h in parts(x.step):
            known = [at for at in B.atoms(h) if at[0] == "EX"]
            if len(known) != 1:
                ck.fail(f"{key}:listed:{k}", "every identifier is listed once", w, clip(show(s)))
            m, gt = known[0][1], as_bool(known[0][2])
            lists = {y.a[0] for y in subterms(known[0][2]) if y.k == "idx" and y.a[0].k == "rec"}
            is_known = B.var(*known[0])
            list_ = next(iter(lists)) if len(lists) == 1 else None
            z = mk("bv", m)
            ck.ob(f"{key}:listed:{k}:known", list_ is not None and gt == B.AND(
                cmp("Lt", z, terms.dim_of(list_, 0), True), cmp("Eq", idx(list_, (z,)), own(b), True)),
                "an identifier is known where it is listed", w)
            new = h == B.NOT(is_known)
            if k == 0:
                want = mk("pushed", x.state, own(b)) if new else x.state
                ck.ob(f"{key}:listed:{k}:{'new' if new else 'known'}", s is want and (new or h == is_known) and
                      list_ is x.state, "every identifier is listed once", w, lambda: clip(show(s)))
            else:
                good = s is mk("pushed", x.state, num(1)) if new else (
                    s.k == "elemupd" and s.a[0] is x.state and len(s.a[1]) == 1 and s.a[1][0].k == "first" and
                    as_bool(s.a[1][0].a[1]) == gt and s.a[2] is add(num(1), idx(x.state, s.a[1])))
                ck.ob(f"{key}:counted:{'new' if new else 'known'}", good and (new or h == is_known),
                      "there is room for every row of a particle", w, lambda: clip(show(s)))
    # an array for every identifier
    t = inits[0]
    if t.k == "fin":
        room = Fold(t)
        b = room.var(0)
        ck.same_guard(f"{key}:room:all", room.runs(0), cmp("Lt", b, terms.dim_of(ids, 0), True), 1,
                      "there is room for every row of a particle", w)
        x = room.step
        while x.k == "elemupd" and terms.dim_of(x.a[0], 0) is add(x.a[1][0], num(1)):
            x = x.a[0]
        good = x.k == "pushed" and x.a[0] is room.state and terms.dim_of(room.init, 0) is num(0)
        size = x.a[1] if good else None
    else:
        b = g
        good, size = terms.dim_of(t, 0) is terms.dim_of(ids, 0), idx(t, (g,))
    ck.ob(f"{key}:room", good and terms.dim_of(size, 0) is fld(idx(ids, (b,)), "", "1") and
          terms.dim_of(size, 1) is num(8), "there is room for every row of a particle", w, lambda: clip(show(t)))
    ck.ob(f"{key}:refused", a.ok == 1, "no file is refused for its identifiers", w, lambda: clip(core.gshow(a.ok)))
    greatest(ck, f"{key}:latest", fld(a.ret, "", "1"), many, lambda k: idx(data, (k, num(0))), w)
    columns_left(ck)


def greatest(ck, key, t, many, item, w):
    """t is the greatest of the items (there are `many`), or its start if that is greater."""
    what = "particles are spread over the time of the one that lasts longest"
    if t.k == "extr":
        # (bound variable, min or max, item, which, start)
        v = mk("bv", t.a[0])
        x = item(v)
        ck.ob(f"{key}:max", t.a[1] == "max", what, w, lambda: clip(show(t)))
        ck.same(key, t.a[2], x, 1, what, w)
        ck.same_guard(f"{key}:all", as_bool(t.a[3]), cmp("Lt", v, many, True), B.NOT(terms.is_nan(x)), what, w)
        return t.a[4]
    fold = Fold(t) if t.k == "fin" else None
    if fold is None or len(fold.levels) != 1:
        ck.fail(key, what, w, clip(show(t)))
    n, bodies, inits, _ = fold.levels[0]
    v, own = fold.var(0), fold.state
    x = item(v)
    ck.same_guard(f"{key}:all", fold.runs(0), cmp("Lt", v, many, True), 1, what, w)
    care = B.AND(B.NOT(terms.is_nan(x)), B.NOT(terms.is_nan(own)))
    # what is least of the same items, from the same start, is no greater than what is greatest of them
    for k, (body, init) in enumerate(zip(bodies, inits)):
        least = mk("rec", n, k)
        if least is not own and init is fold.init and all(
                s is least or s is x and not terms.sat(B.AND(h, B.NOT(cmp("Lt", x, least, False))))
                for s, h in parts(body)):
            care = B.AND(care, B.NOT(B.AND(cmp("Lt", x, least, False), cmp("Gt", x, own, False))))
    more = cmp("Gt", x, own, False)
    ck.same(key, fold.step, mk_case([(x, more), (own, B.NOT(more))]), care, what, w)
    return fold.init


def lasting(ck, key, t, raw, w):
    """t is the greatest of the last times of particles that follow one another."""
    what = "a particle lasts until time starts anew, or the file ends"
    fold = Fold(t) if t.k == "fin" else None
    item, v = (fold.step, fold.var(0)) if fold else (t.a[2], mk("bv", t.a[0])) if t.k == "extr" else (None, None)
    lists = {y.a[0] for y in subterms(item) if y.k == "idx" and v in y.a[1]} if item is not None else ()
    lists = {x for x in lists if not any(x is not y and x in set(subterms(y)) for y in lists)}
    if len(lists) != 1:
        ck.fail(f"{key}:ends", what, w, clip(show(t)))
    ends, = lists
    start = greatest(ck, f"{key}:longest", t, terms.dim_of(ends, 0), lambda k: idx(ends, (k,)), w)
    ck.ob(f"{key}:longest:start", start is num(0), what, w, lambda: clip(show(start)))
    many = terms.dim_of(raw, 0)
    time = lambda k: idx(raw, (k, idx(arg(2), (num(0),))))
    inner = Fold(ends.a[0]) if ends.k == "pushed" and ends.a[0].k == "fin" else None
    if inner is None or len(inner.levels) != 1 or terms.dim_of(inner.init, 0) is not num(0):
        ck.fail(f"{key}:ends", what, w, clip(show(ends)))
    n, bodies, inits, _ = inner.levels[0]
    v = inner.var(0)
    before = {mk("rec", n, k): time(sub(v, num(1))) for k, x in enumerate(bodies) if x is time(v)}
    later = B.NOT(cmp("Eq", v, num(0), True))
    ck.same_guard(f"{key}:ends:all", inner.runs(0), cmp("Lt", v, many, True), 1, what, w)
    a, b = time(v), time(sub(v, num(1)))
    anew = B.AND(later, cmp("Lt", a, b, False))
    care = B.AND(B.NOT(terms.is_nan(a)), B.NOT(terms.is_nan(b)))
    for s, h in parts(inner.step):
        s, h = subst(s, before), subst_guard(h, before)
        new = s.k == "pushed" and s.a[0] is inner.state
        ck.ob(f"{key}:ends", s is inner.state or new and s.a[1] is b, what, w, lambda: clip(show(s)))
        ck.same_guard(f"{key}:ends:{'anew' if new else 'same'}", h, anew if new else B.NOT(anew), care, what, w)
    for s, h in parts(ends.a[1]):
        last = s.a[1][0] if s.k == "idx" and s.a[0] is raw else None
        good = s is time(sub(many, num(1))) or last is not None and last.k == "lastpos" and s is time(last) and \
            as_bool(last.a[1]) == cmp("Lt", mk("bv", last.a[0]), many, True)
        # a file without rows has no last one
        none = B.atoms(h) and all(at[0] == "EX" and as_bool(at[2]) == cmp("Lt", mk("bv", at[1]), many, True) and
                                  h == B.NOT(B.var(*at)) for at in B.atoms(h))
        ck.ob(f"{key}:ends:last", good or none, what, w, lambda: clip(show(s)))



def columns_left(ck):
    f = ck.free("csv_multi_idline::remove_columns")
    w, what = f["span"], "the columns left follow one another, as they were"
    data = arg(0)
    a = ck.run(f, [data, core.mk("vec", mk("array", (num(1),)))])
    t = a.ret
    fold = Fold(t) if t.k == "fin" else None
    if fold is None or len(fold.levels) != 1:
        ck.fail("columns:left", what, w, clip(show(t)))
    n, bodies, inits, _ = fold.levels[0]
    v = fold.var(0)
    ck.same_guard("columns:all", fold.runs(0), cmp("Lt", v, terms.dim_of(data, 1), True), 1, what, w)
    gone = cmp("Eq", v, num(1), True)
    for s, h in parts(fold.step):
        if terms.sat(B.AND(h, gone)):
            ck.ob("columns:gone", s is fold.state, "a column taken out leaves no trace", w, lambda: clip(show(s)))
            if not terms.sat(B.AND(h, B.NOT(gone))):
                continue
        good = s.k == "viewupd" and s.a[0] is fold.state and s.a[1][0][0] == "all" and s.a[1][1][0] == "ix"
        ck.ob("columns:written", good, what, w, lambda: clip(show(s)))
        if good:
            row = mk("gv", ("row",))
            ck.same("columns:values", idx(s.a[2], (row,)), idx(data, (row, v)), 1, what, w)
            at = s.a[1][1][1]
            first = subst(at, {v: num(0), **{mk("rec", n, k): x for k, x in enumerate(inits)}})
            nxt = subst(at, {v: add(v, num(1)), **{mk("rec", n, k): x for k, x in enumerate(bodies)}})
            ck.ob("columns:first", first is num(0), what, w, lambda: clip(show(first)))
            ck.same("columns:next", nxt, mk_case([(at, gone), (add(at, num(1)), B.NOT(gone))]), 1, what, w)
    ck.same("columns:rows", terms.dim_of(fold.init, 0), terms.dim_of(data, 0), 1, what, w)
    ck.same("columns:number", terms.dim_of(fold.init, 1), sub(terms.dim_of(data, 1), num(1)), 1, what, w)


# ---------------------------------------------------------------- which way they are read
MODES = {"chain": "chain", "id_line": "idline"}


def dispatched(ck):
    """The mode named decides how particles are told apart; everything else is handed on as given."""
    f = ck.free("converter::csv_multi_converter")
    w = f["span"]
    tools = tuple((ck.fid(f"csv_multi_{n}::csv_multi_{n}"), n) for n in MODES.values())
    a = ck.run(f, sealed=tools)
    calls = [e for e in a.log if e.kind == "call" and e.name in MODES.values()]
    ck.ob("mode:refused", all(x in (arg(0),) or x.k != "arg" for at in B.atoms(a.ok) for t in at[1:] if isinstance(t, terms.T)
                              for x in subterms(t)), "nothing but the file decides whether it is refused", w,
          lambda: clip(core.gshow(a.ok)))
    for mode, what in MODES.items():
        asked = terms.eq(arg(9), mk("str", mode))
        asked = B.AND(asked, *[B.NOT(terms.eq(arg(9), mk("str", o))) for o in MODES if o != mode])
        here = [e for e in calls if terms.sat(B.AND(e.cond, a.ok, asked))]
        rule = "a file is read in the way named"
        ck.ob(f"mode:{mode}:what", len(here) >= 1 and all(e.name == what for e in here), rule, w,
              lambda: " ".join(e.name for e in here))
        ck.ob(f"mode:{mode}:once", all(not terms.sat(B.AND(x.cond, y.cond, asked))
                                       for k, x in enumerate(here) for y in here[:k]), "a file is read once", w)
        done = B.OR(*[e.cond for e in here]) if here else 0
        ck.implied(f"mode:{mode}:done", B.AND(a.ok, asked), done, rule, w)
        for e in here:
            given = ((e.obj,) if e.obj is not None else ()) + tuple(e.args)
            ck.ob(f"mode:{mode}:given", len(given) == 9, "what is given is handed on", e.sp)
            for k, x in enumerate(given):
                ck.same(f"mode:{mode}:given:{k}", x, arg(k), e.cond, "what is given is handed on", e.sp)
            ck.count("modes")
    ck.floor("modes", 2, "ways of telling particles apart")

"""What converters write: the records of every file or row, ordered and named as readers expect, and
the totals beside them."""

from functools import reduce

import core
import models
import terms
from core import B, clip, gshow, mk, num, show
from circulation import empty
from spec import arg, speed
from terms import (add, anyk, as_bool, cmp, div, fld, idx, is_variant, mk_bool, mk_case, mul, sub, subst,
                   subst_guard, subterms)

K = mk("gv", ("place",))


# ---------------------------------------------------------------- what is written
class Write:
    def __init__(self, e, home, name, value, kind):
        self.e, self.home, self.name, self.value, self.kind = e, home, name, value, kind


def word(t):
    return t.a[0] if t.k == "str" else None


def through(t):
    """What is inside results that were looked into."""
    while t is not None and t.k == "fld":
        t = t.a[0]
    return t


def called(t, *names):
    return t is not None and t.k == "call" and any(t.a[0].endswith(n) for n in names)


def home(t):
    """(the file or group a builder writes to, whether it builds an attribute)."""
    kind = "dataset"
    while called(t, "new_attr", "new_attr_builder", "new_dataset", "new_dataset_builder") or \
            t is not None and t.k == "call" and "Builder" in t.a[0]:
        if called(t, "new_attr", "new_attr_builder"):
            kind = "attribute"
        t = t.a[1]
    return t, kind


def writes(a):
    """Everything an analysis sees written to hdf5 files."""
    out = []
    for e in a.log:
        if e.kind != "call":
            continue
        if e.name.endswith("write_scalar") or e.name.endswith("::write"):
            c = through(e.obj)
            if called(c, "::create") and "Builder" in c.a[0]:
                where, kind = home(c.a[1])
                out.append(Write(e, where, word(c.a[2]), e.args[0], kind))
        elif e.name.endswith("::create") and "Builder" in e.name and called(e.obj, "with_data"):
            where, kind = home(e.obj.a[1])
            out.append(Write(e, where, word(e.args[0]), e.obj.a[2], kind))
    return out


def file_of(outname):
    return fld(mk("call", "hdf5::File::create", outname), "Ok", "0")


# ---------------------------------------------------------------- series followed over loops
class Fold:
    """A value changed by nested loops: its start, and how one innermost round changes it."""

    def __init__(self, t):
        self.levels = []
        while t.k == "fin":
            n, bodies, inits, gt = t.a
            self.levels.append((n, bodies, inits, as_bool(gt)))
            t = bodies[0]
        self.step = t
        n = self.levels[-1][0]
        self.state = mk("rec", n, 0)
        self.init = self.levels[0][2][0]
        self.ok = all(below[2][0] is mk("rec", above[0], 0)
                      for above, below in zip(self.levels, self.levels[1:]))

    def var(self, k):
        return mk("bv", self.levels[k][0])

    def runs(self, k):
        """The rounds of a loop, as far as what is refused on the way lets it."""
        return settled(self.levels[k][3])


def settled(g):
    """A guard assuming that files can be read and written, and nothing is refused for what came
    before."""
    g = B.exists(g, lambda at: at[0] in "EL" and came_before(at[1]))
    for v in sorted(B.support(g)):
        if B.vars[v][0] == "IS":
            lo, hi = B.cofactor(g, v, 0), B.cofactor(g, v, 1)
            g = hi if lo == 0 else lo if hi == 0 else g
    return g


# ---------------------------------------------------------------- vtk files
VTK = {"LegacyVTKConverter": "legacytools", "XMLVTKConverter": "xmltools"}
#: dataset -> numbers per particle
DATASETS = {"time": 0, "id": 1, "radius": 1, "ppcloud": 1, "particletype": 1, "velocity": 3, "position": 3}


def came_before(t, seen=None):
    """Whether a value is that of an earlier round of a loop it is in."""
    seen = {} if seen is None else seen
    if t not in seen:
        if t.k in ("rec", "phi"):
            seen[t] = {t.a[0] if t.k == "rec" else t}
        else:
            below = set().union(*[came_before(x, seen) for x in terms.children(t)])
            seen[t] = below - {t.a[0]} if t.k == "fin" else below
    return seen[t]


class Vtk:
    """The conversion of a list of vtk files, with reading and sorting left to the functions that do."""

    def __init__(self, ck, ty):
        self.ck, self.ty = ck, ty
        self.me, self.files, self.timestep, self.out, self.filter = map(arg, range(5))
        tools = VTK[ty]
        self.sealed = ((ck.fid(f"{tools}::get_field"), "field"), (ck.fid(f"{tools}::get_positions"), "points"),
                       (ck.fid("convertertools::make_sortlist"), "order"),
                       (ck.fid("convertertools::sort_by_array"), "ordered"))
        self.f = ck.method(ty, "write_hdf5_from_files")
        self.a = ck.run(self.f, sealed=self.sealed)
        self.w = self.f["span"]
        self.kind = (fld(self.me, "", "file_type"),) if ty.startswith("XML") else ()
        self.writes = writes(self.a)
        self.file = file_of(self.out)
        self.count = terms.dim_of(self.files, 0)

    def key(self, s):
        return f"{self.ty}:{s}"

    def name(self, what):
        """The field the caller named for something, if any."""
        return fld(self.me, "", f"{what}_field_name")

    def named(self, what):
        return is_variant(self.name(what), "Some")

    def field(self, i, what):
        return mk("call", "field", idx(self.files, (i,)), fld(self.name(what), "Some", "0"), *self.kind)

    def order(self, i):
        return mk("call", "order", self.field(i, "id"))

    def ordered(self, i, what):
        return mk("call", "ordered", what, self.order(i))

    def points(self, i):
        return mk("call", "points", idx(self.files, (i,)), *self.kind)

    def particles(self, i):
        return terms.dim_of(self.field(i, "id"), 0)

    def plain(self, t):
        """With as many values of everything as there are particles."""
        m = self.sizes(subterms(t))
        return thirds(subst(t, m) if m else t)

    def plainly(self, g):
        """A guard, told of as many values of everything as there are particles."""
        m = self.sizes(subterms(*terms.guard_terms(g)))
        g = subst_guard(g, m) if m else g
        m = {x: y for x in subterms(*terms.guard_terms(g)) if x.k == "idiv" for y in (thirds(x),) if y is not x}
        return subst_guard(g, m) if m else g

    def sizes(self, ts):
        m = {}
        for x in ts:
            if x.k == "dim" and x.a[1] == 0 and called(x.a[0], "ordered"):
                what = x.a[0].a[1]
                three = called(what, "points") or called(what, "field") and \
                    what.a[2] is fld(self.name("velocity"), "Some", "0")
                n = terms.dim_of(x.a[0].a[2].a[1], 0)
                m[x] = mul(num(3), n) if three else n
        return m

    def each(self, t, *at):
        """One value of what is recorded, as a value of the file it is from."""
        return self.values(idx(t, at))

    def values(self, t):
        for _ in range(4):
            m = {}
            for x in subterms(t):
                if x.k != "idx" or not called(x.a[0], "ordered") or len(x.a[1]) != 1:
                    continue
                what, order = x.a[0].a[1], x.a[0].a[2]
                e, = x.a[1]
                if isinstance(e, terms.T) and e.k == "flatpos":
                    size, (p, k) = e.a
                    if size[-1] is num(3):
                        m[x] = idx(what, (add(mul(num(3), idx(order, (p,))), k),))
                elif what.k == "ew" or called(what, "field") and what.a[2] is not fld(self.name("velocity"), "Some", "0"):
                    m[x] = idx(what, (idx(order, (e,)),))
            if not m:
                return t
            t = subst(t, m)
        return t

    def flat(self, f):
        """A round of a loop, with the values of particles as those of the files they are from."""
        f.step = written_out(self.values(f.step))
        return f

    def mean(self, key, w, at, needs):
        """A sum is divided by the number of particles of all files."""
        ck = self.ck
        got = idx(w.value, at)
        core = w.value
        while core.k in ("elemupd", "viewupd"):
            core = core.a[0]
        top = idx(core, at)
        for c in subterms(got):
            if c.k == "fin" and c is not core and got is div(top, c):
                f = Fold(c)
                if len(f.levels) == 1:
                    ck.ob(self.key(f"{key}:count:start"), f.init is num(0), "a mean is that of all particles", w.e.sp)
                    ck.same(self.key(f"{key}:count"), sub(self.plain(f.step), f.state), self.particles(f.var(0)), 1,
                            "a mean is that of all particles", w.e.sp)
                    ck.same_guard(self.key(f"{key}:count:files"), f.runs(0), cmp("Lt", f.var(0), self.count, True),
                                  needs, "a mean is that of all particles", w.e.sp)
                    ck.count("totals")
                    return
        ck.fail(self.key(f"{key}:mean"), "a mean is a sum over all particles by their number", w.e.sp, clip(show(got)))

    def stamp(self, t, i):
        """Whether this is the number the filter finds in the name of a file, times the timestep."""
        t = div(t, self.timestep)
        steps = []
        while t is not None and (t.k == "fld" or t.k == "call" and len(t.a) > 1):
            if t.k == "call":
                steps.append(t)
                t = t.a[1]
            else:
                t = t.a[0]
        caught = [x for x in steps if called(x, "Regex::captures")]
        groups = [x for x in steps if x not in caught and len(x.a) > 2]
        return len(caught) == 1 and caught[0].a[2] is idx(self.files, (i,)) and t is self.filter \
            and len(groups) == 1 and groups[0].a[2] is num(1) and any(called(x, "parse") for x in steps)


def vtk_records(ck):
    for ty in VTK:
        v = Vtk(ck, ty)
        inside = [w for w in v.writes if w.e.loops]
        loops = {w.e.loops for w in inside}
        if len(loops) != 1 or len(next(iter(loops))) != 1:
            ck.fail(v.key("loops"), "the records of files are written in one loop over them", v.w, str(loops))
        n, = next(iter(loops))
        i = mk("iv", n)
        loop = v.a.loops[n]
        back = loop["back"]
        by = {}
        for w in inside:
            if w.name in by or w.name not in DATASETS:
                ck.fail(v.key(f"written:{w.name}"), "each record is written once", w.e.sp)
            by[w.name] = w
        for nm, comps in DATASETS.items():
            if nm not in by:
                ck.fail(v.key(f"missing:{nm}"), "what readers look for is written for each file", v.w, nm)
            w = by[nm]
            ck.count("records")
            ck.ob(v.key(f"{nm}:dataset"), w.kind == "dataset", "records are datasets", w.e.sp)
            ck.implied(v.key(f"{nm}:always"), back, w.e.cond, "everything is written for every file", w.e.sp)
            group = through(w.home)
            ok = called(group, "create_group") and group.a[1] is v.file and numbered(group.a[2], "timestep ", i)
            ck.ob(v.key(f"{nm}:group"), ok, "the n-th file is recorded as timestep n, counted from zero", w.e.sp,
                  lambda: clip(show(w.home)))
        # everything but the refusals: all files, one after the other
        radius, diameter = v.named("radius"), v.named("diameter")
        needs = B.AND(v.named("id"), v.named("velocity"), B.OR(radius, diameter))
        first = B.NOT(cmp("Eq", v.count, num(0), True))
        rounds = B.AND(first, cmp("Lt", i, v.count, True))
        ck.same_guard(v.key("all"), settled(back), rounds, needs,
                      "every file given is converted, one after the other", v.w)
        refused = B.OR(*[e.cond for e in v.a.log if e.kind == "panic"])
        ck.implied(v.key("needs"), B.AND(back, rounds, B.NOT(refused)), needs, "the fields of identifiers, velocities and "
                   "radii or diameters have to be named", v.w)
        ck.same_guard(v.key("none"), settled(v.a.ok), first, 1, "a list without files is refused", v.w)
        # the time of each file
        t = by["time"].value
        ck.ob(v.key("time"), v.stamp(t, i), "the time of a file is the number the filter finds in its name "
              "times the timestep", by["time"].e.sp, lambda: clip(show(t)))
        late = [x for at in B.atoms(back) if at[0] in "EL" for x in before(at[1], loop, t, i)]
        ck.ob(v.key("order"), any(x for x in late) and any(
            terms.implies(B.AND(back, rounds), B.NOT(cmp("Lt", t, x, False))) for x in late),
            "files that go back in time are refused", v.w, lambda: clip(gshow(back)))
        # values of a particle, in the order of identifiers
        p, k = mk("gv", ("particle",)), mk("gv", ("component",))
        at = idx(v.order(i), (p,))
        one = lambda what: idx(v.field(i, what), (at,))
        want = {"id": one("id"), "radius": mk_case([(one("radius"), radius),
                                                    (mul(div(num(1), num(2)), one("diameter")), B.NOT(radius))]),
                "ppcloud": num(1),
                "particletype": mk_case([(one("type"), v.named("type")), (num(1), B.NOT(v.named("type")))]),
                "velocity": idx(v.field(i, "velocity"), (add(mul(num(3), at), k),)),
                "position": idx(v.points(i), (add(mul(num(3), at), k),))}
        for nm, x in want.items():
            w = by[nm]
            place = (p, k) if DATASETS[nm] == 3 else (p,)
            ck.same(v.key(f"{nm}:value"), v.each(w.value, *place), x, needs,
                    "every value is recorded for the particle it belongs to, particles in the order of their "
                    "identifiers", w.e.sp)
            size = terms.lift(lambda z: terms.dim_of(z, 0), w.value)
            ck.same(v.key(f"{nm}:particles"), v.plain(size), v.particles(i), needs,
                    "every particle of a file is recorded", w.e.sp)
            if DATASETS[nm] == 3:
                ck.same(v.key(f"{nm}:components"), terms.dim_of(w.value, 1), num(3), needs,
                        "vectors have three components", w.e.sp)
    ck.floor("records", 14, "datasets written per file")


def thirds(t):
    """Whole numbers divided by what they are multiples of."""
    m = {}
    for x in subterms(t):
        if x.k == "idiv" and terms.is_num(x.a[1]):
            p = terms.poly(x.a[0])
            d = terms.num_val(x.a[1])
            if all((c / d).denominator == 1 for c in p.values()):
                m[x] = div(x.a[0], x.a[1])
    return subst(t, m) if m else t


def numbered(t, prefix, i):
    """Whether a name is made of this and a number."""
    return models.spelled(t) is terms.words([prefix, i])


def before(q, loop, now, i):
    """The parts of a comparison that are, in each round, the value of the round before."""
    out = []
    for x in subterms(q):
        if x.k == "phi":
            places = [(x, ())]
        elif x.k == "idx" and x.a[0].k == "phi":
            places = [(x.a[0], x.a[1])]
        else:
            continue
        for var, at in places:
            cur = loop["cur"].get(var)
            if cur and (idx(cur[0], at) if at else cur[0]) is now:
                out.append(x)
    return out


#: names of files, with what they are taken for: any, modern only, or neither
NAMES = ["run_12.vtk", "x.vtu", "x.vtp", "x.txt", "x.hdf5", "vtk", "x.vtk.gz", "run_boundingBox3.vtk",
         "boundingBox.vtu", "x.vtu.bak", "xvtp", "x.csv"]


def vtk_folders(ck):
    for ty in VTK:
        f = ck.method(ty, "write_hdf5_from_folder")
        w = f["span"]
        a = ck.run(f, sealed=((ck.method(ty, "write_hdf5_from_files")["id"], "files"),))
        calls = [e for e in a.log if e.kind == "call" and e.name == "files"]
        if len(calls) != 1:
            ck.fail(f"{ty}:folder:convert", "the files of a folder are converted together", w, str(len(calls)))
        e = calls[0]
        ck.implied(f"{ty}:folder:always", a.ok, e.cond, "a folder is converted", e.sp)
        ck.same(f"{ty}:folder:fields", e.obj, arg(0), a.ok, "the fields named are used for every file", e.sp)
        for k, what in ((2, "timestep"), (3, "file written"), (4, "filter")):
            ck.same(f"{ty}:folder:{what}", e.args[k - 1], arg(k), a.ok, "a folder is converted as asked", e.sp)
        t = e.args[0]
        order = None
        while t.k == "mut":
            if "sort" in t.a[0]:
                order = t.a[-1]
            t = t.a[2]
        if t.k != "filtered":
            ck.fail(f"{ty}:folder:files", "the files converted are among those of the folder", e.sp, clip(show(t)))
        lv, name, gt, n, _ = t.a
        natural = False
        if order and len(order) == 1:
            c = order[0]
            if c.k == "closure":
                r = ck.run(ck.by_id(c.a[0])).ret
                natural = called(r, "natord::compare") and r.a[1:] == (arg(1), arg(2))
            else:
                natural = c.k == "fn" and str(c.a[0]).endswith("natord::compare")
        ck.ob(f"{ty}:folder:order", natural, "files are converted in the order of the numbers in their names",
              e.sp, lambda: clip(str(order)))
        listed = [x for x in subterms(name) if called(x, "fs::read_dir")]
        bv = mk("bv", lv)
        ck.ob(f"{ty}:folder:listed", bool(listed) and all(arg(1) in subterms(x) for x in listed)
              and bv in subterms(name), "the files converted are those of the folder given", e.sp,
              lambda: clip(show(name)))
        g = as_bool(gt)
        words = {at[1].a[2].a[0] for at in B.atoms(g) if at[0] == "P" and at[1].k == "call"
                 and len(at[1].a) == 3 and at[1].a[2].k == "str"}
        names = NAMES + [x for s in sorted(words) for x in (s, s + ".vtk", f"a{s}_2.vtu", f"{s}3.txt")]
        for nm in names:
            want = "boundingBox" not in nm and nm.endswith((".vtk", ".vtu", ".vtp") if ty.startswith("XML") else ".vtk")
            got = said(g, name, nm)
            ck.ob(f"{ty}:folder:{nm}", got == want, "files are told by the end of their names, boxes left out",
                  e.sp, lambda: f"{nm} is {'converted' if got else 'left out'}, seen from "
                  f"{'converted' if want else 'left out'}: {clip(gshow(g))}")
            ck.count("names")
    ck.floor("names", 24, "names of files")


def said(g, name, text):
    """What a guard about a text says of one text."""
    def value(at):
        t = at[1] if len(at) > 1 else None
        if at[0] == "P" and t.k == "call" and len(t.a) == 3 and t.a[1] is name and t.a[2].k == "str":
            w = t.a[2].a[0]
            for f, v in (("ends_with", text.endswith(w)), ("starts_with", text.startswith(w)),
                         ("contains", w in text)):
                if t.a[0].endswith("::" + f):
                    return int(v)
        return B.var(*at)
    g = B.compose(g, value)
    g = settled(g)
    return {0: False, 1: True}.get(g)


# ---------------------------------------------------------------- the totals of vtk files
HUGE = 10 ** 300


def listed(t):
    """A value where places in a list are their numbers."""
    m = {x: x.a[0][0] for x in subterms(t) if x.k == "ixs" and len(x.a[0]) == 1}
    return subst(t, m) if m else t


def written_out(t):
    """Sums over a few places, written out."""
    t = listed(t)
    m = {}
    for x in subterms(t):
        if x.k == "sum":
            bv, g = mk("bv", x.a[0]), as_bool(x.a[2])
            for n in range(1, 5):
                if terms.implies(g, cmp("Lt", bv, num(n), True)):
                    m[x] = reduce(add, [mk_case([(subst(x.a[1], {bv: num(k)}), h), (num(0), B.NOT(h))])
                                        for k in range(n) for h in (subst_guard(g, {bv: num(k)}),)])
                    break
    return subst(t, m) if m else t


def huge(t, sign):
    """Whether any number is further inside than this one."""
    if t.k == "const":
        return str(t.a[0]) == ("inf" if sign > 0 else "-inf")
    return terms.is_num(t) and terms.num_val(t) * sign > HUGE


def inner_fold(t):
    """The loops a recorded total was gathered in."""
    while t.k in ("elemupd", "viewupd"):
        t = t.a[0]
    return Fold(t) if t.k == "fin" else None


def rows(fold, ranges):
    """What is gathered over: each loop with the numbers it runs to."""
    if len(fold.levels) != len(ranges) or not fold.ok:
        return False
    return all(fold.runs(k) == cmp("Lt", fold.var(k), r, True) for k, r in enumerate(ranges))


def extreme(ck, key, fold, at_min, at_max, value, where, what, care=1):
    """The least and the largest of a value over all rounds."""
    for at, sign, op in ((at_min, 1, "Lt"), (at_max, -1, "Gt")):
        nm = "least" if sign > 0 else "largest"
        ck.ob(f"{key}:{nm}:start", huge(idx(fold.init, at), sign), f"the {nm} {what} is that of all", where,
              lambda: clip(show(idx(fold.init, at))))
        old = idx(fold.state, at)
        g = cmp(op, value, old, False)
        ck.same(f"{key}:{nm}", idx(fold.step, at), mk_case([(value, g), (old, B.NOT(g))]),
                B.AND(care, real(value, old)), f"the {nm} {what} is that of all rows", where)
        ck.count("totals")


def total(ck, key, fold, at, value, where, what, care=1):
    ck.same(f"{key}:start", idx(fold.init, at), num(0), 1, f"the mean {what} is that of all rows", where)
    ck.same(f"{key}:sum", idx(fold.step, at), add(idx(fold.state, at), value), care,
            f"the mean {what} is that of all rows", where)
    ck.count("totals")


def most(ck, key, t, many, size, plain, care, where):
    """A recorded number is that of the particles of every file, or more."""
    what = "the number of particles recorded is that of every file, or more"
    if t.k == "extr":
        bv = mk("bv", t.a[0])
        runs, start = settled(as_bool(t.a[3])), t.a[4]
        ck.ob(f"{key}:largest", t.a[1] == "max", what, where, lambda: clip(show(t)))
        steps = [(v, g, ()) for v, g in parts(plain(t.a[2]))]
    else:
        f = inner_fold(t)
        if f is None or len(f.levels) != 1:
            ck.fail(f"{key}:gathered", what, where, clip(show(t)))
        bv, runs, start = f.var(0), f.runs(0), f.init
        steps = [(v, g, (f.state,)) for v, g in parts(plain(f.step))]
    ck.same_guard(f"{key}:files", runs, cmp("Lt", bv, many, True), care, what, where)
    ck.ob(f"{key}:start", terms.is_num(start) and terms.num_val(start) >= 0, what, where, lambda: clip(show(start)))
    for u, g, state in steps:
        g = B.AND(terms.as_bool(plain(mk_bool(g))), runs, care)
        for low in (size(bv),) + state:
            ck.implied(f"{key}:{'before' if low in state else 'here'}", g, B.NOT(cmp("Lt", u, low, True)), what, where)


def vtk_totals(ck):
    for ty in VTK:
        v = Vtk(ck, ty)
        by = {}
        for w in v.writes:
            if not w.e.loops:
                by[w.kind[0] + ":" + str(w.name)] = w
                ck.implied(v.key(f"{w.name}:always"), v.a.ok, w.e.cond, "totals are written once all files are "
                           "converted", w.e.sp)
                ck.ob(v.key(f"{w.kind}:{w.name}:file"), w.home is v.file, "totals are written to the file asked for",
                      w.e.sp)
        for nm in ("a:dimensions", "a:velocity", "a:velocity magnitude", "a:time", "a:timesteps", "a:hdf5_up4_type",
                   "d:time array", "a:particle number"):
            if nm not in by:
                ck.fail(v.key(f"missing:{nm[2:]}"), "what readers look for is written", v.w, nm)
        here = lambda nm: by[nm].e.sp
        ck.same(v.key("type"), by["a:hdf5_up4_type"].value, num(1), 1, "files of timesteps are marked as such",
                here("a:hdf5_up4_type"))
        ck.same(v.key("timesteps"), by["a:timesteps"].value, v.count, v.a.ok, "there is a timestep for every file",
                here("a:timesteps"))
        needs = B.AND(v.named("id"), v.named("velocity"), B.OR(v.named("radius"), v.named("diameter")))

        def over(nm, inner):
            """The loops a total is gathered in: files, and the particles of each."""
            f = inner_fold(by[nm].value)
            if f is None or not f.ok or len(f.levels) != (2 if inner else 1):
                ck.fail(v.key(f"{nm[2:]}:gathered"), "totals are gathered from every particle of every file",
                        here(nm), clip(show(by[nm].value)))
            files(nm, f)
            if inner:
                g = v.plainly(f.levels[1][3])
                ck.same_guard(v.key(f"{nm[2:]}:particles"), g, cmp("Lt", f.var(1), v.particles(f.var(0)), True), 1,
                              "totals are gathered from every particle of a file", here(nm))
            return f

        def files(nm, f):
            ck.same_guard(v.key(f"{nm[2:]}:files"), f.runs(0), cmp("Lt", f.var(0), v.count, True), needs,
                          "totals are gathered from every file", here(nm))

        def component(what, f, k):
            at = idx(v.order(f.var(0)), (f.var(1),))
            src = v.points(f.var(0)) if what == "points" else v.field(f.var(0), what)
            return idx(src, (add(mul(num(3), at), num(k)),))

        f = over("a:dimensions", True)
        for k in range(3):
            extreme(ck, v.key(f"dimensions:{k}"), v.flat(f), (num(0), num(k)), (num(1), num(k)),
                    component("points", f, k), here("a:dimensions"), "position")
        f = over("a:velocity", True)
        for k in range(3):
            x = component("velocity", f, k)
            extreme(ck, v.key(f"velocity:{k}"), v.flat(f), (num(k), num(0)), (num(k), num(2)), x, here("a:velocity"),
                    "velocity")
            total(ck, v.key(f"velocity:{k}:mean"), v.flat(f), (num(k), num(1)), x, here("a:velocity"), "velocity")
            v.mean(f"velocity:{k}", by["a:velocity"], (num(k), num(1)), needs)
        f = over("a:velocity magnitude", True)
        x = speed([component("velocity", f, k) for k in range(3)])
        extreme(ck, v.key("speed"), v.flat(f), (num(0),), (num(2),), x, here("a:velocity magnitude"), "speed")
        total(ck, v.key("speed:mean"), v.flat(f), (num(1),), x, here("a:velocity magnitude"), "speed")
        v.mean("speed", by["a:velocity magnitude"], (num(1),), needs)
        # times: of the first and last file, and of each
        f = over("a:time", False)
        now = idx(f.step, (num(1),))
        ck.ob(v.key("time:last"), v.stamp(now, f.var(0)), "the last time is that of the last file", here("a:time"),
              lambda: clip(show(now)))
        start = cmp("Eq", f.var(0), num(0), True)
        ck.same(v.key("time:first"), idx(f.step, (num(0),)),
                mk_case([(now, start), (idx(f.state, (num(0),)), B.NOT(start))]), 1,
                "the first time is that of the first file", here("a:time"))
        f = over("d:time array", False)
        ck.ob(v.key("times"), f.step.k == "pushed" and f.step.a[0] is f.state and v.stamp(f.step.a[1], f.var(0))
              and empty(f.init), "the times are those of the files, one after the other", here("d:time array"),
              lambda: clip(show(f.step)))
        most(ck, v.key("particles"), by["a:particle number"].value, v.count, v.particles, v.plain, needs,
             here("a:particle number"))
        ck.count("totals", 3)
    ck.floor("totals", 46, "totals of vtk files")


# ---------------------------------------------------------------- ordering
def peel(t, part):
    """(what a list is sorted from, the orders it was sorted by), peeling stable sorts."""
    orders = []
    while t.k == "mut" and part in t.a[0]:
        orders.append((t.a[0].split("::")[-1], t.a[3]))
        t = t.a[2]
    return t, orders


def all_places(t, n):
    """Whether this lists every place, from the first on."""
    return t.k == "ew" and t.a[0] is anyk(0) and len(t.a[1]) == 1 and t.a[1][0] is n


def ascending(ck, key, orders, value, care, where):
    """The only sort applied is by this value of a place, least first."""
    x, y = mk("gv", ("one",)), mk("gv", ("other",))
    good = False
    if len(orders) == 1 and len(orders[0][1]) == 1 and orders[0][1][0].k == "closure":
        how, (c,) = orders[0]
        f = ck.by_id(c.a[0])
        if how.endswith("_by_key"):
            good = core.differ(ck.run(f, (c, x)).ret, value(x), care) is None
        elif how.endswith("_by"):
            r = ck.run(f, (c, x, y)).ret
            care = B.AND(care, *[B.NOT(terms.is_nan(value(q))) for q in (x, y)])
            sides = [(terms.as_bool(mk_bool(g)), n.a[1]) for n, g in (r.a[0] if r.k == "case" else ())
                     if n.k == "adt"]
            less = B.OR(*[g for g, n in sides if n == "Less"])
            more = B.OR(*[g for g, n in sides if n == "Greater"])
            good = core.same_guard(less, cmp("Lt", value(x), value(y), False), care) and \
                core.same_guard(more, cmp("Gt", value(x), value(y), False), care) or \
                core.same_guard(less, cmp("Lt", value(x), value(y), True), care) and \
                core.same_guard(more, cmp("Gt", value(x), value(y), True), care)
    ck.ob(f"{key}:ascending", good, "what is sorted is in ascending order afterwards", where,
          lambda: clip(str([(h, [show(z) for z in a]) for h, a in orders])))


def sorting(ck):
    """The order of identifiers, and what bringing values into it does."""
    f = ck.free("convertertools::make_sortlist")
    a = ck.run(f)
    t, orders = peel(a.ret, "sort")
    ck.ob("order:places", all_places(t, terms.dim_of(arg(0), 0)), "every particle has its place in the order",
          f["span"], lambda: clip(show(t)))
    ascending(ck, "order", orders, lambda x: idx(arg(0), (x,)), 1, f["span"])
    f = ck.free("convertertools::sort_by_array")
    a = ck.run(f)
    w = f["span"]
    n = terms.dim_of(arg(1), 0)
    same = cmp("Eq", terms.dim_of(arg(0), 0), n, True)
    p = mk("gv", ("particle",))
    one = core.B and mk_case([(v, c) for v, c in parts(a.ret) if terms.sat(B.AND(c, same))])
    ck.same("ordered:value", idx(one, (p,)), idx(arg(0), (idx(arg(1), (p,)),)), B.AND(same, cmp("Lt", p, n, True)),
            "values are those of the places of the order, one after the other", w)
    ck.same("ordered:length", terms.dim_of(one, 0), n, same, "there are as many values as places", w)
    for v, c in parts(a.ret):
        if not terms.sat(B.AND(c, B.NOT(same))):
            continue
        fold = Fold(v) if v.k == "fin" else None
        good = fold is not None and len(fold.levels) == 1 and empty(fold.init) and \
            core.same_guard(fold.runs(0), cmp("Lt", fold.var(0), n, True), 1)
        if good:
            t, k = fold.step, 2
            while t.k == "pushed" and k >= 0:
                x = idx(arg(0), (add(mul(num(3), idx(arg(1), (fold.var(0),))), num(k)),))
                good &= core.differ(t.a[1], x) is None
                t, k = t.a[0], k - 1
            good &= t is fold.state and k == -1
        ck.ob("ordered:vectors", good, "vectors are those of the places of the order, component by component", w,
              lambda: clip(show(v)))
        ck.count("orders")
    ck.count("orders", 2)
    ck.floor("orders", 3, "orders")


def parts(t):
    return t.a[0] if t.k == "case" else ((t, 1),)


# ---------------------------------------------------------------- reading vtk files
KINDS = ("PolyData", "UnstructuredGrid")


def vtk_reading(ck):
    modern(ck)
    old(ck)
    ck.floor("fields", 6, "ways of reading fields and positions")


def source(t, kind):
    """(what a list of pieces is loaded from, whether all pieces are loaded), of a file of this kind."""
    if t.k != "fld" or t.a[2] != "pieces" or t.a[1] != kind:
        return None
    t = t.a[0]
    if t.k != "fld" or t.a[2] != "data":
        return None
    t = t.a[0]
    while t.k == "mut" and t.a[0].endswith("load_all_pieces"):
        t = t.a[2]
    return t


def opened(name):
    return fld(mk("call", "vtkio::model::Vtk::import", name), "Ok", "0")


def loaded(t):
    """The piece a piece's data was loaded from."""
    c = t.a[0] if t.k == "fld" and t.a[1:] == ("Ok", "0") else None
    return c.a[1] if called(c, "load_piece_data") else None


def cast(t):
    """What was cast into the numbers asked for."""
    c = t.a[0] if t.k == "fld" and t.a[1:] == ("Some", "0") else None
    return c.a[1] if called(c, "cast_into") else None


def strip(t):
    while t is not None and t.k in ("clone", "fresh"):
        t = t.a[0]
    return t


def appended(step, state):
    """(what is appended, under which condition); nothing else happens."""
    out = []
    for v, c in parts(step):
        if v is state:
            continue
        if v.k == "mut" and v.a[0].split("::")[-1] in ("append", "extend") and v.a[2] is state and len(v.a[3]) == 1:
            out.append((v.a[3][0], c))
        else:
            return None
    return out


def modern(ck):
    for what in ("get_field", "get_positions"):
        f = ck.free(f"xmltools::{what}")
        a = ck.run(f)
        w = f["span"]
        field = what == "get_field"
        kind = arg(2 if field else 1)
        at = opened(arg(0))
        seen = set()
        for v, c in parts(a.ret):
            for k in KINDS:
                if not terms.sat(B.AND(c, is_variant(kind, k), settled_kinds(kind, k))):
                    continue
                key = f"modern:{what[4:]}:{k}"
                fold = Fold(v) if v.k == "fin" else None
                if fold is None or not fold.ok or len(fold.levels) != (2 if field else 1) or not empty(fold.init):
                    ck.fail(f"{key}:pieces", "values are read from every piece of a file", w, clip(show(v)))
                got = appended(fold.step, fold.state)
                if got is None or len(got) != 1:
                    ck.fail(f"{key}:values", "values of one piece follow those of another", w, clip(show(fold.step)))
                value, cond = got[0]
                x = strip(cast(value))
                piece = None
                if field:
                    ok = x is not None and x.k == "fld" and x.a[2] == "data"
                    array = x.a[0] if ok else None
                    attribute = array.a[0] if ok and array.k == "fld" and array.a[1] == "DataArray" else None
                    ok = attribute is not None and attribute.k == "idx" and attribute.a[1] == (fold.var(1),)
                    places = attribute.a[0] if ok else None
                    ok = ok and places.k == "fld" and places.a[2] == "point" and places.a[0].k == "fld" \
                        and places.a[0].a[2] == "data"
                    if ok:
                        piece = loaded(places.a[0].a[0])
                        named = [z for z in subterms(*terms.guard_terms(cond)) if called(z, "Attribute::name")]
                        ck.ob(f"{key}:name", len(named) == 1 and named[0].a[1] is attribute and core.same_guard(
                            cond, B.AND(equal_text(cond, named[0], arg(1)), is_variant(attribute, "DataArray")), 1),
                            "values are those of the field of the name asked for, and of no other", w,
                            lambda: clip(gshow(cond)))
                        ck.same_guard(f"{key}:all", fold.runs(1), cmp("Lt", fold.var(1), terms.dim_of(places, 0), True),
                                      1, "fields are looked for among all of a piece", w)
                else:
                    ok = x is not None and x.k == "fld" and x.a[2] == "points" and cond == 1
                    piece = loaded(x.a[0]) if ok else None
                ok = ok and piece is not None and piece.k == "idx" and piece.a[1] == (fold.var(0),) and \
                    source(piece.a[0], k) is at
                ck.ob(f"{key}:source", ok, "values are those at the points of the file's pieces", w,
                      lambda: clip(show(value)))
                if ok:
                    ck.same_guard(f"{key}:pieces", fold.runs(0),
                                  cmp("Lt", fold.var(0), terms.dim_of(piece.a[0], 0), True), 1,
                                  "values are read from every piece of a file", w)
                    ck.implied(f"{key}:kind", B.AND(a.ok, is_variant(kind, k)), is_variant(piece.a[0].a[0], k),
                               "files of another kind than asked for are refused", w)
                seen.add(k)
                ck.count("fields")
        ck.ob(f"modern:{what[4:]}:kinds", seen == set(KINDS), "files of both kinds are read", w, str(seen))


def settled_kinds(kind, k):
    """A file is asked for as of one kind."""
    return B.AND(*[B.NOT(is_variant(kind, o)) for o in KINDS if o != k])


def equal_text(g, t, to):
    """The condition of a guard that two texts are the same."""
    for at in B.atoms(g):
        if at[0] == "EQ" and set(at[1:]) == {t, to}:
            return B.var(*at)
    return 0


def old(ck):
    at = opened(arg(0))
    f = ck.free("legacytools::get_positions")
    a = ck.run(f)
    x = strip(cast(a.ret))
    piece = loaded(x.a[0]) if x is not None and x.k == "fld" and x.a[2] == "points" else None
    first(ck, "old:positions", a, piece, at, f["span"])
    f = ck.free("legacytools::get_field")
    a = ck.run(f)
    w = f["span"]
    x = strip(cast(a.ret))
    ok = x is not None and x.k == "fld" and x.a[2] == "data" and x.a[0].k == "idx"
    if not ok:
        ck.fail("old:field:values", "values are those of a field of the file", w, clip(show(a.ret)))
    fields, (which,) = x.a[0].a
    block = fields.a[0] if fields.k == "fld" and fields.a[1:] == ("Field", "data_array") else None
    ok = block is not None and block.k == "idx" and block.a[1] == (num(0),) and block.a[0].k == "fld" \
        and block.a[0].a[2] == "point" and block.a[0].a[0].k == "fld" and block.a[0].a[0].a[2] == "data"
    piece = loaded(block.a[0].a[0].a[0]) if ok else None
    first(ck, "old:field", a, piece, at, w)
    if which.k != "first":
        ck.fail("old:field:name", "values are those of the field of the name asked for", w, clip(show(which)))
    bv = mk("bv", which.a[0])
    name = fld(idx(fields, (bv,)), "", "name")
    g = as_bool(which.a[1])
    range_ = cmp("Lt", bv, terms.dim_of(fields, 0), True)
    ck.same_guard("old:field:name", g, B.AND(range_, equal_text(g, name, arg(1))), 1,
                  "values are those of the field of the name asked for", w)
    some = [z for z in B.atoms(a.ok) if z[0] == "EX" and z[1] == which.a[0] and as_bool(z[2]) == g] \
        if which.k == "first" else []
    ck.ob("old:field:missing", bool(some) and terms.implies(a.ok, B.var(*some[0])),
          "a field that a file does not have is refused", w, lambda: clip(gshow(a.ok)))


def first(ck, key, a, piece, at, w):
    ok = piece is not None and piece.k == "idx" and piece.a[1] == (num(0),) and source(piece.a[0], "PolyData") is at
    ck.ob(f"{key}:source", ok, "values are those at the points of the file", w, lambda: clip(show(a.ret)))
    if ok:
        ck.implied(f"{key}:kind", a.ok, is_variant(piece.a[0].a[0], "PolyData"),
                   "files of another kind are refused", w)
    ck.count("fields")


# ---------------------------------------------------------------- rows of csv files
ROWS = mk("in", "rows")
CSV = ("filename", "outname", "columns", "delimiter", "header", "comment", "vel", "interpolate", "radius", "steps")


class Kept:
    """What is gathered from rows, where some are left out."""

    def __init__(self, fold, rows, keep):
        n, bodies, inits, _ = fold.levels[-1]
        self.bv = fold.var(-1)
        self.recs = [mk("rec", n, j) for j in range(len(bodies))]
        self.bodies, self.inits, self.rows = bodies, inits, rows
        self.keep = None
        for r, b, z in zip(self.recs, bodies, inits):
            g = B.NOT(cmp("Le", idx(rows, (self.bv, num(0))), r, False))
            now = idx(rows, (self.bv, num(0)))
            if (huge(z, -1)) and core.differ(b, mk_case([(now, g), (r, B.NOT(g))]), real(now, r)) is None:
                self.keep = g
                self.care = real(now, r)

    def counts(self, e, at_end=False):
        """Whether a number is that of the rows kept so far."""
        if at_end:
            m = {terms.dim_of(self.rows, 0): self.bv}
            e = subst(e, m)
        start = subst(e, {self.bv: num(0), **dict(zip(self.recs, self.inits))})
        nxt = subst(e, {self.bv: add(self.bv, num(1)), **dict(zip(self.recs, self.bodies))})
        return start is num(0) and \
            core.differ(nxt, mk_case([(add(e, num(1)), self.keep), (e, B.NOT(self.keep))]), self.care) is None


def real(*xs):
    return B.AND(*[B.NOT(terms.is_nan(x)) for x in xs])


def keeps_size(f):
    """Whether a loop only writes into an array."""
    return f.ok and all(core_of(u) is f.state for u, _ in parts(f.step))


def kept_count(e, rows):
    """Whether a number is that of all rows kept."""
    e = subst(e, {x: terms.dim_of(Fold(x.a[0]).init, x.a[1]) for x in subterms(e) if x.k == "dim"
                  and x.a[0].k == "fin" and keeps_size(Fold(x.a[0]))})
    fins = [x for x in subterms(e) if x.k == "fin"]
    tops = [x for x in fins if not any(x is not y and x in subterms(y) for y in fins)]
    if len(tops) != 1:
        return False
    f = Fold(tops[0])
    if len(f.levels) != 1:
        return False
    k = Kept(f, rows, None)
    if k.keep is None or not core.same_guard(f.runs(0), cmp("Lt", k.bv, terms.dim_of(rows, 0), True), 1):
        return False
    return k.counts(subst(e, {tops[0]: f.state}), True)


def csv_modes(ck):
    """(name, outcome, rows as they were read, what the rows worked on have to be) of each way rows are
    prepared: with or without interpolation and derived velocities."""
    f = ck.free("converter::csv_converter")
    tools = {n: ck.fid(f"convertertools::{n}") for n in
             ("interpolate", "velocity_polynom", "sort_by_column", "is_sorted")}
    sealed = tuple((v, k) for k, v in tools.items()) + \
        ((ck.fid("velocity_paralell::velocity_polynom_parallel"), "velocity_polynom"),)
    for vel in (0, 1):
        for smooth in (0, 1):
            args = [arg(k) for k in range(len(CSV))]
            args[6], args[7] = mk_bool(vel), mk_bool(smooth)
            a = ck.run(f, args, sealed=sealed)
            at = {x for e in a.log for x in B.atoms(e.cond) if x[0] == "P" and called(x[1], "is_sorted")}
            if len(at) > 1:
                ck.fail("csv:sorted", "rows are looked at once for whether they are in order", f["span"])
            b = None
            if at:
                g = B.var(*next(iter(at)))
                a, b = ck.run(f, args, B.NOT(g), sealed=sealed), ck.run(f, args, g, sealed=sealed)
            yield f"{'derived' if vel else 'given'}:{'even' if smooth else 'measured'}", vel, smooth, a, b, at


def csv_rows(ck):
    for name, vel, smooth, a, b, at in csv_modes(ck):
        key = f"csv:{name}"
        w = a.fn["span"]
        ws = writes(a)
        every = [x for z in ws for x in subterms(z.value)]
        inorder = [x for x in set(every) if called(x, "sort_by_column")]
        if len(inorder) != 1:
            ck.fail(f"{key}:order", "rows are worked on in the order of time", w, str(len(inorder)))
        t = inorder[0]
        read = t.a[1]
        ck.ob(f"{key}:order", t.a[2] is num(0), "rows are worked on in the order of time", w, lambda: clip(show(t.a[2])))
        if at:
            x = next(iter(at))[1].a[1]
            times = idx(read, (mk("gv", ("row",)), num(0)))
            ck.same(f"{key}:ordered", idx(x, (mk("gv", ("row",)),)), times, 1,
                    "rows are left as they are only where their times are in order", w)
        # the columns asked for, of the file asked for
        r, c = mk("gv", ("row",)), mk("gv", ("column",))
        raws = [x for x in subterms(read) if called(x, "deserialize_array2_dynamic")]
        if len(raws) != 1:
            ck.fail(f"{key}:read", "rows are read from one file", w)
        raw = fld(raws[0], "Ok", "0")
        columns = terms.dim_of(arg(2), 0)
        has = cmp("Lt", c, columns, True)
        ck.same(f"{key}:columns", idx(read, (r, c)), idx(raw, (r, idx(arg(2), (c,)))), has,
                "the columns asked for are read, in the order asked for", w)
        ck.same(f"{key}:rows", terms.dim_of(read, 0), terms.dim_of(raw, 0), 1, "every row is read", w)
        settings(ck, key, raws[0], w)
        # what is worked on
        rows = t
        if smooth:
            got = [x for x in set(every) if called(x, "interpolate")]
            if len(got) != 1:
                ck.fail(f"{key}:even", "rows are spread evenly over time where asked to", w)
            s = got[0]
            times = sub(idx(t, (r, num(0))), idx(t, (num(0), num(0))))
            ck.same(f"{key}:even:start", idx(s.a[1], (r, num(0))), times, 1, "times are counted from the first row", w)
            ck.same(f"{key}:even:rest", idx(s.a[1], (r, c)), idx(t, (r, c)), cmp("Gt", c, num(0), True),
                    "positions are left as they are", w)
            last = sub(terms.dim_of(t, 0), num(1))
            ck.same(f"{key}:even:span", s.a[2], sub(idx(t, (last, num(0))), idx(t, (num(0), num(0)))), 1,
                    "rows are spread over the time of the recording", w)
            ck.same(f"{key}:even:steps", s.a[3], terms.dim_of(t, 0), 1, "there are as many rows as there were", w)
            rows = s
        if vel:
            got = [x for x in set(every) if called(x, "velocity_polynom")]
            if len(got) != 1:
                ck.fail(f"{key}:derived", "velocities are derived where asked to", w)
            s = got[0]
            ck.same(f"{key}:derived", s.a[1], rows, 1, "velocities are derived from the rows", w)
            ck.same(f"{key}:derived:steps", s.a[2], arg(9), 1, "velocities are derived from as many rows as asked for", w)
            ck.ob(f"{key}:derived:degree", s.a[3] is num(2), "a parabola is fitted", w)
            rows = s
            ck.implied(f"{key}:derived:columns", a.ok, cmp("Lt", columns, num(5), True),
                       "velocities are not derived where they are given", w)
        ck.implied(f"{key}:velocity", a.ok, B.NOT(terms.is_nan(idx(rows, (num(0), num(6))))),
                   "rows without velocities are refused", w)
        ck.implied(f"{key}:some", a.ok, B.NOT(cmp("Eq", columns, num(0), True)), "reading no columns is refused", w)
        kept_rows(ck, key, a, ws, rows, w)
        if b is not None:
            # the same, where the rows were in order already
            other = {(z.kind, z.name): z for z in writes(b)}
            for z in ws:
                o = other.get((z.kind, z.name))
                ck.same(f"{key}:{z.kind}:{z.name}:ordered", o and o.value, subst(z.value, {t: read}), b.ok,
                        "rows that are in order are treated as those put in order", w)
                ck.count("writes")
    ck.floor("writes", 60, "values written")


def settings(ck, key, raw, w, filename=arg(0), delimiter=3, header=4, comment=5):
    """How a csv file is read."""
    got, t = {}, raw
    while t is not None:
        t = through(t)
        if t.k != "call":
            break
        got[t.a[0].split("::")[-1]] = t.a[2:]
        t = t.a[1] if len(t.a) > 1 else None
    byte = lambda x: idx(mk("call", "core::str::<impl str>::as_bytes", x), (num(0),))
    want = {"from_path": filename, "has_headers": arg(header), "delimiter": byte(arg(delimiter)), "comment": None}
    for nm, x in want.items():
        have = got.get(nm)
        y = fld(have[0], "Some", "0") if nm == "comment" and have else have and have[0]
        ck.ob(f"{key}:{nm}", bool(have) and y is (byte(arg(comment)) if nm == "comment" else x),
              "a file is read with the delimiter, comments and header given", w,
              lambda: clip(str(have and show(have[0]))))


def changes(t, state):
    """The places a round writes, with what it writes there, if that is all it does."""
    out = {}
    while t.k in ("elemupd", "viewupd"):
        if t.k == "elemupd":
            out.setdefault(t.a[1], t.a[2])
        else:
            # a whole row at once
            row, cols = (tuple(t.a[1]) + (("?",),) * 2)[:2]
            width = terms.dim_of(t.a[2], 0)
            if row[0] != "ix" or cols[0] != "all" or not terms.is_num(width):
                return None
            for k in range(int(terms.num_val(width))):
                out.setdefault((row[1], num(k)), idx(t.a[2], (num(k),)))
        t = t.a[0]
    return out if t is state else None


def kept_array(ck, key, v, rows, comps, where):
    """An array holds the rows kept, each at the next free place."""
    core_ = v.a[0] if v.k == "view" else v
    f = Fold(core_) if core_.k == "fin" else None
    kept = f and len(f.levels) == 1 and Kept(f, rows, None)
    if not kept or kept.keep is None:
        ck.fail(f"{key}:kept", "rows are kept that are later than the one kept before", where, clip(show(v)))
    ck.same_guard(f"{key}:all", f.runs(0), cmp("Lt", kept.bv, terms.dim_of(rows, 0), True), 1,
                  "every row is looked at", where)
    for u, c in parts(f.step):
        c = B.AND(c, kept.care)
        if terms.sat(B.AND(c, B.NOT(kept.keep))):
            ck.ob(f"{key}:left", u is f.state, "rows that are left out leave no trace", where, lambda: clip(show(u)))
        if not terms.sat(B.AND(c, kept.keep)):
            continue
        got = changes(u, f.state)
        places = {p[0] for p in got} if got else set()
        good = len(places) == 1 and all(len(p) == (1 if len(comps) == 1 else 2) for p in got)
        if good:
            e, = places
            want = {(e,) if len(comps) == 1 else (e, num(n)): idx(rows, (kept.bv, num(x)))
                    for n, x in enumerate(comps)}
            good = kept.counts(e) and set(want) == set(got) and all(
                core.differ(got[p], x, B.AND(c, kept.keep)) is None for p, x in want.items())
        ck.ob(f"{key}:value", good, "a row that is kept is recorded after those kept before, its time, "
              "position and velocity at the same place", where, lambda: clip(show(u)))
        ck.count("arrays")
    size = terms.dim_of(v, 0)
    ck.ob(f"{key}:length", kept_count(size, rows), "what is recorded is as long as rows were kept", where,
          lambda: clip(show(size)))


def kept_rows(ck, key, a, ws, rows, w):
    by = {}
    for z in ws:
        k = f"{z.kind[0]}:{z.name}"
        if k in by:
            ck.fail(f"{key}:{k}:once", "each record is written once", z.e.sp)
        by[k] = z
        ck.implied(f"{key}:{k}:always", a.ok, z.e.cond, "everything is written for every file", z.e.sp)
        ck.ob(f"{key}:{k}:file", through(z.home) is not None and (z.home is file_of(arg(1)) or (
            called(through(z.home), "create_group") and through(z.home).a[1] is file_of(arg(1)))),
            "records are written to the file asked for", z.e.sp)
    for k in ("d:time", "d:position", "d:velocity", "d:id", "d:radius", "d:ppcloud", "d:particletype",
              "d:time array", "a:dimensions", "a:velocity", "a:velocity magnitude", "a:timesteps", "a:time",
              "a:hdf5_up4_type", "a:particle number"):
        if k not in by:
            ck.fail(f"{key}:{k}:written", "what readers look for is written", w)
    m = {rows: ROWS}
    val = {k: subst(z.value, m) for k, z in by.items()}
    here = {k: z.e.sp for k, z in by.items()}
    grouped = {z.home for k, z in by.items() if k[2:] in ("time", "position", "velocity", "id", "radius", "ppcloud",
                                                          "particletype") and k[0] == "d"}
    home = through(next(iter(grouped)))
    ck.ob(f"{key}:group", len(grouped) == 1 and called(home, "create_group") and
          numbered(home.a[2], "particle ", num(0)), "rows are recorded as those of particle 0", w)
    ck.ob(f"{key}:type", val["a:hdf5_up4_type"] is num(2), "files of trajectories are marked as such", w)
    ck.ob(f"{key}:particles", val["a:particle number"] is num(1), "there is one particle", w)
    for k, comps in (("d:time", (0,)), ("d:time array", (0,)), ("d:position", (1, 2, 3)), ("d:velocity", (4, 5, 6))):
        kept_array(ck, f"{key}:{k}", val[k], ROWS, comps, here[k])
    for k, x in (("d:id", num(1)), ("d:radius", arg(8)), ("d:ppcloud", num(1)), ("d:particletype", num(1))):
        v = val[k]
        ck.same(f"{key}:{k}:value", idx(v, (mk("gv", ("row",)),)), x, 1,
                "a particle of a trajectory has one identifier, type and the radius given", here[k])
        size = terms.dim_of(v, 0)
        ck.ob(f"{key}:{k}:length", kept_count(size, ROWS), "there is a value for every row kept", here[k],
              lambda: clip(show(size)))
        ck.count("arrays")
    ck.ob(f"{key}:timesteps", kept_count(val["a:timesteps"], ROWS), "there are as many timesteps as rows kept",
          here["a:timesteps"], lambda: clip(show(val["a:timesteps"])))
    # totals of the rows kept
    row = lambda kept, n: idx(ROWS, (kept.bv, num(n)))

    def fold(k):
        f = inner_fold(val[k])
        kept = f and len(f.levels) == 1 and Kept(f, ROWS, None)
        if not kept or kept.keep is None:
            ck.fail(f"{key}:{k}:kept", "totals are those of the rows kept", here[k], clip(show(val[k])))
        for u, c in parts(f.step):
            if terms.sat(B.AND(c, B.NOT(kept.keep), kept.care)):
                ck.ob(f"{key}:{k}:left", u is f.state, "rows that are left out do not count", here[k],
                      lambda: clip(show(u)))
        f.step = written_out(f.step)
        kept.only = B.AND(kept.keep, kept.care)
        return f, kept

    f, kept = fold("a:dimensions")
    for n in range(3):
        extreme(ck, f"{key}:dimensions:{n}", f, (num(0), num(n)), (num(1), num(n)), row(kept, 1 + n),
                here["a:dimensions"], "position", kept.only)
    f, kept = fold("a:time")
    extreme(ck, f"{key}:time", f, (num(0),), (num(1),), row(kept, 0), here["a:time"], "time", kept.only)
    f, kept = fold("a:velocity")
    for n in range(3):
        extreme(ck, f"{key}:velocity:{n}", f, (num(n), num(0)), (num(n), num(2)), row(kept, 4 + n), here["a:velocity"],
                "velocity", kept.only)
        total(ck, f"{key}:velocity:{n}:mean", f, (num(n), num(1)), row(kept, 4 + n), here["a:velocity"], "velocity", kept.only)
        averaged(ck, f"{key}:velocity:{n}", val["a:velocity"], (num(n), num(1)), here["a:velocity"])
    f, kept = fold("a:velocity magnitude")
    x = speed([row(kept, 4 + n) for n in range(3)])
    extreme(ck, f"{key}:speed", f, (num(0),), (num(2),), x, here["a:velocity magnitude"], "speed", kept.only)
    total(ck, f"{key}:speed:mean", f, (num(1),), x, here["a:velocity magnitude"], "speed", kept.only)
    averaged(ck, f"{key}:speed", val["a:velocity magnitude"], (num(1),), here["a:velocity magnitude"])


def core_of(t):
    while t.k in ("elemupd", "viewupd"):
        t = t.a[0]
    return t


def averaged(ck, key, value, at, where):
    got, top = idx(value, at), idx(core_of(value), at)
    n = div(top, got)
    ck.ob(f"{key}:mean:count", kept_count(n, ROWS), "a mean is that of the rows kept", where, lambda: clip(show(n)))


def fitted(ck):
    """Velocities derived from positions."""
    f = ck.free("converter::convertertools::velocity_polynom")
    w = f["span"]
    a = ck.run(f)
    data, steps, degree = arg(0), arg(1), arg(2)
    x, y = mk("gv", ("row",)), mk("gv", ("step",))
    half = mk("idiv", sub(steps, num(1)), num(2))
    odd = B.NOT(cmp("Eq", mk("rem", steps, num(2)), num(0), True))
    ck.implied("velocities:odd", a.ok, odd, "a number of steps that has no middle is refused", w)
    n = terms.dim_of(data, 0)
    inside = B.AND(odd, cmp("Lt", x, sub(n, mul(num(2), half)), True))
    ck.ob("velocities:rows", any(terms.dim_of(a.ret, 0) is r for r in (sub(n, sub(steps, num(1))),
                                                                      sub(n, mul(num(2), half)))),
          "there is a row for every row with enough rows around it", w, lambda: clip(show(terms.dim_of(a.ret, 0))))
    for c in range(4):
        ck.same(f"velocities:{c}", idx(a.ret, (x, num(c))), idx(data, (add(x, half), num(c))), inside,
                "times and positions are those of the middle row", w)
        ck.count("columns")
    for c in range(3):
        at = idx(a.ret, (x, num(4 + c)))
        got = [v for v, g in parts(at) if terms.sat(B.AND(g, inside))]
        fits = {s for v in got for s in subterms(v) if called(s, "polyfit")}
        fits = {s for s in fits if not any(s is not o and s in subterms(o) for o in fits)}
        if len(got) != 1 or len(fits) != 1:
            ck.fail(f"velocities:{4 + c}:fit", "a velocity is that of a curve through the positions", w, clip(show(at)))
        fit, = fits
        times, places = fit.a[1], fit.a[2]
        for nm, t in (("times", times), ("positions", places)):
            size = terms.dim_of(t, 0)
            ck.same(f"velocities:{4 + c}:{nm}:many", size, add(num(1), mul(num(2), half)), odd,
                    "a curve goes through as many rows as asked for", w)
        g = B.AND(inside, cmp("Lt", y, steps, True))
        ck.same(f"velocities:{4 + c}:positions", idx(places, (y,)), idx(data, (add(x, y), num(1 + c))), g,
                "a curve goes through the positions around its row", w)
        shift = sub(listed(idx(times, (y,))), idx(data, (add(x, y), num(0))))
        ck.ob(f"velocities:{4 + c}:times", y not in subterms(shift),
              "a curve goes through positions at their times", w, lambda: clip(show(idx(times, (y,)))))
        ck.ob(f"velocities:{4 + c}:degree", fit.a[3] is degree, "a curve has the degree asked for", w)
        ck.ob(f"velocities:{4 + c}:slope", slope(listed(got[0]), listed(fld(fit, "Ok", "0")), listed(idx(times, (half,)))),
              "a velocity is the slope of the curve at the time of its row", w, lambda: clip(show(got[0])))
        ck.count("columns")
    ck.floor("columns", 7, "columns of derived velocities")


def slope(v, coefficients, at):
    """Whether a value is the slope of a polynomial."""
    if v.k != "sum":
        return False
    n, body, guard = mk("bv", v.a[0]), v.a[1], as_bool(v.a[2])
    for o in (0, 1):
        k = add(n, num(o))
        power = sub(k, num(1))
        if core.same_guard(guard, cmp("Lt", k, terms.dim_of(coefficients, 0), True), 1) and any(
                body is mul(mul(idx(coefficients, (k,)), k), mk("call", p, at, power))
                or body is mul(mul(idx(coefficients, (k,)), k), mk(p, at, power)) for p in ("powf", "powi")):
            return True
    return False


def between(data, p, q, c, t):
    """The ways of writing where a line through two rows is at a time."""
    at = lambda r, k: idx(data, (r, num(k)))
    far = sub(at(q, 0), at(p, 0))
    yield add(at(p, c), mul(div(sub(at(q, c), at(p, c)), far), sub(t, at(p, 0))))
    yield add(at(p, c), div(mul(sub(at(q, c), at(p, c)), sub(t, at(p, 0))), far))
    yield div(add(mul(at(p, c), sub(at(q, 0), t)), mul(at(q, c), sub(t, at(p, 0)))), far)


def even(ck):
    """Positions at evenly spaced times."""
    f = ck.free("converter::convertertools::interpolate")
    w = f["span"]
    a = ck.run(f)
    data, span, steps = arg(0), arg(1), arg(2)
    at = lambda r, k: idx(data, (r, num(k)))
    sort = ck.fid("convertertools::is_sorted")
    b = ck.run(f, [arg(k) for k in range(3)], sealed=((sort, "is_sorted"),))
    asked = {x for x in B.atoms(b.ok) if x[0] == "P" and called(x[1], "is_sorted")}
    ck.ob("even:order", len(asked) == 1 and idx(next(iter(asked))[1].a[1], (K,)) is at(K, 0) and
          not terms.sat(B.AND(b.ok, B.NOT(B.var(*next(iter(asked)))))),
          "rows that are not in order are refused", w, lambda: gshow(b.ok))
    fold = Fold(b.ret) if b.ret.k == "fin" else None
    if not fold or len(fold.levels) != 1:
        ck.fail("even:rows", "every row is interpolated", w, clip(show(b.ret)))
    ck.ob("even:size", terms.dim_of(fold.init, 0) is steps, "there are as many rows as asked for", w,
          lambda: clip(show(terms.dim_of(fold.init, 0))))
    last = sub(terms.dim_of(data, 0), num(1))
    end = sub(steps, num(1))
    for c in range(4):
        ck.same(f"even:first:{c}", idx(fold.init, (num(0), num(c))), at(num(0), c), cmp("Gt", end, num(0), True),
                "the first row is kept", w)
        ck.same(f"even:last:{c}", idx(fold.init, (end, num(c))), at(last, c), cmp("Gt", end, num(0), True),
                "the last row is kept", w)
    dt = div(span, end)
    runs = fold.runs(0)
    here = None
    for u, g in parts(fold.step):
        if not terms.sat(B.AND(g, runs)):
            continue
        got = changes(u, fold.state)
        rows_ = {p[0] for p in got or () if len(p) == 2}
        if not got or len(rows_) != 1 or len(got) != 4:
            ck.fail("even:row", "a round fills in one row", w, clip(show(u)))
        e, = rows_
        if here is None:
            here = e
            start = sub(e, fold.var(0))
            ck.ob("even:all", terms.tint(start) is not None and
                  core.same_guard(runs, cmp("Lt", e, end, True), 1) and start is num(1),
                  "every row between the first and the last is filled in", w, lambda: gshow(runs))
        ck.ob("even:one", e is here, "a round fills in one row", w, lambda: clip(show(e)))
        t = got.get((e, num(0)))
        ck.ob("even:time", t is mul(e, dt), "rows are a constant time apart", w, lambda: clip(show(t)))
        new = [got.get((e, num(c))) for c in (1, 2, 3)]
        if all(v is not None and show(v) == "const(nan)" for v in new):
            ck.count("left")
            continue
        near = sorted({x.a[1][0] for v in new for x in subterms(v) if x.k == "idx" and x.a[0] is data and
                       x.a[1][1] is not num(0)}, key=id)
        good = len(near) == 2
        for c, v in enumerate(new, 1):
            ck.ob(f"even:{c}", good and any(v is z for p, q in (near, near[::-1]) for z in between(data, p, q, c, t)),
                  "a position lies on the line through two measured positions, at its time", w, lambda: clip(show(v)))
            ck.count("lines")
        if good:
            p, q = near
            ck.implied("even:apart", B.AND(g, runs), B.NOT(B.OR(cmp("Eq", at(p, 0), at(q, 0), False), cmp(
                "Eq", p, q, True))), "a line goes through positions at different times", w)
            gap = sub(q, p)
            ck.ob("even:around", gap is num(2) or gap is num(-2), "a line goes through the rows before and after another", w, lambda: clip(show(gap)))
    ck.floor("lines", 3, "coordinates interpolated")


def in_order(ck):
    """Rows in the order of a column."""
    f = ck.free("convertertools::sort_by_column")
    w = f["span"]
    a = ck.run(f)
    data = arg(0)
    r, c = mk("gv", ("row",)), mk("gv", ("column",))
    n = terms.dim_of(data, 0)
    v = idx(a.ret, (r, c))
    lists = {x for x in subterms(v) if x.k == "mut" and "sort" in x.a[0]}
    lists = {x for x in lists if not any(x is not o and x in subterms(o) for o in lists)}
    if len(lists) != 1:
        ck.fail("rows:list", "rows are put in the order of a list of their places", w, clip(show(v)))
    s, = lists
    t, orders = peel(s, "sort")
    ck.ob("rows:places", all_places(t, n), "every row has its place in the order", w, lambda: clip(show(t)))
    ascending(ck, "rows", orders, lambda x: idx(data, (x, arg(1))), 1, w)
    inside = B.AND(cmp("Lt", r, n, True), cmp("Lt", c, terms.dim_of(data, 1), True))
    ck.same("rows:value", subst(v, {terms.dim_of(s, 0): n}), idx(data, (idx(s, (r,)), c)), inside,
            "rows are put in order as a whole", w)
    for k in (0, 1):
        ck.same(f"rows:size:{k}", terms.dim_of(a.ret, k), terms.dim_of(data, k), 1, "no row is lost or added", w)
    ck.implied("rows:always", 1, a.ok, "any rows can be put in order", w)
    f = ck.free("convertertools::is_sorted")
    a = ck.run(f)
    g = B.NOT(as_bool(a.ret))
    at = [B.vars[x] for x in B.support(g)]
    good = len(at) == 1 and at[0][0] == "EX" and g == B.var(*at[0])
    if good:
        n, inner = mk("bv", at[0][1]), as_bool(at[0][2])
        m = {}
        for x in {x for q in B.atoms(inner) for x in subterms(q[1])}:
            if called(x, "tuple_windows"):
                m[terms.dim_of(x, 0)] = sub(terms.dim_of(data, 0), num(1))
                for k in (0, 1):
                    m[fld(idx(x, (n,)), "", str(k))] = idx(data, (add(n, num(k)),))
        inner = subst_guard(inner, m) if m else inner
        now, then = idx(data, (n,)), idx(data, (add(n, num(1)),))
        runs = cmp("Lt", n, sub(terms.dim_of(data, 0), num(1)), True)
        good = any(core.same_guard(inner, B.AND(runs, B.NOT(cmp("Le", now, then, k))), real(now, then))
                   for k in (True, False))
    ck.ob("sorted", good, "rows are in order where none is later than the next", f["span"], lambda: gshow(g))


PER_FILE = ("time", "id", "radius", "ppcloud", "particletype", "velocity", "position")


def csv_files(ck):
    """A csv file for every timestep."""
    f = ck.free("csv_multi_file_time_step::csv_multi_file_time_step")
    w = f["span"]
    a = ck.run(f)
    files, outname, columns, times, radius = arg(0), arg(1), arg(2), arg(3), arg(9)
    ws = writes(a)
    inside = [z for z in ws if z.e.loops]
    loops = {z.e.loops for z in inside}
    if len(loops) != 1 or len(next(iter(loops))) != 1:
        ck.fail("files:loops", "the records of files are written in one loop over them", w, str(loops))
    n, = next(iter(loops))
    i = mk("iv", n)
    many = terms.dim_of(columns, 0)
    given = [cmp("Eq", many, num(k), True) for k in (4, 7)]
    ck.same_guard("files:columns", settled(a.ok), B.OR(*given), 1,
                  "files need identifiers and positions, with velocities or without", w)
    back = a.loops[n]["back"]
    ck.same_guard("files:all", settled(back), cmp("Lt", i, terms.dim_of(files, 0), True), B.OR(*given),
                  "every file given is converted, one after the other", w)
    by = {}
    for z in ws:
        k = f"{'f' if z.e.loops else z.kind[0]}:{z.name}"
        if k in by:
            ck.fail(f"files:{k}:once", "each record is written once", z.e.sp)
        by[k] = z
        ck.implied(f"files:{k}:always", back if z.e.loops else a.ok, z.e.cond,
                   "everything is written for every file", z.e.sp)
        home_ = through(z.home)
        ck.ob(f"files:{k}:place", z.kind == "dataset" and called(home_, "create_group") and
              home_.a[1] is file_of(outname) and numbered(home_.a[2], "timestep ", i) if z.e.loops
              else z.home is file_of(outname), "the n-th file is recorded as timestep n of the file asked for, "
              "counted from zero", z.e.sp, lambda: clip(show(z.home)))
        ck.count("writes")
    need = [f"f:{x}" for x in PER_FILE] + [f"a:{x}" for x in (
        "dimensions", "velocity", "velocity magnitude", "time", "timesteps", "hdf5_up4_type", "particle number")] + \
        ["d:time array"]
    for k in need:
        if k not in by:
            ck.fail(f"files:{k}:written", "what readers look for is written", w)
    here = {k: z.e.sp for k, z in by.items()}
    val = {k: z.value for k, z in by.items()}
    every = {x for x in subterms(val["f:position"]) if called(x, "deserialize_array2_dynamic")}
    if len(every) != 1:
        ck.fail("files:read", "the rows of a timestep are those of one file", w, str(len(every)))
    source_, = every
    raw = fld(source_, "Ok", "0")
    settings(ck, "files", source_, w, idx(files, (i,)), 4, 5, 6)
    r, c = mk("gv", ("row",)), mk("gv", ("component",))
    m = terms.dim_of(raw, 0)
    has = B.AND(cmp("Lt", r, m, True), B.OR(*given))
    column = lambda k: idx(raw, (r, idx(columns, (k,))))
    exact = [{many: num(k)} for k in (4, 7)]
    for nm, wide, first_, known in (("id", 0, column(num(0)), exact), ("radius", 0, radius, exact),
                                    ("position", 3, 1, exact), ("velocity", 3, 4, exact[1:])):
        v = val[f"f:{nm}"]
        for k in range(wide or 1):
            for d in known:
                got = subst(idx(v, (r, num(k)) if wide else (r,)), d)
                ck.same(f"files:{nm}:{k}:{terms.tint(d[many])}", got, column(num(first_ + k)) if wide else first_,
                        cmp("Lt", r, m, True), "values are those of the columns asked for", here[f"f:{nm}"])
    for nm in PER_FILE[1:]:
        ck.same(f"files:{nm}:rows", terms.dim_of(val[f"f:{nm}"], 0), m, 1, "every row of a file is recorded",
                here[f"f:{nm}"])
    ck.same("files:time", val["f:time"], idx(times, (i,)), 1, "the time of a file is the one given for it", here["f:time"])
    ck.ob("files:type", val["a:hdf5_up4_type"] is num(1), "files of timesteps are marked as such", here["a:hdf5_up4_type"])
    ck.same("files:timesteps", val["a:timesteps"], terms.dim_of(files, 0), 1, "there is a timestep for every file",
            here["a:timesteps"])

    def of(t, bv):
        return subst(t, {i: bv})

    def over(k, inner):
        fold = inner_fold(val[k])
        if fold is None or not fold.ok or len(fold.levels) != (2 if inner else 1):
            ck.fail(f"files:{k}:gathered", "totals are gathered from every row of every file", here[k], clip(show(val[k])))
        ck.same_guard(f"files:{k}:files", fold.runs(0), cmp("Lt", fold.var(0), terms.dim_of(files, 0), True),
                      B.OR(*given), "totals are gathered from every file", here[k])
        if inner:
            ck.same_guard(f"files:{k}:rows", fold.runs(1), cmp("Lt", fold.var(1), of(m, fold.var(0)), True),
                          B.OR(*given), "totals are gathered from every row of a file", here[k])
        fold.step = written_out(subst(listed(fold.step), exact[1]) if k != "a:dimensions" else fold.step)
        return fold

    def at(fold, k):
        return idx(of(raw, fold.var(0)), (fold.var(1), idx(columns, (num(k),))))

    def mean(k, place):
        z, got = val[k], idx(val[k], place)
        n = div(idx(core_of(z), place), got)
        good = False
        if n.k == "sum":
            bv = mk("bv", n.a[0])
            good = core.differ(n.a[1], of(m, bv)) is None and core.same_guard(
                settled(as_bool(n.a[2])), cmp("Lt", bv, terms.dim_of(files, 0), True), B.OR(*given))
        elif n.k == "fin":
            g = Fold(n)
            good = len(g.levels) == 1 and g.init is num(0) and \
                core.differ(sub(g.step, g.state), of(m, g.var(0))) is None and \
                core.same_guard(g.runs(0), cmp("Lt", g.var(0), terms.dim_of(files, 0), True), B.OR(*given))
        ck.ob(f"files:{k}:{terms.tint(place[0])}:mean", bool(good), "a mean is a sum over all rows by their number", here[k],
              lambda: clip(show(n)))
        ck.count("totals")

    g = B.OR(*given)
    fold = over("a:dimensions", True)
    for k in range(3):
        extreme(ck, f"files:dimensions:{k}", fold, (num(0), num(k)), (num(1), num(k)), at(fold, 1 + k),
                here["a:dimensions"], "position", g)
    g = given[1]
    fold = over("a:velocity", True)
    for k in range(3):
        extreme(ck, f"files:velocity:{k}", fold, (num(k), num(0)), (num(k), num(2)), at(fold, 4 + k),
                here["a:velocity"], "velocity", g)
        total(ck, f"files:velocity:{k}:mean", fold, (num(k), num(1)), at(fold, 4 + k), here["a:velocity"], "velocity", g)
        mean("a:velocity", (num(k), num(1)))
    fold = over("a:velocity magnitude", True)
    x = speed([at(fold, 4 + k) for k in range(3)])
    extreme(ck, "files:speed", fold, (num(0),), (num(2),), x, here["a:velocity magnitude"], "speed", g)
    total(ck, "files:speed:mean", fold, (num(1),), x, here["a:velocity magnitude"], "speed", g)
    mean("a:velocity magnitude", (num(1),))
    fold = over("a:time", False)
    extreme(ck, "files:time", fold, (num(0),), (num(1),), idx(times, (fold.var(0),)), here["a:time"], "time")
    most(ck, "files:particles", val["a:particle number"], terms.dim_of(files, 0), lambda bv: of(m, bv), lambda t: t,
         B.OR(*given), here["a:particle number"])
    t = val["d:time array"]
    good = t.k == "filtered" and core.differ(t.a[1], idx(times, (mk("bv", t.a[0]),))) is None and \
        settled(as_bool(t.a[2])) == 1
    ck.ob("files:times", good, "the times are those of the files, one after the other", here["d:time array"],
          lambda: clip(show(t)))
    ck.floor("totals", 20, "totals of csv files")
    ck.floor("writes", 15, "records of csv files")


def field_names(ck):
    """What is told to a converter of vtk files."""
    for ty in VTK:
        kinds = ("velocity", "id", "radius", "type", "diameter")
        names = {k: f"{k}_field_name" for k in kinds}
        for kind in kinds:
            f = ck.method(ty, f"add_{kind}_field")
            a = ck.run(f)
            for k, fieldname in names.items():
                got = fld(a.ret, "", fieldname)
                if k == kind:
                    ck.ob(f"{ty}:{kind}:told", terms.is_variant(got, "Some") == 1 and
                          through(fld(got, "Some", "0")) is arg(1), "a field has the name told", f["span"],
                          lambda: clip(show(got)))
                else:
                    ck.same(f"{ty}:{kind}:{k}", got, fld(arg(0), "", fieldname), 1,
                            "naming one field leaves the others as they were", f["span"])
                ck.count("fields")
            if ty == "XMLVTKConverter":
                ck.same(f"{ty}:{kind}:type", fld(a.ret, "", "file_type"), fld(arg(0), "", "file_type"), 1,
                        "naming a field leaves the kind of file as it was", f["span"])
    ck.floor("fields", 50, "names of fields")

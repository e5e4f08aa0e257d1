"""Obligations, reports and evidence shared by all rules."""

import json
import os
import re
import signal
import sys
import time
from fractions import Fraction
from math import ceil, gcd

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import program                                                     # noqa: E402
import terms                                                       # noqa: E402
import vfg                                                         # noqa: E402
from roles import Eff                                              # noqa: E402
from terms import B, T, equiv, implies, mk, num, show             # noqa: E402

VERIF = program.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Abort(Exception):
    """The rule cannot go on (already reported)."""


def span(sp):
    if not sp:
        return ""
    return str(sp if isinstance(sp, str) else sp[0])


# ---------------------------------------------------------------- comparison of values
def differ(a, b, care=1, depth=0, numeric=True):
    """None when a and b denote the same value wherever care holds, else a pair of
    differing parts (for the report)."""
    if isinstance(a, T) and isinstance(b, T) and a is not b:
        a, b = plain(a), plain(b)
    r = differ_(a, b, care, depth, numeric)
    if r and care not in (0, 1) and isinstance(a, T) and isinstance(b, T) \
            and a.k != "case" and b.k != "case":
        x, y, c = congruent(a, b, care)
        if x is not a or y is not b:
            r = differ_(x, y, c, depth, numeric)
        if r and depth < 4 and impossible(care):
            return None
    return r


def impossible(g):
    """No way to make g hold is consistent with the linear equalities it takes to hold (every
    path through the guard is looked at).  False: not shown."""
    g = B.AND(g, terms.theory(g))
    g = B.exists(g, lambda at: not (at[0] in "ELG" and at[2]))
    left = [200000]

    def reduce(p, rows):
        p = dict(p)
        for m, row in rows:
            c = p.get(m)
            if c:
                for n, d in row.items():
                    x = p.get(n, 0) - c * d
                    if x:
                        p[n] = x
                    else:
                        p.pop(n, None)
        return p

    def go(n, rows, rest):
        """Whether node n is out of reach given equalities (rows) and other literals (rest)."""
        if n == 0:
            return True
        left[0] -= 1
        if n == 1 or left[0] < 0:
            return False
        v, lo, hi = B.nodes[n]
        at = B.vars[v]
        if at[0] not in "ELG":
            return go(lo, rows, rest) and go(hi, rows, rest)
        p = reduce(terms.poly(at[1]), rows)
        for val, child in ((0, lo), (1, hi)):
            if child == 0:
                continue
            if not (set(p) - {()}):
                c = p.get((), 0)
                if val != int(c == 0 if at[0] == "E" else c < 0 if at[0] == "L" else c > 0):
                    continue
                if not go(child, rows, rest):
                    return False
                continue
            if at[0] == "E" and val:
                m = min((m for m in p if m), key=lambda m: [(x.id, e) for x, e in m])
                k = p[m]
                row = {n_: c / k for n_, c in p.items()}
                rows2 = [(m1, reduce(r, [(m, row)])) for m1, r in rows] + [(m, row)]
                if any(bad(reduce(q, rows2), kind, w) for q, kind, w in rest):
                    continue
                if not go(child, rows2, rest):
                    return False
            elif not go(child, rows, rest + [(p, at[0], val)]):
                return False
        return True

    def bad(p, kind, val):
        if set(p) - {()}:
            return False
        c = p.get((), 0)
        return val != int(c == 0 if kind == "E" else c < 0 if kind == "L" else c > 0)
    return go(g, [], [])


def infeasible(g, limit=4000):
    """No whole numbers meet the linear comparisons of any path through guard g.
    False: not shown."""
    g = B.AND(g, terms.theory(g))
    g = B.exists(g, lambda at: not (at[0] in "LE" and at[2]))
    left = [limit]
    seen = set()

    def row(p, sign, k):
        """sign * p + k <= 0"""
        r = {m: sign * c for m, c in p.items() if m}
        return r, sign * p.get((), 0) + k

    def go(n, rows, apart):
        if n == 0:
            return True
        if n == 1:
            return contradict(rows, apart)
        left[0] -= 1
        if left[0] < 0:
            return False
        v, lo, hi = B.nodes[n]
        kind, q = B.vars[v][0], B.vars[v][1]
        p = terms.poly(q)
        for val, child in ((0, lo), (1, hi)):
            if child == 0:
                continue
            if kind == "E":
                r, a = (rows + [row(p, 1, 0), row(p, -1, 0)], apart) if val else \
                    (rows, apart + [p])
            else:
                r, a = rows + [row(p, 1, 1) if val else row(p, -1, 0)], apart
            if (val or kind == "L") and linear_conflict(r):
                continue
            if not go(child, r, a):
                return False
        return True

    def contradict(rows, apart):
        if linear_conflict(rows):
            return True
        for i, p in enumerate(apart):
            for sign in (1, -1):
                # p is on one side already: it is strictly so
                if linear_conflict(rows + [row(p, sign, 1)]):
                    rows = rows + [row(p, -sign, 1)]
                    if linear_conflict(rows):
                        return True
                    break
        return False
    return go(g, [], [])


_conflict = {}


def linear_conflict(rows):
    """Linear inequalities (coefficients, constant): sum + constant <= 0 have no solution in
    whole numbers, by eliminating one quantity after another."""
    def tidy(r, k):
        d = 1
        for c in list(r.values()) + [k]:
            d = d * Fraction(c).denominator // gcd(d, Fraction(c).denominator)
        r = {m: int(c * d) for m, c in r.items() if c}
        k = Fraction(k * d)
        h = 0
        for c in r.values():
            h = gcd(h, c)
        if h > 1:
            r = {m: c // h for m, c in r.items()}
            k = Fraction(ceil(k / h))
        return tuple(sorted(r.items(), key=lambda x: [(a.id, e) for a, e in x[0]])), k
    best = {}

    def put(best, r, k):
        r, k = tidy(r, k)
        if not r:
            return k > 0
        if r not in best or best[r] < k:
            best[r] = k
        return False
    ms = set()
    for r, k in rows:
        if put(best, r, k):
            return True
        ms |= set(r)
    for m in ms:                          # sizes and counters are not negative
        if len(m) == 1 and m[0][1] == 1 and m[0][0].k in terms.NONNEG:
            if put(best, {m: -1}, Fraction(0)):
                return True
    key = frozenset(best.items())
    if key in _conflict:
        return _conflict[key]
    out = False
    while best and not out:
        cols = {}
        for r in best:
            for m, c in r:
                u, d = cols.get(m, (0, 0))
                cols[m] = (u + (c > 0), d + (c < 0))
        m = min(cols, key=lambda m: cols[m][0] * cols[m][1])
        if cols[m][0] * cols[m][1] > 400:
            break
        ups = [(dict(r), k) for r, k in best.items() if dict(r).get(m, 0) > 0]
        downs = [(dict(r), k) for r, k in best.items() if dict(r).get(m, 0) < 0]
        nxt = {r: k for r, k in best.items() if m not in dict(r)}
        for ru, ku in ups:
            for rd, kd in downs:
                a, b = ru[m], -rd[m]
                r = {x: b * ru.get(x, 0) + a * rd.get(x, 0) for x in set(ru) | set(rd)}
                if put(nxt, r, b * ku + a * kd):
                    out = True
        best = nxt
    _conflict[key] = out
    return out


def plain(a):
    """A minimum or maximum of two numbers as a choice."""
    if a.k in ("min", "max") and len(a.a) == 2:
        x, y = a.a
        g = B.OR(terms.cmp("Lt" if a.k == "min" else "Gt", x, y, False), terms.is_nan(y))
        return terms.mk_case([(x, g), (y, B.NOT(g))])
    return a


def congruent(a, b, care):
    """a, b and care with the equalities care forces between numbers applied."""
    care = B.AND(care, terms.theory(care))
    m = terms.numbers_in(care)
    if m:
        a, b = terms.subst(a, m), terms.subst(b, m)
    for _ in range(12):
        for v in sorted(B.support(care)):
            at = B.vars[v]
            if at[0] == "E" and B.cofactor(care, v, 0) == 0:
                m = pivot(at[1], a, b)
                if m:
                    break
        else:
            break
        a, b = terms.subst(a, m), terms.subst(b, m)
        care = terms.subst_guard(B.cofactor(care, v, 1), m)
    return a, b, care


def pivot(q, a, b):
    """{x: rest} with q == 0 solved for an atom x that occurs in a or b."""
    p = terms.poly(q)
    occ = None
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            x = m[0][0]
            if occ is None:
                occ = set(terms.subterms(a, b))
            if x not in occ:
                continue
            rest = terms.scale(terms.sub(q, terms.scale(x, c)), -c)
            if x in terms.subterms(rest):
                continue
            if best is None or (x.k == "anyk", x.id) > (best[0].k == "anyk", best[0].id):
                best = (x, rest)
    return {best[0]: best[1]} if best else None


def differ_(a, b, care=1, depth=0, numeric=True):
    if a is b or care == 0:
        return None
    if not (isinstance(a, T) and isinstance(b, T)):
        if a == b:
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                d = differ(x, y, care, depth + 1, False)
                if d:
                    return d
            return None
        return a, b
    if a.k == "bool" or b.k == "bool":
        ga, gb = terms.as_bool(a), terms.as_bool(b)
        return None if same_guard(ga, gb, care) else (a, b)
    if a.k == "case" or b.k == "case":
        for v, c in (a.a[0] if a.k == "case" else ((a, 1),)):
            for w, d in (b.a[0] if b.k == "case" else ((b, 1),)):
                both = B.AND(B.AND(care, c), d)
                if v is w or both == 0 or not terms.sat(both):
                    continue
                r = differ(v, w, both, depth + 1, numeric)
                if r:
                    return r
        return None
    # the same number written differently
    if terms.numeric(a) and terms.numeric(b) and terms.sub(a, b) is num(0):
        return None
    if (a.k == "poly" or b.k == "poly") and terms.numeric(a) and terms.numeric(b) \
            and rational_zero(terms.sub(a, b)):
        return None
    if a.k == "poly" or b.k == "poly":
        pa, pb = terms.poly(a), terms.poly(b)
        # match monomials pairwise up to equal atoms
        ra = {m: c for m, c in pa.items() if pb.get(m) != c}
        rb = {m: c for m, c in pb.items() if pa.get(m) != c}
        if len(ra) == len(rb):
            left = list(rb.items())
            for m, c in ra.items():
                for j, (m2, c2) in enumerate(left):
                    if c == c2 and mono_same(m, m2, care, depth):
                        del left[j]
                        break
                else:
                    break
            else:
                return None
        # decide one by one the alternatives a number in them is chosen from
        if depth < 40:
            for m in list(ra) + list(rb):
                for t, _ in m:
                    if t.k != "case":
                        continue
                    for v, c in t.a[0]:
                        both = B.AND(care, c)
                        if both == 0 or not terms.sat(both):
                            continue
                        r = differ(terms.subst(a, {t: v}), terms.subst(b, {t: v}), both, depth + 8, numeric)
                        if r:
                            return r
                    return None
        return a, b
    if a.k == b.k == "sumlist":
        left = [(v, terms.as_bool(g)) for v, g in b.a[0]]
        for v, g in a.a[0]:
            g = terms.as_bool(g)
            for j, (w, h) in enumerate(left):
                if differ(v, w, B.AND(care, g), depth + 1) is None and same_guard(g, h, care):
                    del left[j]
                    break
            else:
                if terms.sat(B.AND(care, g)):
                    return a, b
        return (a, b) if any(terms.sat(B.AND(care, h)) for _, h in left) else None
    if a.k == b.k and len(a.a) == len(b.a) and depth < 60:
        for x, y in zip(a.a, b.a):
            d = differ(x, y, care, depth + 1)
            if d:
                break
        else:
            return None
    if "array" in (a.k, b.k) and {a.k, b.k} & {"elemupd", "rep"} and depth < 40:
        # a list written out and one filled in step by step
        x, y = (a, b) if a.k == "array" else (b, a)
        z = y
        while z.k == "elemupd":
            z = z.a[0]
        size = num(len(z.a[0])) if z.k == "array" else z.a[1] if z.k == "rep" else terms.dim_of(z, 0)
        if differ(size if isinstance(size, T) else num(size), num(len(x.a[0])), care, depth + 1):
            return a, b
        for i, v in enumerate(x.a[0]):
            w = terms.idx(y, (num(i),))
            d = differ(v, w, care, depth + 1) if x is a else differ(w, v, care, depth + 1)
            if d:
                return d
        return None
    if (a.k in EXT or b.k in EXT) and depth < 40:
        return extensional(a, b, care, depth)
    return a, b


def rational_zero(d, depth=0):
    """d is zero as a rational function (denominators multiplied out)."""
    if d is num(0):
        return True
    if depth > 4 or d.k != "poly" or len(d.a[0]) > 400:
        return False
    low = {}
    for m, _ in d.a[0]:
        for t, e in m:
            if e < 0:
                low[t] = min(low.get(t, 0), e)
    sums = [t for t in low if t.k == "poly"]
    if not sums:
        return False
    r = {}
    total = num(0)
    for m, c in d.a[0]:
        left = dict(low)
        keep = []
        for t, e in m:
            if t in left:
                e -= left.pop(t)
            if e:
                keep.append((t, e))
        p = num(c)
        for t, e in keep + [(t, -e) for t, e in left.items()]:
            p = terms.mul(p, terms.power(t, e))
        total = terms.add(total, p)
    return rational_zero(total, depth + 1)


EXT = ("ew", "elemupd", "viewupd", "full")


def extensional(a, b, care, depth):
    """Arrays are equal when their extents and their elements at every position are."""
    dims = None
    for x in (a, b):
        y = x
        while y.k in ("elemupd", "viewupd"):
            y = y.a[0]
        if y.k == "ew" and y.a[1] is not None:
            dims = y.a[1]
            break
    if dims is None:
        n = terms.rank_of(a) or terms.rank_of(b)
        if not n:
            return a, b
        dims = tuple(terms.dim_of(a, k) for k in range(n))
    inr = care
    for k, n in enumerate(dims):
        for x in (a, b):
            m = terms.dim_of(x, k)
            if differ(m, n, care, depth + 1):
                return m, n
        inr = B.AND(inr, terms.cmp("Lt", terms.anyk(k), n, True))
    x, y = terms.idx(a, (terms.ANY,)), terms.idx(b, (terms.ANY,))
    if x.k == "idx" and x.a[0] is a or y.k == "idx" and y.a[0] is b:
        if x is not y and (x.k == "idx" and y.k == "idx"):
            return a, b
    return differ(x, y, inr, depth + 1)


def mono_same(m1, m2, care, depth):
    if len(m1) != len(m2):
        return False
    left = list(m2)
    for x, e in m1:
        for j, (y, f) in enumerate(left):
            if e == f and differ(x, y, care, depth + 1) is None:
                del left[j]
                break
        else:
            return False
    return True


def same_guard(ga, gb, care=1):
    if equiv(ga, gb, care):
        return True
    # atoms that denote the same thing under different names
    bad = B.AND(care, B.NOT(B.IFF(ga, gb)))
    ats = [at for at in B.atoms(bad)]
    facts = 1
    for i, x in enumerate(ats):
        for y in ats[i + 1:]:
            if x[0] == y[0] and len(x) == len(y) and all(
                    differ(p, q) is None if isinstance(p, T) and isinstance(q, T) and p.k != "poly"
                    else p is q or p == q for p, q in zip(x[1:], y[1:])):
                facts = B.AND(facts, B.IFF(B.var(*x), B.var(*y)))
    if facts != 1 and B.AND(bad, facts) == 0:
        return True
    return False


def gshow(g, n=900):
    """A guard as the conjunction of its forced literals and the rest."""
    lits, rest = [], g
    for v in sorted(B.support(g)):
        for b in (1, 0):
            if B.cofactor(g, v, 1 - b) == 0:
                lits.append(("" if b else "!") + terms.show_atom(B.vars[v]))
                rest = B.cofactor(rest, v, b)
    r = " & ".join(lits)
    if rest > 1:
        r += (" & " if r else "") + "{" + B.show(rest, 6) + "}"
    return (r or "true")[:n]


# ---------------------------------------------------------------- one check
class Ck:
    def __init__(self, pid, tier, js, info):
        self.pid, self.tier, self.js, self.info = pid, tier, js, info
        self.P = vfg.Prog(js)
        self.obs = []              # (key, rule, where, ok)
        self.viol = []             # (key, text)
        self.fns = set()
        self.sites = 0
        self.cache = {}
        self.counts = {}
        self.assumptions = []
        self.samples = []

    # -------- obligations
    def ob(self, key, ok, rule, where="", detail=""):
        self.obs.append((key, rule, where, bool(ok)))
        if not ok:
            if callable(detail):
                detail = detail()
            self.viol.append((key, f"{rule}\n    at {where}\n    {detail}"))
        elif len(self.samples) < 6:
            self.samples.append(f"{key}: {rule} [{where}]")
        return ok

    def fail(self, key, rule, where="", detail=""):
        self.ob(key, False, rule, where, detail)
        raise Abort()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, what):
        """Fail closed when fewer instances are found than were counted by hand."""
        have = self.counts.get(name, 0)
        self.ob(f"floor:{name}", have >= n, f"at least {n} {what} are analysed", "",
                f"only {have} found: the rule no longer sees the code it is about")

    # -------- anchors
    def method(self, ty, name, trait=None):
        f = self.P.method(ty, trait, name)
        if f is None:
            r = [f for f in self.js["fns"] if f["kind"] == "fn" and f["name"] == name
                 and (f.get("impl_self") or "").split("<")[0].endswith(ty)]
            f = r[0] if len(r) == 1 else None
        if f is None:
            self.fail(f"anchor:{ty}::{name}", f"{ty}::{name} exists",
                      "", "the operation this rule is about cannot be found")
        return f

    def default(self, trait, name):
        f = self.P.default(trait, name)
        if f is None:
            r = [f for f in self.js["fns"] if f["kind"] == "fn"
                 and f["id"].endswith(f"{trait}::{name}")]
            f = r[0] if len(r) == 1 else None
        if f is None:
            self.fail(f"anchor:{trait}::{name}", f"{trait}::{name} exists",
                      "", "the operation this rule is about cannot be found")
        return f

    def free(self, path):
        r = [f for f in self.js["fns"] if f["kind"] == "fn"
             and f["id"].endswith("::" + path) and not f.get("impl_self")]
        if len(r) != 1:
            self.fail(f"anchor:{path}", f"function {path} exists", "",
                      f"{len(r)} candidates")
        return r[0]

    def by_id(self, fid):
        """The function or closure of this identifier."""
        for f in self.js["fns"]:
            if f["id"] == fid:
                return f
        self.fail(f"anchor:{fid}", f"{fid} exists", "", "it cannot be found")

    def fid(self, path):
        return self.free(path)["id"]

    # -------- analyses
    def run(self, fn, args=None, cond=1, may_die=False, **kw):
        key = (fn["id"], tuple(args or ()), cond, tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key in self.cache:
            return self.cache[key]
        a = vfg.Analysis(self.P, **kw)
        try:
            a.run(fn, args, cond)
        except vfg.Dead:
            if may_die:
                self.fns |= a.analysed
                return None
            self.fail(f"dead:{short(fn['id'])}", f"{short(fn['id'])} can return",
                      fn["span"], "every path panics")
        except (terms.Unsupported, RecursionError) as ex:
            self.fail(f"analysis:{short(fn['id'])}",
                      f"{short(fn['id'])} is within what the analysis can decide",
                      fn["span"], f"{type(ex).__name__}: {ex}")
        a.fn = fn
        a.ok = a.st.cond
        a.effs_ = None
        self.fns |= a.analysed
        self.sites += a.visits
        self.cache[key] = a
        return a

    def effs(self, a):
        """The effects of an analysis, loops named by role."""
        if a.effs_ is None:
            a.effs_ = [Eff(e) for e in a.log]
        return a.effs_

    def same(self, key, got, want, care, rule, where):
        d = differ(got, want, care)
        return self.ob(key, d is None, rule, where,
                       lambda: f"is   {clip(show(d[0]))}\n    spec {clip(show(d[1]))}\n"
                               f"    whole value: {clip(show(got))}\n"
                               f"    required:    {clip(show(want))}")

    def same_guard(self, key, got, want, care, rule, where):
        return self.ob(key, same_guard(got, want, care), rule, where,
                       lambda: f"they differ for example when {witness(got, want, care)}\n"
                               f"    holds when    {gshow(B.restrict(got, care))}\n"
                               f"    required when {gshow(B.restrict(want, care))}")

    def implied(self, key, a, b, rule, where):
        good = implies(a, b) or infeasible(B.AND(a, B.NOT(b)))
        return self.ob(key, good, rule, where,
                       lambda: f"for example when {witness(B.AND(a, b), a)}\n"
                               f"    reached when {gshow(a)}\n    without {gshow(b)}")


def witness(got, want, care=1):
    """One assignment of the atoms on which two guards disagree."""
    bad = B.AND(care, B.NOT(B.IFF(got, want)))
    bad = B.AND(bad, terms.theory(bad))
    lits = []
    while bad > 1:
        v = min(B.support(bad))
        lo, hi = B.cofactor(bad, v, 0), B.cofactor(bad, v, 1)
        if lo and hi == 0 or lo == 1:
            bad = lo
            lits.append("!" + terms.show_atom(B.vars[v]))
        else:
            bad = hi
            lits.append(terms.show_atom(B.vars[v]))
    return " & ".join(lits)[:1200]


def clip(s, n=1500):
    return s if len(s) <= n else s[:n] + " …"


def short(fid):
    return re.sub(r"^upppp_rust::", "", fid)


def name_of(fn):
    s = (fn.get("impl_self") or "").split("<")[0].split("::")[-1]
    return (s + "::" if s else "") + (fn["name"] if s else short(fn["id"]))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Timeout(Exception):
    pass


def builds():
    """The part of the tree that needs no missing library type-checks."""
    try:
        program.load("core")
        return True
    except program.BuildError:
        return False


def main(rules, levels):
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.setrecursionlimit(60000)

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(780)
    ck = None
    viol = []
    meta = rules[pid]
    level = meta.get("tier", "core")
    try:
        js, info = program.load(level)
        ck = Ck(pid, tier, js, info)
        for r in meta["rules"]:
            try:
                r(ck)
            except Abort:
                pass
        viol = ck.viol
        if not ck.obs:
            viol.append(("empty", "no obligation was generated"))
    except program.BuildError as ex:
        if level == "full" and builds():
            print(f"{pid}: no answer: parts of the tree use libraries that are not installed in a way "
                  f"their signatures here do not describe\n{str(ex)[-3000:]}")
            return 2
        viol = [("build", "the tree cannot be analysed: it does not type-check\n" + str(ex)[-3000:])]
    except Timeout:
        viol = (ck.viol if ck else []) + [("timeout", "the analysis did not finish in its time")]
    except (terms.Unsupported, RecursionError, MemoryError) as ex:
        viol = (ck.viol if ck else []) + [
            ("analysis", f"outside what the analysis can decide: {type(ex).__name__}: {ex}")]
    except Exception as ex:                                          # noqa: BLE001
        import traceback
        tb = traceback.format_exc()
        viol = (ck.viol if ck else []) + [("internal", f"analysis failed: {ex}\n{tb[-2500:]}")]
    signal.alarm(0)
    kn = known()
    real = []
    seen = set()
    for key, text in viol:
        if (pid, key) in kn:
            if key not in seen:
                print(f"KNOWN-FINDING: property={pid} {kn[(pid, key)]}")
            seen.add(key)
        else:
            real.append((key, text))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    n = len(ck.obs) if ck else 0
    cov = {
        "explanation": meta["explain"],
        "obligations": n,
        "discharged": sum(1 for o in ck.obs if o[3]) if ck else 0,
        "known_findings": len(seen),
        "functions_analysed": sorted(short(f) for f in ck.fns) if ck else [],
        "functions_analysed_count": len(ck.fns) if ck else 0,
        "blocks_interpreted": ck.sites if ck else 0,
        "instances": ck.counts if ck else {},
        "crate_bodies": len(ck.js["fns"]) if ck else 0,
        "samples": ck.samples if ck else [],
    }
    with open(os.path.join(ev, f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other",
                   "coverage": cov,
                   "assumptions": meta.get("assumptions", []) + (ck.assumptions if ck else []),
                   "wall_s": round(time.time() - t0, 2), "violations": len(real)}, f, indent=1)
        f.write("\n")
    print(f"{pid}: {n} obligations, {cov['discharged']} discharged, "
          f"{cov['functions_analysed_count']} functions, {time.time() - t0:.1f} s")
    if real:
        rp = os.path.join(ev, "replay", f"{pid}.txt")
        with open(rp, "w", encoding="utf-8") as f:
            for key, text in real:
                f.write(f"[{key}] {text}\n\n")
        for key, text in real[:8]:
            print(f"  [{key}] {text[:1800]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0

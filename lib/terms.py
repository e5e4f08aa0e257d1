"""Hash-consed value terms, propositional guards (BDDs) and the algebraic normal form.

A term names *which* value flows somewhere (its provenance), never a run-time number.
Arithmetic is kept as a normalised rational polynomial over opaque atoms, so that
`a - b >= 0`, `a >= b` and `!(a < b)` meet the same atoms however they are written.
Guards are BDDs whose variables are comparison / predicate atoms over terms."""

from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class T:
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.id = k, a, len(_all)
        _tab[key] = t
        _all.append(t)
    return t


def reset():
    _tab.clear()
    _all.clear()
    B.reset()
    _subst_memo.clear()
    _free.clear()
    _deep.clear()
    _below.clear()
    global ANY, TRUE, FALSE
    ANY, TRUE, FALSE = mk("any"), mk_bool(1), mk_bool(0)


# ---------------------------------------------------------------- BDDs
class BDD:
    LIMIT = 2000000

    def reset(self):
        self.nodes = [None, None]          # (var, lo, hi)
        self.uniq = {}
        self.memo = {}
        self.vars = []                     # var index -> atom tuple
        self.varidx = {}

    def __init__(self):
        self.reset()

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            if len(self.nodes) > self.LIMIT:
                raise Unsupported("guard too large")
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, *atom):
        i = self.varidx.get(atom)
        if i is None:
            i = len(self.vars)
            self.vars.append(atom)
            self.varidx[atom] = i
        return self.node(i, 0, 1)

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = min(N[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and N[x][0] == v:
                return N[x][2 if b else 1]
            return x
        r = self.node(v, self.ite(co(f, 0), co(g, 0), co(h, 0)),
                      self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        return r

    def AND(self, *xs):
        r = 1
        for x in xs:
            r = self.ite(r, x, 0)
        return r

    def OR(self, *xs):
        r = 0
        for x in xs:
            r = self.ite(r, 1, x)
        return r

    def NOT(self, x):
        return self.ite(x, 0, 1)

    def IFF(self, x, y):
        return self.ite(x, y, self.NOT(y))

    def restrict(self, f, c):
        """f simplified where the care set c holds."""
        if c == 0:
            return 0
        if c == 1 or f <= 1:
            return f
        k = ("r", f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        N = self.nodes
        vf, vc = N[f][0], N[c][0]
        if vc < vf:
            r = self.restrict(f, self.OR(N[c][1], N[c][2]))
        elif vf < vc:
            r = self.node(vf, self.restrict(N[f][1], c), self.restrict(N[f][2], c))
        elif N[c][1] == 0:
            r = self.restrict(N[f][2], N[c][2])
        elif N[c][2] == 0:
            r = self.restrict(N[f][1], N[c][1])
        else:
            r = self.node(vf, self.restrict(N[f][1], N[c][1]), self.restrict(N[f][2], N[c][2]))
        self.memo[k] = r
        return r

    def support(self, f):
        seen, out, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(v)
            st += [lo, hi]
        return out

    def cofactor(self, f, v, b):
        if f <= 1:
            return f
        k = ("c", f, v, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        vf, lo, hi = self.nodes[f]
        if vf > v:
            r = f
        elif vf == v:
            r = hi if b else lo
        else:
            r = self.node(vf, self.cofactor(lo, v, b), self.cofactor(hi, v, b))
        self.memo[k] = r
        return r

    def compose(self, f, fn):
        """Rebuilds f with every variable's atom mapped to a guard by fn(atom)."""
        memo = {0: 0, 1: 1}

        def go(x):
            r = memo.get(x)
            if r is None:
                v, lo, hi = self.nodes[x]
                r = memo[x] = self.ite(fn(self.vars[v]), go(hi), go(lo))
            return r
        return go(f)

    def exists(self, f, pred):
        """Projects away every variable whose atom satisfies pred."""
        for v in sorted(self.support(f), reverse=True):
            if pred(self.vars[v]):
                f = self.OR(self.cofactor(f, v, 0), self.cofactor(f, v, 1))
        return f

    def atoms(self, f):
        return [self.vars[v] for v in sorted(self.support(f))]

    def show(self, f, limit=12):
        if f == 0:
            return "false"
        if f == 1:
            return "true"
        out = []

        def go(x, lits):
            if len(out) > limit:
                return
            if x == 1:
                out.append(" & ".join(lits) or "true")
            elif x != 0:
                v, lo, hi = self.nodes[x]
                s = show_atom(self.vars[v])
                go(hi, lits + [s])
                go(lo, lits + ["!" + s])
        go(f, [])
        if len(out) > limit:
            out = out[:limit] + ["..."]
        return " | ".join(out)


B = BDD()


# ---------------------------------------------------------------- polynomials
def num(c):
    c = Fraction(c)
    return mk("poly", (((), c),) if c else ())


ZERO = None


def is_num(t):
    return t.k == "poly" and (len(t.a[0]) == 0 or (len(t.a[0]) == 1 and t.a[0][0][0] == ()))


def num_val(t):
    return t.a[0][0][1] if t.a[0] else Fraction(0)


def poly(t):
    if t.k == "poly":
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda x: tuple((t.id, e) for t, e in x[0]))))


def _mono_mul(m1, m2):
    """Product of two monomials, as a polynomial dict (sqrt(x)^2 = x, |x|^2 = x^2)."""
    e = {}
    for t, n in m1 + m2:
        e[t] = e.get(t, 0) + n
    extra = None
    for t in list(e):
        n = e[t]
        if n == 0:
            del e[t]
        elif t.k == "sqrt" and abs(n) >= 2:
            e[t] = n % 2
            if e[t] == 0:
                del e[t]
            p = power(t.a[0], (n - n % 2) // 2)
            extra = p if extra is None else mul(extra, p)
        elif t.k == "abs" and n >= 2:
            e[t] = n % 2
            if e[t] == 0:
                del e[t]
            p = power(t.a[0], n - n % 2)
            extra = p if extra is None else mul(extra, p)
        elif t.k == "poly" and n > 0:
            del e[t]
            p = power(t, n)
            extra = p if extra is None else mul(extra, p)
    m = tuple(sorted(e.items(), key=lambda x: x[0].id))
    if extra is None:
        return {m: Fraction(1)}
    return poly(mul(from_poly({m: Fraction(1)}), extra))


def lift2(f, a, b):
    if a.k == "case":
        return mk_case([(f(v, b), c) for v, c in a.a[0]])
    if b.k == "case":
        return mk_case([(f(a, v), c) for v, c in b.a[0]])
    return None


def small_case(*ts):
    n = 1
    for t in ts:
        if t.k == "case":
            n *= len(t.a[0])
    return 1 < n <= 12


def add(a, b):
    if small_case(a, b):
        return lift2(add, a, b)
    d = poly(a)
    for m, c in poly(b).items():
        d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(a, c):
    return from_poly({m: x * c for m, x in poly(a).items()})


def neg(a):
    if small_case(a):
        return mk_case([(neg(v), c) for v, c in a.a[0]])
    return scale(a, Fraction(-1))


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if small_case(a, b):
        return lift2(mul, a, b)
    d = {}
    pa, pb = poly(a), poly(b)
    if len(pa) * len(pb) > 400:
        return mk("mul", *sorted((a, b), key=lambda t: t.id))
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            for m, c in _mono_mul(m1, m2).items():
                d[m] = d.get(m, 0) + c * c1 * c2
    return from_poly(d)


def power(a, n):
    if n < 0:
        return power(inv(a), -n)
    r = num(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def lead(a):
    p = poly(a)
    m = min(p, key=lambda m: tuple((t.id, e) for t, e in m) if m else (("",),) and ((1 << 60, 0),))
    return p[m]


def inv(a):
    p = poly(a)
    if not p:
        return mk("const", "1/0")
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly_mul({tuple((t, -e) for t, e in m): 1 / c})
    f = common(p)
    if f:
        up = tuple((t, -e) for t, e in f)
        rest = {}
        for m, c in p.items():
            for m2, c2 in _mono_mul(m, up).items():
                rest[m2] = rest.get(m2, 0) + c * c2
        return mul(from_poly({up: 1}), inv(from_poly(rest)))
    l = lead(a)
    return from_poly({((scale(a, 1 / l), -1),): 1 / l})


def common(p):
    """The factors shared by all terms of a sum."""
    f = None
    for m in p:
        d = dict(m)
        if f is None:
            f = d
            continue
        f = {t: (min if e > 0 else max)(e, d[t]) for t, e in f.items()
             if t in d and (d[t] > 0) == (e > 0)}
    return tuple(sorted(f.items(), key=lambda te: te[0].id))


def from_poly_mul(d):
    out = {}
    for m, c in d.items():
        for m2, c2 in _mono_mul(m, ()).items():
            out[m2] = out.get(m2, 0) + c * c2
    return from_poly(out)


def div(a, b):
    if small_case(a, b):
        return lift2(div, a, b)
    if is_num(b) and num_val(b) == 0:
        return mk("op", "div0", a)
    if a is b:
        return num(1)
    pa, pb = poly(a), poly(b)
    if len(pa) == len(pb) > 1 and set(pa) == set(pb):
        r = {pa[m] / pb[m] for m in pa}
        if len(r) == 1:
            return num(r.pop())
    return mul(a, inv(b))


def f_sqrt(a):
    if small_case(a):
        return mk_case([(f_sqrt(v), c) for v, c in a.a[0]])
    if is_num(a):
        v = num_val(a)
        if v in (0, 1, 4):
            return num({0: 0, 1: 1, 4: 2}[int(v)])
    return mk("sqrt", a)


def f_abs(a):
    if small_case(a):
        return mk_case([(f_abs(v), c) for v, c in a.a[0]])
    if is_num(a):
        return num(abs(num_val(a)))
    if a.k in ("abs", "sqrt"):
        return a
    l = lead(a)
    return mk("abs", a if l > 0 else neg(a))


# ---------------------------------------------------------------- cases
def mk_bool(n):
    return mk("bool", n)


TRUE, FALSE = mk_bool(1), mk_bool(0)


def as_bool(t):
    """The guard under which a boolean term is true."""
    if t.k == "bool":
        return t.a[0]
    if t.k == "case":
        return B.OR(*[B.AND(c, as_bool(v)) for v, c in t.a[0]])
    return B.var("P", t)


def mk_case(pairs):
    """pairs: [(term, guard)] with disjoint guards; merged and simplified."""
    flat = []
    for v, c in pairs:
        if c == 0:
            continue
        if v.k == "case":
            flat += [(w, B.AND(c, d)) for w, d in v.a[0]]
        else:
            flat.append((v, c))
    d = {}
    for v, c in flat:
        if c:
            d[v] = B.OR(d.get(v, 0), c)
    if not d:
        return mk("undef")
    if len(d) > 1:
        d.pop(mk("undef"), None)
    if len(d) == 1:
        return next(iter(d))
    care = B.OR(*d.values())
    if all(v.k == "bool" for v in d):
        return mk_bool(B.restrict(B.OR(*[B.AND(c, v.a[0]) for v, c in d.items()]), care))
    # adt values of one variant merge fieldwise
    ks = {(v.k,) + v.a[:-1] if v.k == "adt" else (v.k, len(v.a[0])) if v.k in ("tuple", "array")
          else None for v in d}
    if len(ks) == 1 and None not in ks:
        vs = list(d.items())
        n = len(vs[0][0].a[-1])
        parts = tuple(mk_case([(v.a[-1][i], c) for v, c in vs]) for i in range(n))
        v0 = vs[0][0]
        return mk(v0.k, *v0.a[:-1], parts)
    return mk("case", tuple(sorted(((v, B.restrict(c, care)) for v, c in d.items()),
                                   key=lambda x: x[0].id)))


def lift(f, t):
    if t.k == "case":
        return mk_case([(f(v), c) for v, c in t.a[0]])
    return f(t)


# ---------------------------------------------------------------- comparisons
def sgn(d, isint):
    """Canonical (q, flip) of a difference term: d has the sign of q, or of -q if flip."""
    l = lead(d)
    return scale(d, 1 / l), l < 0


def rel(d, isint):
    """Guards (d<0, d==0, d>0)."""
    if d.k == "case" and len(d.a[0]) <= 12:
        r = [0, 0, 0]
        for v, c in d.a[0]:
            x = rel(v, isint)
            for i in range(3):
                r[i] = B.OR(r[i], B.AND(c, x[i]))
        return tuple(r)
    if is_num(d):
        v = num_val(d)
        return (int(v < 0), int(v == 0), int(v > 0))
    if d.k in ("sqrt", "abs"):
        z = rel(d.a[0], False)[1] if d.k == "sqrt" else rel(d.a[0], isint)[1]
        return (0, z, B.var("G", d, isint))
    if isint and d.k == "poly":
        w = poly(d).get((), 0)             # wrapped around: beyond every index
        if abs(w) >= 2 ** 31:
            return (int(w < 0), 0, int(w > 0))
    q, flip = sgn(d, isint)
    if isint:
        s = sign_of(d)
        if s == 1:
            return (0, 0, 1)
        if s == -1:
            return (1, 0, 0)
        if s:
            e = B.var("E", q, isint)
            return (0, e, B.NOT(e)) if s == 2 else (B.NOT(e), e, 0)
    e = B.var("E", q, isint)
    # order the three variables deterministically: L, E (, G)
    lt = B.AND(B.var("L", q, isint), B.NOT(e))
    if isint:
        gt = B.AND(B.NOT(lt), B.NOT(e))
    else:
        gt = B.AND(B.var("G", q, isint), B.NOT(lt), B.NOT(e))
    return (gt, e, lt) if flip else (lt, e, gt)


NONNEG = ("iv", "bv", "gv", "anyk", "dim", "len", "uix", "axlen", "role")


def sign_of(d):
    """1: > 0, 2: >= 0, -1: < 0, -2: <= 0, 0: unknown (integers built from counters and sizes)."""
    p = poly(d)
    for m in p:
        if any(a.k not in NONNEG or e < 0 for a, e in m):
            return 0
    if all(c > 0 for c in p.values()):
        return 1 if p.get((), 0) > 0 else 2
    if all(c < 0 for c in p.values()):
        return -1 if p.get((), 0) < 0 else -2
    return 0


def numeric(t):
    return t.k not in ("str", "adt", "tuple", "array", "bool", "const")


def cmp(op, a, b, isint):
    if a.k == "case" and small_case(a):
        return B.OR(*[B.AND(c, cmp(op, v, b, isint)) for v, c in a.a[0]])
    if b.k == "case" and small_case(b):
        return B.OR(*[B.AND(c, cmp(op, a, v, isint)) for v, c in b.a[0]])
    lt, e, gt = rel(sub(a, b), isint)
    if op == "Lt":
        return lt
    if op == "Gt":
        return gt
    if op == "Eq":
        return e
    if op == "Ne":
        return B.NOT(e)
    if isint:
        return B.NOT(gt) if op == "Le" else B.NOT(lt)
    return B.OR(lt, e) if op == "Le" else B.OR(gt, e)


def is_nan(t):
    if t.k == "case":
        return B.OR(*[B.AND(c, is_nan(v)) for v, c in t.a[0]])
    if is_num(t):
        return 0
    if t.k == "const":
        return int(t.a[0] == "nan")
    if t.k in WHOLE or t.k == "idx" and t.a[0].k == "numbers":
        return 0
    if t.k == "abs":
        return is_nan(t.a[0])
    if t.k == "poly" and all(e > 0 for m, _ in t.a[0] for _, e in m):
        # sums and products of finite numbers are numbers
        return B.OR(*[is_nan(x) for x in {x for m, _ in t.a[0] for x, _ in m}])
    return B.var("NAN", t)


#: terms that are whole numbers by what they are
WHOLE = ("dim", "trunc", "anyk", "uix", "argmin", "argmax", "axlen")


def eq(a, b):
    """Equality of non-numeric values."""
    if a is b:
        return 1
    if a.k == "case":
        return B.OR(*[B.AND(c, eq(v, b)) for v, c in a.a[0]])
    if b.k == "case":
        return B.OR(*[B.AND(c, eq(a, v)) for v, c in b.a[0]])
    if a.k == "str" and b.k == "str":
        return 0
    if a.k == "bool" or b.k == "bool":
        return B.IFF(as_bool(a), as_bool(b))
    if a.k == b.k and a.k in ("tuple", "array") and len(a.a[0]) == len(b.a[0]):
        return B.AND(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.k == "adt" and b.k == "adt":
        if a.a[1] != b.a[1]:
            return 0
        return B.AND(*[eq(x, y) for x, y in zip(a.a[-1], b.a[-1])])
    if a.k in WHOLE or b.k in WHOLE or a.k == "poly" or b.k == "poly" or is_num(a) or is_num(b):
        return cmp("Eq", a, b, True)
    x, y = sorted((a, b), key=lambda t: t.id)
    return B.var("EQ", x, y)


def theory(f):
    """Facts relating the atoms of guard f: trichotomy, ordering of the same quantity against
    different constants, distinct strings, distinct variants."""
    facts = []
    ords = {}
    strs = {}
    isv = {}
    nans = []
    for at in B.atoms(f):
        if at[0] in "LEG" and len(at) == 3 and at[0] in ("L", "E", "G"):
            q, isint = at[1], at[2]
            p = poly(q)
            c = p.pop((), Fraction(0))
            ords.setdefault((frozenset(p.items()), isint), {})[c] = q
        elif at[0] == "EQ":
            for x, y in ((at[1], at[2]), (at[2], at[1])):
                if y.k == "str":
                    strs.setdefault(x, set()).add(at)
        elif at[0] == "IS":
            isv.setdefault(at[1], set()).add(at)
        elif at[0] == "NAN":
            nans.append(at)
    for (p, isint), qs in ords.items():
        for q in qs.values():
            L, E = B.var("L", q, isint), B.var("E", q, isint)
            facts.append(B.NOT(B.AND(L, E)))
            if not isint:
                G = B.var("G", q, isint)
                facts.append(B.NOT(B.AND(G, B.OR(L, E))))
        cs = sorted(qs)
        for i, c1 in enumerate(cs):
            for c2 in cs[i + 1:]:
                # x + c1 and x + c2 with c1 < c2
                q1, q2 = qs[c1], qs[c2]
                L1, E1 = B.var("L", q1, isint), B.var("E", q1, isint)
                L2, E2 = B.var("L", q2, isint), B.var("E", q2, isint)
                # q2 <= 0  =>  q1 < 0
                facts.append(B.OR(B.NOT(B.OR(L2, E2)), L1))
                if not isint:
                    G1, G2 = B.var("G", q1, isint), B.var("G", q2, isint)
                    facts.append(B.OR(B.NOT(B.OR(G1, E1)), G2))
                    # NaN-ness is shared
                    facts.append(B.IFF(B.OR(L1, E1, G1), B.OR(L2, E2, G2)))
                elif c2 - c1 == 1:
                    # integers: q1 < 0  <=>  q2 <= 0
                    facts.append(B.OR(B.NOT(L1), L2, E2))
        # a remainder of a natural number is below what it is divided by
        x = next(iter(p)) if isint and len(p) == 1 else None
        if x is not None and len(x[0]) == 1 and x[0][0][1] == 1 and x[0][0][0].k == "rem" \
                and is_num(x[0][0][0].a[1]) and x[1] in (1, -1):
            top = num_val(x[0][0][0].a[1]) - 1
            for c, q in qs.items():
                low, high = (c, c + top) if x[1] == 1 else (c - top, c)
                L, E = B.var("L", q, isint), B.var("E", q, isint)
                facts += [B.NOT(L)] if low >= 0 else []
                facts += [B.NOT(E)] if low > 0 or high < 0 else []
                facts += [L] if high < 0 else [B.OR(L, E)] if high == 0 else []
        # x and -x style pairs share a canonical q already
    for x, ats in strs.items():
        ats = sorted(ats, key=lambda a: (a[1].id, a[2].id))
        for i, a in enumerate(ats):
            for b in ats[i + 1:]:
                facts.append(B.NOT(B.AND(B.var(*a), B.var(*b))))
    for x, ats in isv.items():
        ats = sorted(ats, key=lambda a: a[2])
        for i, a in enumerate(ats):
            for b in ats[i + 1:]:
                facts.append(B.NOT(B.AND(B.var(*a), B.var(*b))))
    for at in nans:
        # a comparison atom that holds for a quantity with this atom as an additive part: not NaN
        for other in B.atoms(f):
            if other[0] in ("L", "E", "G") and not other[2] and mentions(other[1], at[1]):
                facts.append(B.NOT(B.AND(B.var(*at), B.var(*other))))
    known = {at[1] for at in nans}
    if known:
        for (p, isint), qs in ords.items():
            if isint or not all(len(m) == 1 and m[0][1] == 1 and m[0][0] in known for m, _ in p):
                continue
            # a sum of quantities each known to be a number is below, at or above zero
            some = B.OR(*[B.var("NAN", m[0][0]) for m, _ in p])
            for q in qs.values():
                facts.append(B.OR(some, *[B.var(o, q, isint) for o in "LEG"]))
    return B.AND(*facts)


def mentions(t, x):
    if t is x:
        return True
    if t.k == "poly":
        return any(a is x for m, _ in t.a[0] for a, _ in m)
    return False


def numbers_in(g):
    """A substitution that says the quantities guard g takes to be numbers are numbers."""
    return {mk("notnan", at[1]): num(0) for at in B.atoms(g)
            if at[0] == "NAN" and B.AND(g, B.var(*at)) == 0}


def implies(a, b):
    """a => b for every value, given the theory of their atoms."""
    bad = B.AND(a, B.NOT(b))
    if bad == 0 or B.AND(bad, theory(bad)) == 0:
        return True
    m = numbers_in(a)
    bad = B.AND(a, subst_guard(bad, m)) if m else 1
    return B.AND(bad, theory(bad)) == 0


def equiv(a, b, care=1):
    x = B.AND(care, B.NOT(B.IFF(a, b)))
    if x == 0 or B.AND(x, theory(x)) == 0:
        return True
    m = numbers_in(care)
    x = B.AND(care, subst_guard(x, m)) if m else 1
    return x == 0 or B.AND(x, theory(x)) == 0


def sat(a):
    return a != 0 and B.AND(a, theory(a)) != 0


# ---------------------------------------------------------------- traversal
def children(t):
    out = []

    def go(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    if t.k == "bool":
        for at in B.atoms(t.a[0]):
            go(at)
    elif t.k == "case":
        for v, c in t.a[0]:
            out.append(v)
            for at in B.atoms(c):
                go(at)
    else:
        go(t.a)
    return out


def subterms(*ts):
    seen, st = set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        yield t
        st += children(t)


_loopy = {}


def loopy(t):
    """The loop-dependent leaves (phi, iv, gv) below t."""
    r = _loopy.get(t)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _loopy:
                st.pop()
                continue
            todo = [y for y in children(x) if y not in _loopy]
            if todo:
                st += todo
                continue
            s = frozenset([x]) if x.k in ("phi", "iv", "gv") else frozenset()
            for y in children(x):
                s |= _loopy[y]
            _loopy[x] = s
            st.pop()
        r = _loopy[t]
    return r


def guard_terms(g):
    out = []
    for at in B.atoms(g):
        for x in at:
            if isinstance(x, T):
                out.append(x)
    return out


_subst_memo = {}


def words(pieces):
    """Text made of literals and displayed values, in one form."""
    for k, x in enumerate(pieces):
        if isinstance(x, T) and x.k == "case":
            return mk_case([(words(tuple(pieces[:k]) + (v,) + tuple(pieces[k + 1:])), c)
                            for v, c in x.a[0]])
    got = []
    for x in pieces:
        if isinstance(x, T) and is_num(x) and num_val(x).denominator == 1:
            x = str(num_val(x))
        if isinstance(x, str) and got and isinstance(got[-1], str):
            got[-1] += x
        elif x != "":
            got.append(x)
    return mk("words", tuple(got))


def per_case(name, *args):
    """A call, case by case of its arguments."""
    for k, x in enumerate(args):
        if x.k == "case":
            return mk_case([(per_case(name, *args[:k], v, *args[k + 1:]), c)
                            for v, c in x.a[0]])
    return mk("call", name, *args)


def subst(t, m):
    """Replaces terms by terms (m: {T: T}), rebuilding normal forms."""
    key0 = tuple(sorted((k.id, v.id) for k, v in m.items()))
    memo = _subst_memo.setdefault(key0, {})

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x)
        return r

    def gd(g):
        return B.compose(g, atom)

    def atom(at):
        if at[0] in ("L", "E", "G"):
            n = go(at[1])
            if n is at[1]:
                return B.var(*at)
            lt, e, gt = rel(n, at[2])
            return {"L": lt, "E": e, "G": gt}[at[0]]
        if at[0] == "NAN":
            n = go(at[1])
            return 0 if mk("notnan", n) in m else is_nan(n)
        if at[0] == "EQ":
            return eq(go(at[1]), go(at[2]))
        if at[0] == "P":
            return as_bool(go(at[1]))
        if at[0] == "IS":
            return is_variant(go(at[1]), at[2])
        if at[0] == "EX" and as_bool(go(at[2])) == 0:
            return 0
        return B.var(*[go(x) if isinstance(x, T) else x for x in at])

    def tup(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(tup(y) for y in x)
        return x

    def rebuild(x):
        if x.k == "ew" and ANY in m:
            if x.a[1] is None:
                return x
            return ew(x.a[0], tuple(go(y) for y in x.a[1]))
        if x.k == "ew":
            if x.a[1] is not None and any(free_any(v) for k, v in m.items()
                                          if occurs(k, x.a[0])):
                # the position of an array around this one is meant: rename this one's
                var = mk("any", 1 + max([y.a[0] for y in subterms(x.a[0])
                                         if y.k == "any" and y.a], default=0))
                n = len(x.a[1])
                own = subst(x.a[0], {ANY: mk("ixs", tuple(mk("anyk", var, k)
                                                          for k in range(n)))})
                return inner(subst(own, m), tup(x.a[1]), var)
            return ew(go(x.a[0]), tup(x.a[1]))
        if x.k == "bew":
            return inner(go(x.a[0]), tup(x.a[1]), x.a[2])
        if x.k == "anyk":
            y = go(x.a[0])
            return y.a[0][x.a[1]] if y.k == "ixs" and x.a[1] < len(y.a[0]) else \
                mk("anyk", y, x.a[1])
        if x.k == "dim":
            y = go(x.a[0])
            return x if y is x.a[0] else dim_of(y, x.a[1])
        if x.k == "uix":
            return uix(tuple(go(y) for y in x.a[0]), go(x.a[1]), x.a[2])
        if x.k == "poly":
            r = num(0)
            ch = False
            for mono, c in x.a[0]:
                p = num(c)
                for a, e in mono:
                    b = go(a)
                    ch = ch or b is not a
                    p = mul(p, power(b, e))
                r = add(r, p)
            return r if ch else x
        if x.k == "bool":
            return mk_bool(gd(x.a[0]))
        if x.k == "case":
            return mk_case([(go(v), gd(c)) for v, c in x.a[0]])
        if x.k == "sqrt":
            return f_sqrt(go(x.a[0]))
        if x.k == "abs":
            return f_abs(go(x.a[0]))
        if x.k == "trunc":
            return trunc(go(x.a[0]))
        if x.k == "idx":
            ix = []
            for y in x.a[1]:
                y = go(y)
                ix += list(y.a[0]) if y.k == "ixs" else [y]
            return idx(go(x.a[0]), tuple(ix))
        if x.k == "fld":
            return fld(go(x.a[0]), x.a[1], x.a[2])
        if x.k == "sumlist":
            return sum_of([(go(v), as_bool(go(g))) for v, g in x.a[0]])
        a = tup(x.a)
        if a == x.a:
            return x
        if x.k == "words":
            return words(a[0])
        return per_case(*a) if x.k == "call" and str(a[0]).startswith("hdf5.") else mk(x.k, *a)
    return go(t)


def subst_guard(g, m):
    return as_bool(subst(mk_bool(g), m))


# ---------------------------------------------------------------- structure
VARIANT_OTHER = {"Some": "None", "Ok": "Err", "Continue": "Break"}
VARIANT_CANON = {"None": "Some", "Err": "Ok", "Break": "Continue"}


def is_variant(t, name):
    if t.k == "adt":
        return int(t.a[1] == name)
    if t.k == "case":
        return B.OR(*[B.AND(c, is_variant(v, name)) for v, c in t.a[0]])
    if name in VARIANT_CANON:
        return B.NOT(is_variant(t, VARIANT_CANON[name]))
    return B.var("IS", t, name)


def fld(t, variant, name):
    """Field `name` of t (after a downcast to `variant`, '' for structs and tuples)."""
    if t.k == "adt":
        names = t.a[2]
        if name in names and (not variant or t.a[1] == variant):
            return t.a[3][names.index(name)]
        return mk("undef")
    if t.k in ("tuple", "array", "closure"):
        vals = t.a[-1]
        if name.isdigit() and int(name) < len(vals):
            return vals[int(name)]
    if t.k == "with":
        # functional update: base, ((field, value), ...)
        for n, v in t.a[1]:
            if n == name:
                return v
        return fld(t.a[0], variant, name)
    if t.k == "case":
        return mk_case([(fld(v, variant, name), c) for v, c in t.a[0]
                        if not (variant and v.k == "adt" and v.a[1] != variant)])
    return mk("fld", t, variant, name)


def with_field(t, name, v):
    if t.k == "adt" and name in t.a[2]:
        vals = list(t.a[3])
        vals[t.a[2].index(name)] = v
        return mk("adt", t.a[0], t.a[1], t.a[2], tuple(vals))
    if t.k in ("tuple", "array", "closure") and name.isdigit() and int(name) < len(t.a[-1]):
        vals = list(t.a[-1])
        vals[int(name)] = v
        return mk(t.k, *t.a[:-1], tuple(vals))
    if t.k == "with":
        d = dict(t.a[1])
        d[name] = v
        return mk("with", t.a[0], tuple(sorted(d.items())))
    return mk("with", t, ((name, v),))


def tint(t):
    """Integer value of a numeric constant term, else None."""
    if is_num(t):
        v = num_val(t)
        if v.denominator == 1:
            return int(v)
    return None


def idx(base, ix):
    """Element ix (tuple of terms) of an array-like term; views and nesting are flattened."""
    if not ix:
        return base
    if base.k == "case" and len(base.a[0]) <= 8:
        return mk_case([(idx(v, ix), c) for v, c in base.a[0]])
    if base.k == "array":
        n = tint(ix[0])
        if n is not None and 0 <= n < len(base.a[0]):
            return idx(base.a[0][n], ix[1:])
        if n is None and ix[0].k == "case" and small_case(ix[0]):
            return mk_case([(idx(base, (v,) + ix[1:]), c) for v, c in ix[0].a[0]])
        b = spread_of(base)
        if b is not None:
            return idx(b, ix)
        return mk("idx", base, ix)
    if base.k == "rep":
        return idx(base.a[0], ix[1:])
    if base.k == "vec" and base.a[0].k == "array":
        return idx(base.a[0], ix)
    if base.k == "view":
        b, elems = base.a
        free = sum(e[0] != "ix" for e in elems)
        if tuple(ix) == (ANY,) and free > 1:
            ix = tuple(anyk(k) for k in range(free))
        out, k = [], 0
        for e in elems:
            if e[0] == "ix":
                out.append(e[1])
            elif k < len(ix):
                if e[0] == "all":
                    out.append(ix[k])
                else:                      # rng lo, step 1
                    out.append(add(e[1], ix[k]))
                k += 1
            else:                          # partially indexed view: keep the rest as a view
                rest = [("ix", o) for o in out] + list(elems[len(out):])
                return mk("view", b, tuple(rest))
        return idx(b, tuple(out) + tuple(ix[k:]))
    if base.k == "idx":
        return idx(base.a[0], base.a[1] + tuple(ix))
    if base.k == "full":                   # constant-filled array
        return base.a[0]
    if base.k == "elemupd" and ix == (ANY,):
        b, at, val = base.a
        ix0 = tuple(anyk(k) for k in range(len(at)))
        g = 1
        for x, y in zip(at, ix0):
            g = B.AND(g, cmp("Eq", x, y, True))
        low = idx(b, (ANY,))
        old = mk("idx", b, at)
        if old in subterms(val):
            val = subst(val, {old: low})
        return mk_case([(val, g), (low, B.NOT(g))])
    if base.k == "viewupd":
        b, el, val = base.a
        ixs = tuple(anyk(k) for k in range(len(el))) if ix == (ANY,) else ix
        if len(ixs) >= len(el):
            g, rest = 1, []
            for e, x in zip(el, ixs):
                if e[0] == "ix":
                    g = B.AND(g, cmp("Eq", e[1], x, True))
                elif e[0] == "rng":
                    g = B.AND(g, cmp("Ge", x, e[1], True))
                    if e[2] is not None:
                        g = B.AND(g, cmp("Lt", x, e[2], True))
                    rest.append(sub(x, e[1]))
                else:
                    rest.append(x)
            rest += list(ixs[len(el):])
            return mk_case([(idx(val, tuple(rest)), g), (idx(b, ix), B.NOT(g))])
        return mk("idx", base, tuple(ix))
    if base.k == "elemupd":
        b, at, val = base.a
        n = min(len(at), len(ix))
        same = True
        for x, y in zip(at, ix):
            if x is y:
                continue
            if tint(sub(x, y)) is not None:
                return idx(b, ix)
            same = False
        if len(ix) >= len(at):
            if same:
                return idx(val, tuple(ix[n:]))
            g = 1
            for x, y in zip(at, ix):
                g = B.AND(g, cmp("Eq", x, y, True))
            return mk_case([(idx(val, tuple(ix[n:])), g), (idx(b, ix), B.NOT(g))])
        return mk("idx", base, tuple(ix))
    if base.k == "bew":                    # an array in an array, seen from outside
        body, dims, var = base.a
        if ix == (ANY,):
            ix = tuple(anyk(k) for k in range(len(dims)))
        if len(ix) < len(dims):
            return mk("view", base, tuple(("ix", x) for x in ix)
                      + (("all",),) * (len(dims) - len(ix)))
        return idx(at_position(body, var, ix[:len(dims)]), tuple(ix[len(dims):]))
    if base.k == "ew":                     # elementwise expression
        dims = base.a[1]
        if dims is not None and ix != (ANY,):
            deep = max(len(dims), depth_any(base.a[0]))   # written as a table of tables
            if deep > len(dims) and len(ix) >= deep:
                return idx(subst_any(base.a[0], tuple(ix[:deep])), tuple(ix[deep:]))
            if len(ix) < deep:
                return mk("view", base, tuple(("ix", x) for x in ix)
                          + (("all",),) * (deep - len(ix)))
            if len(ix) > len(dims):
                return idx(subst_any(base.a[0], tuple(ix[:len(dims)])), tuple(ix[len(dims):]))
        return subst_any(base.a[0], tuple(ix))
    if base.k == "flat" and len(ix) == 1:  # all elements in row-major order
        x = anyk(0) if ix[0] is ANY else ix[0]
        d = base.a[1]
        return idx(base.a[0], tuple(uix(d, x, k) for k in range(len(d))))
    if base.k == "poly":
        return base
    if any(wraps(x) for x in ix):
        k = next(k for k, x in enumerate(ix) if wraps(x))
        return mk_case([(idx(base, tuple(ix[:k]) + (v,) + tuple(ix[k + 1:])), c)
                        for v, c in ix[k].a[0]])
    return mk("idx", base, tuple(ix))


def wraps(x):
    """x is a choice one side of which wrapped around zero."""
    return x.k == "case" and any(v.k == "poly" and abs(poly(v).get((), 0)) >= 2 ** 31
                                 for v, _ in x.a[0])


def spread_of(arr):
    """b of an array term [b[0], b[1], ...]."""
    if not arr.a[0]:
        return None
    b = None
    for i, x in enumerate(arr.a[0]):
        if x.k != "idx" or tint(x.a[1][-1]) != i:
            return None
        c = (x.a[0], x.a[1][:-1])
        if b is not None and c != b:
            return None
        b = c
    return idx(b[0], b[1])


ANY = mk("any")


def ew(body, dims=None):
    """The array of extents `dims` (None: that of the arrays in body) whose element at every
    position is `body`; ANY stands for the position, anyk(k) for its component k."""
    if body.k == "case" and dims is not None:
        care = 1
        for k, n in enumerate(dims):
            care = B.AND(care, cmp("Lt", mk("anyk", ANY, k), n, True))
        ps = []
        for v, c in body.a[0]:
            h = B.AND(care, c)
            if h == care:
                return ew(v, dims)
            if h:
                ps.append((v, B.restrict(c, care)))
        body = mk_case(ps)
    if body.k == "idx" and body.a[1] == (ANY,):
        return body.a[0]
    return mk("ew", body, dims)


_free = {}


def free_any(t):
    """The position of an array around t matters to t."""
    r = _free.get(t)
    if r is None:
        r = _free[t] = t is ANY or any(
            free_any(x) for x in ((t.a[1] or ()) if t.k == "ew" else children(t)))
    return r


_deep = {}


def depth_any(t):
    """How many components of the position of an array around t are told apart in t."""
    r = _deep.get(t)
    if r is None:
        if t.k == "anyk" and t.a[0] is ANY:
            r = t.a[1] + 1
        else:
            r = max([0] + [depth_any(x) for x in
                           ((t.a[1] or ()) if t.k == "ew" else children(t))])
        _deep[t] = r
    return r


_below = {}


def occurs(x, t):
    r = _below.get((x, t))
    if r is None:
        r = _below[x, t] = x in subterms(t)
    return r


def inner(body, dims, var):
    """An array whose elements depend on the position of the array it is kept in (ANY)."""
    if free_any(body) or any(free_any(d) for d in dims):
        return mk("bew", body, dims, var)
    return ew(at_position(body, var, tuple(mk("anyk", ANY, k) for k in range(len(dims)))), dims)


def at_position(body, var, ix):
    return subst(body, {mk("anyk", var, k): x for k, x in enumerate(ix)})


def anyk(k):
    return mk("anyk", ANY, k)


def uix(dims, pos, k):
    """Component k of the row-major position `pos` in an array of extents dims."""
    if pos.k == "flatpos" and pos.a[0] == tuple(dims):
        return pos.a[1][k]
    return mk("uix", tuple(dims), pos, k)


#: dim_of is completed by vfg (extents of arrays known by construction)
def dim_of(v, k):
    return mk("dim", v, k)


def trunc(v):
    return mk("trunc", v)


# ---------------------------------------------------------------- binders
#: a bound position is named by its binder's nesting level, so terms are equal up to renaming
_lvl = {}


BINDERS = ("sum", "fin", "filtered", "concatmap", "extr", "lastpos", "first")


def level(t):
    """Highest binder level in t."""
    r = _lvl.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _lvl:
            st.pop()
            continue
        todo = [y for y in children(x) if y not in _lvl]
        if todo:
            st += todo
            continue
        n = max([_lvl[y] for y in children(x)], default=0)
        if x.k in BINDERS:
            n = max(n, x.a[0])
        gs = [x.a[0]] if x.k == "bool" else [c for _, c in x.a[0]] if x.k == "case" else []
        for g in gs:
            for at in B.atoms(g):
                if at[0] == "EX":
                    n = max(n, at[1])
        _lvl[x] = n
        st.pop()
    return _lvl[t]


def solve(g, var):
    """t with g => var == t, t free of var, else None."""
    for v in sorted(B.support(g)):
        at = B.vars[v]
        if at[0] == "E" and at[2] and B.cofactor(g, v, 0) == 0:
            p = poly(at[1])
            c = p.get(((var, 1),))
            if c in (1, -1):
                rest = dict(p)
                del rest[((var, 1),)]
                t = scale(from_poly(rest), -c)
                if var not in subterms(t):
                    return t
    return None


def solve_flat(g, var):
    """(t, guard) when g pins every component of the row-major position var."""
    us = {x for x in subterms(mk_bool(g)) if x.k == "uix" and x.a[1] is var}
    dims = {x.a[0] for x in us}
    if len(dims) != 1 or len(us) < len(min(dims, key=len)):
        return None
    dims = dims.pop()
    n = num(1)
    for d in dims:
        n = mul(n, d)
    dom = cmp("Lt", var, n, True)
    rest = B.restrict(g, dom)
    if B.AND(dom, rest) != g:
        return None
    ts = [solve(g, mk("uix", dims, var, k)) for k in range(len(dims))]
    if any(t is None or var in loopy(t) for t in ts):
        return None
    t = mk("flatpos", dims, tuple(ts))
    h = subst_guard(rest, {var: t})
    if var in loopy(mk_bool(h)):
        return None
    return t, B.AND(h, *[B.AND(cmp("Lt", x, d, True), cmp("Ge", x, num(0), True))
                         for x, d in zip(ts, dims)])


def some_position(g, var):
    """(guard that g holds at some position, first and last such position): g as a condition on
    the position var >= 0.  Positions that count down are named by what they look at."""
    t = solve(g, var)
    if t is not None:
        return B.AND(subst_guard(g, {var: t}), cmp("Ge", t, num(0), True)), t, t
    fl = solve_flat(g, var)
    if fl is not None:
        return fl[1], fl[0], fl[0]
    gt = mk_bool(g)
    c = counts_down(gt, var)
    if c is not None:
        v = mk("gv", ("down", c.id))
        g = B.AND(subst_guard(g, {var: sub(c, v)}), cmp("Lt", v, add(c, num(1)), True))
        gt, var = mk_bool(g), v
    n = 1 + level(gt)
    gt = subst(gt, {var: mk("bv", n)})
    first, last = mk("first", n, gt), mk("lastpos", n, gt)
    if c is not None:
        first, last = sub(c, last), sub(c, first)
    return B.var("EX", n, gt), first, last


def counts_down(gt, var):
    """c when every lookup by var is at c - var, else None."""
    found = None
    for x in subterms(gt):
        if x.k == "idx":
            for i in x.a[1]:
                if not (isinstance(i, T) and var in loopy(i)):
                    continue
                p = poly(i)
                if p.get(((var, 1),)) != -1:
                    return None
                c = add(i, var)
                if var in loopy(c) or found not in (None, c):
                    return None
                found = c
    return found


#: names a summed position by what it looks up (set by roles)
reindex = None


def depends(at, var, memo):
    r = memo.get(at)
    if r is None:
        r = memo[at] = any(isinstance(x, T) and var in loopy(x) for x in at[1:]) or (
            at[0] == "EX" and var in loopy(mk_bool(B.var(*at))))
    return r


def summation(delta, g, var):
    """Sum of delta over the positions var >= 0 at which g holds."""
    if g == 0:
        return num(0)
    if delta.k == "case":
        r = num(0)
        for v, c in delta.a[0]:
            r = add(r, summation(v, B.AND(g, c), var))
        return r
    if is_num(delta) and num_val(delta) == 0:
        return delta
    t = solve(g, var)
    if t is not None:
        h = B.AND(subst_guard(g, {var: t}), cmp("Ge", t, num(0), True))
        return mk_case([(subst(delta, {var: t}), h), (num(0), B.NOT(h))])
    fl = solve_flat(g, var)
    if fl is not None:
        return mk_case([(subst(delta, {var: fl[0]}), fl[1]), (num(0), B.NOT(fl[1]))])
    un = listed(delta, g, var)
    if un is not None:
        return un
    un = unfilter(delta, g, var)
    if un is not None:
        return summation(un[0], un[1], var)
    # what does not depend on the position is decided outside the sum
    deps = {}
    out = B.exists(g, lambda at: depends(at, var, deps))
    if out != 1:
        s = summation(delta, B.restrict(g, out), var)
        return mk_case([(s, out), (num(0), B.NOT(out))])
    if reindex is not None:
        r = reindex(delta, g, var)
        if r is not None:
            delta, g = r
    fl = unflatten(delta, g, var)
    if fl is not None:
        return fl
    r = num(0)
    gt = mk_bool(g)
    for m, c in poly(delta).items():
        inn, out = [], []
        for a, e in m:
            (inn if var in loopy(a) else out).append((a, e))
        d = from_poly({tuple(inn): Fraction(1)})
        n = 1 + max(level(d), level(gt))
        b = mk("bv", n)
        s = mk("sum", n, subst(d, {var: b}), subst(gt, {var: b}))
        if out:
            s = mul(from_poly({tuple(out): Fraction(1)}), s)
        r = add(r, scale(s, c))
    return r


def unfilter(delta, g, var):
    """A walk over the elements of a sequence that pass a filter, as a walk over all of it."""
    xs = {x for x in list(subterms(delta)) + [y for a in B.atoms(g) for t in a if isinstance(t, T)
                                             for y in subterms(t)]
          if x.k == "idx" and x.a[0].k == "filtered" and x.a[1] == (var,)
          and var not in subterms(x.a[0])}
    if len(xs) != 1:
        return None
    x = xs.pop()
    _, lv, body, keep, n, cnt = ("", *x.a[0].a)
    inr = cmp("Lt", var, cnt, True)
    rest = B.restrict(g, inr)
    if B.AND(rest, inr) != g:
        return None
    hole = mk("gv", ("element",))
    if var in subterms(subst(delta, {x: hole})) or any(
            isinstance(y, T) and var in subterms(y) for a in B.atoms(subst_guard(rest, {x: hole}))
            for y in a):
        return None
    m = {mk("bv", lv): var}
    at = {x: subst(body, m)}
    return subst(delta, at), B.AND(subst_guard(rest, at), subst_guard(as_bool(keep), m),
                                   cmp("Lt", var, n, True))


def sum_of(ps):
    """The sum of the terms v for the (v, condition) that hold; kept as a list."""
    out = []
    for v, g in ps:
        for u, c in v.a[0] if v.k == "case" else ((v, 1),):
            c = B.AND(g, c)
            if c != 0 and not (is_num(u) and num_val(u) == 0):
                out.append((u, mk_bool(c)))
    return mk("sumlist", tuple(out)) if out else num(0)


def listed(delta, g, var):
    """A sum over the elements of a written-out list is written out."""
    if not any(x.k == "idx" and x.a[0].k == "array" and any(
            isinstance(i, T) and var in loopy(i) for i in x.a[1])
            for x in subterms(delta, mk_bool(g))):
        return None
    for v in B.support(g):
        at = B.vars[v]
        if at[0] in "EL" and at[2]:
            p = poly(at[1])
            if set(p) == {((var, 1),), ()} and abs(p[((var, 1),)]) == 1:
                n = -p[()] / p[((var, 1),)]
                if 0 <= n <= 64 and not sat(B.AND(g, B.NOT(cmp("Lt", var, num(n), True)))):
                    rs = []
                    for i in range(int(n)):
                        m = {var: num(i)}
                        h = subst_guard(g, m)
                        rs.append((subst(delta, m), h))
                    return sum_of(rs)
    return None


def unflatten(delta, g, var):
    """A sum over row-major positions becomes the nested sum over the components."""
    us = {x for x in subterms(delta, mk_bool(g)) if x.k == "uix" and x.a[1] is var}
    if not us:
        return None
    dims = {x.a[0] for x in us}
    if len(dims) != 1:
        return None
    dims = dims.pop()
    n = num(1)
    for d in dims:
        n = mul(n, d)
    dom = cmp("Lt", var, n, True)
    rest = B.restrict(g, dom)
    if B.AND(dom, rest) != g:
        return None
    vs = tuple(mk("gv", ("u", k)) for k in range(len(dims)))
    m = {mk("uix", dims, var, k): vs[k] for k in range(len(dims))}
    d2, g2 = subst(delta, m), subst_guard(rest, m)
    if var in loopy(d2) or var in loopy(mk_bool(g2)):
        return None
    r = d2
    for k in range(len(dims) - 1, -1, -1):
        r = summation(r, B.AND(g2, cmp("Lt", vs[k], dims[k], True)), vs[k])
        g2 = 1
    return r


def total_of(v, dims):
    """Sum of all elements of array v of extents dims."""
    vs = tuple(mk("gv", ("u", k)) for k in range(len(dims)))
    r = idx(v, vs)
    for k in range(len(dims) - 1, -1, -1):
        r = summation(r, cmp("Lt", vs[k], dims[k], True), vs[k])
    return r


def subst_any(body, ix):
    if ix == (ANY,):
        return body
    return subst(body, {ANY: mk("ixs", ix)})


def show_atom(at):
    k = at[0]
    if k in ("L", "E", "G"):
        return f"({show(at[1])} {dict(L='<', E='==', G='>')[k]} 0)"
    if k == "NAN":
        return f"isnan({show(at[1])})"
    if k == "EQ":
        return f"({show(at[1])} == {show(at[2])})"
    if k == "P":
        return show(at[1])
    if k == "IS":
        return f"({show(at[1])} is {at[2]})"
    return k + "(" + ", ".join(show(x) if isinstance(x, T) else str(x) for x in at[1:]) + ")"


_left = None                                   # terms still to be printed


def show(t, depth=0):
    """t as text, cut off where it gets long."""
    global _left
    if _left is None:
        _left = 3000
        try:
            return show_(t, depth)
        finally:
            _left = None
    _left -= 1
    return "…" if _left < 0 else show_(t, depth)


def show_(t, depth):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 14:
        return "…"
    d = depth + 1
    k, a = t.k, t.a
    if k == "poly":
        if is_num(t):
            v = num_val(t)
            return str(v) if v.denominator == 1 else str(float(v))
        out = []
        for m, c in a[0]:
            s = "*".join((show(x, d) if e == 1 else f"{show(x, d)}^{e}") for x, e in m)
            cs = str(c) if c.denominator == 1 else str(float(c))
            out.append(s if c == 1 and s else ("-" + s if c == -1 and s else cs + ("*" + s if s else "")))
        return "(" + " + ".join(out) + ")"
    if k == "bool":
        return B.show(a[0], 4)
    if k == "case":
        return "case{" + "; ".join(f"{show(v, d)} if {B.show(c, 3)}" for v, c in a[0]) + "}"
    if k == "arg":
        return f"arg{a[0]}"
    if k == "fld":
        return f"{show(a[0], d)}." + (f"{a[1]}." if a[1] else "") + a[2]
    if k == "idx":
        return f"{show(a[0], d)}[{', '.join(show(x, d) for x in a[1])}]"
    if k == "call":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1:])})"
    if k == "iv":
        return f"i{a[0]}"
    if k == "str":
        return repr(a[0])
    if k == "adt":
        return f"{a[1]}({', '.join(f'{n}: {show(v, d)}' for n, v in zip(a[2], a[3]))})"
    if k in ("tuple", "array"):
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    return f"{k}(" + ", ".join(show(x, d) if isinstance(x, (T, tuple)) else str(x) for x in a) + ")"

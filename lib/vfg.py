"""Guarded value-flow analysis of the compiler's MIR.

Abstract interpretation over symbolic value terms (terms.py): every local holds the term of the
value flowing into it, joins are gated by BDD path conditions, loops are summarised once
(header values that change become loop terms, linear ones become induction terms), local
functions and closures are inlined through resolved callees.  No path is enumerated and no
solver is consulted.  The result of analysing a function is the value it returns, the final
state of what its parameters refer to and a log of guarded effects."""

from fractions import Fraction

import roles
import terms
from terms import (ANY, anyk, level, solve, solve_flat, summation, B, FALSE, T, TRUE, Unsupported, add, as_bool, cmp, div, eq, ew, f_abs,
                   f_sqrt, fld, idx, inv, is_nan, is_num, is_variant, lift, mk, mk_bool, mk_case,
                   mul, neg, num, num_val, poly, power, scale, show, small_case, sub, subst,
                   subst_guard, subterms, loopy, tint, with_field, guard_terms)

UNIT = mk("tuple", ())
UNDEF = mk("undef")

#: types that cannot hold every count or time, and the bits they have
SMALL = {"i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "f32": 32}


def narrow(v, before, after):
    """A number put into a type that cannot hold all those of the type it had."""
    if after not in SMALL or before in ("", "char") or SMALL.get(before, 64) <= SMALL[after]:
        return v
    if is_num(v) and (after == "f32" or -2 ** (SMALL[after] - 1) <= num_val(v) < 2 ** (SMALL[after] - 1)):
        return v
    return mk("narrow", after, v)



class Prog:
    """The resolved program, indexed."""

    def __init__(self, js):
        self.js = js
        self.fns = {f["id"]: f for f in js["fns"]}
        self.adts = {a["path"]: a for a in js.get("adts", [])}
        self.traits = {t["path"]: t for t in js.get("traits", [])}
        self.cfg = {}

    def find(self, suffix, pred=None):
        r = [f for f in self.js["fns"] if f["id"].endswith("::" + suffix)
             and (pred is None or pred(f))]
        return r

    def method(self, self_ty, trait, name):
        """Body of an inherent (trait None) or trait method."""
        r = [f for f in self.js["fns"] if f["kind"] == "fn" and f["name"] == name
             and (f.get("impl_self") or "").split("<")[0].endswith(self_ty)
             and ((f.get("impl_trait") or "").split("<")[0].endswith(trait) if trait
                  else not f.get("impl_trait"))]
        return r[0] if len(r) == 1 else None

    def default(self, trait, name):
        r = [f for f in self.js["fns"] if f["kind"] == "fn" and f["name"] == name
             and (f.get("trait_default") or "").endswith(trait)]
        return r[0] if len(r) == 1 else None

    def trait_impl(self, trait, name, self_ty):
        """The body a call of `trait::name` on self_ty reaches, if it is local and unique."""
        t = self.traits.get(trait)
        if not t:
            return None
        for im in t["impls"]:
            if im["self"] == self_ty:
                for it in im["items"]:
                    if it["name"] == name:
                        return it["id"]
        return None

    def overridden(self, trait, name):
        t = self.traits.get(trait)
        return bool(t) and any(it["name"] == name for im in t["impls"] for it in im["items"])

    def blocks(self, fn):
        c = self.cfg.get(fn["id"])
        if c is None:
            c = self.cfg[fn["id"]] = Cfg(fn)
        return c


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return r
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    return []


class Cfg:
    def __init__(self, fn):
        self.fn = fn
        self.bl = fn["blocks"]
        seen, st = set(), [0]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += succs(self.bl[b]["t"])
        self.nodes = frozenset(seen)
        self.succ = {b: succs(self.bl[b]["t"]) for b in seen}
        self.cache = {}
        # blocks from which no return is reachable (they only lead to a panic)
        pred = {}
        for b in seen:
            for w in self.succ[b]:
                pred.setdefault(w, []).append(b)
        live = {b for b in seen if self.bl[b]["t"][0] == "return"}
        st = list(live)
        while st:
            for u in pred.get(st.pop(), ()):
                if u not in live:
                    live.add(u)
                    st.append(u)
        self.doomed = frozenset(seen - live) if live else frozenset()

    def with_doomed(self, comp):
        """comp plus the panicking blocks it leads to."""
        out, st = set(comp), list(comp)
        while st:
            for w in self.succ[st.pop()]:
                if w in self.doomed and w not in out:
                    out.add(w)
                    st.append(w)
        return frozenset(out)

    def order(self, nodes, entry):
        """SCCs of `nodes` without edges into entry, in topological order."""
        k = (nodes, entry)
        if k in self.cache:
            return self.cache[k]
        index, low, onst, st, out = {}, {}, set(), [], []
        ctr = [0]

        def nx(v):
            return [w for w in self.succ[v] if w in nodes and w != entry]

        for root in [entry] + sorted(nodes):
            if root in index:
                continue
            work = [(root, iter(nx(root)))]
            index[root] = low[root] = ctr[0]
            ctr[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(nx(w))))
                        break
                    if w in onst:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append(frozenset(comp))
        out.reverse()
        self.cache[k] = out
        return out


class Ev:
    """One logged effect."""
    __slots__ = ("kind", "name", "obj", "place", "args", "cond", "loops", "fn", "sp", "val",
                 "old", "extra")

    def __init__(self, kind, **kw):
        self.kind = kind
        for k in self.__slots__[1:]:
            setattr(self, k, kw.get(k))

    def __repr__(self):
        s = f"[{self.kind}] {self.name or ''} "
        if self.obj is not None:
            s += f"on {show(self.obj)} "
        if self.args is not None:
            s += f"({', '.join(show(a) for a in self.args)}) "
        if self.val is not None:
            s += f"val={show(self.val)} "
        return s + f"loops={self.loops} if {B.show(self.cond, 6)}"


def whole_elements(b, init):
    """b with the parts of an element that are written one by one written at once, for an array
    whose elements are arrays."""
    if b.k == "case":
        return mk_case([(whole_elements(x, init), c) for x, c in b.a[0]])
    if b.k != "elemupd":
        return b
    e = idx(init, (ANY,))
    if e.k != "array" or not e.a[0] or len(b.a[1]) < 2:
        return b
    parts, v, at = {}, b, b.a[1][:-1]
    while v.k == "elemupd" and v.a[1][:-1] == at and tint(v.a[1][-1]) is not None:
        parts.setdefault(tint(v.a[1][-1]), v.a[2])
        v = v.a[0]
    el = [parts.get(k) or idx(v, at + (num(k),)) for k in range(len(e.a[0]))]
    return mk("elemupd", v, at, mk("array", tuple(el)))


CALLS = ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce",
         "core::ops::Fn", "core::ops::FnMut", "core::ops::FnOnce")


class State:
    __slots__ = ("env", "cond")

    def __init__(self, env, cond):
        self.env, self.cond = env, cond

    def copy(self):
        return State(dict(self.env), self.cond)


class Frame:
    __slots__ = ("fn", "key", "depth", "cfg", "site")

    def __init__(self, fn, key, depth, cfg):
        self.fn, self.key, self.depth, self.cfg = fn, key, depth, cfg
        self.site = None


class Dead(Exception):
    """The current path diverges."""


OPAQUE_TRAITS = ("grid::GridFunctions3D", "datamanager::DataManager", "particleselector::Selector",
                 "datamanager::Manager")
MAX_DEPTH = 14
#: grid operations that only depend on the layout, which copies of a grid share
GEOMETRY = ("is_inside", "cell_id", "get_cells", "get_limits", "get_xpositions", "get_ypositions",
            "get_zpositions", "is_cylindrical")
#: transparent containers: their field is the value itself
WRAPPERS = ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit",
            "std::mem::ManuallyDrop", "std::mem::MaybeDangling", "core::mem::MaybeDangling",
            "std::mem::maybe_dangling::MaybeDangling")


def strip_ref(ty):
    ty = ty.strip()
    while ty.startswith("&") or ty.startswith("*"):
        ty = ty.lstrip("&*").strip()
        for p in ("mut ", "const "):
            if ty.startswith(p):
                ty = ty[len(p):]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
            if ty.startswith("mut "):
                ty = ty[4:]
    return ty


def is_arr(ty):
    return strip_ref(ty).startswith("ndarray::ArrayBase")


def is_intty(ty):
    ty = strip_ref(ty)
    return ty in ("usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64",
                  "i128", "bool", "char")


def is_floatty(ty):
    return strip_ref(ty) in ("f64", "f32", "F")


def is_mut_ref(ty):
    ty = ty.strip()
    if ty.startswith("*mut"):
        return True
    if not ty.startswith("&"):
        return False
    r = ty[1:].strip()
    if r.startswith("'"):
        r = r.split(" ", 1)[1] if " " in r else r
    return r.startswith("mut ")


def arr_rank(ty):
    ty = strip_ref(ty)
    i = ty.rfind("ndarray::Dim<[usize; ")
    if i < 0:
        return None
    j = ty.index("]", i)
    try:
        return int(ty[i + len("ndarray::Dim<[usize; "):j])
    except ValueError:
        return None


def fixed_len(ty):
    """N of `[T; N]`, else None."""
    ty = strip_ref(ty)
    if ty.startswith("[") and ty.endswith("]") and ";" in ty:
        n = ty[ty.rfind(";") + 1:-1].strip().split("_")[0]
        if n.isdigit():
            return int(n)
    return None


def split_args(ty):
    """Generic arguments of `Path<A, B>`."""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:-1]:
        if ch in "<([{":
            d += 1
        elif ch in ">)]}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def filtered(e, keep, n, var):
    """The elements e(var), var < n, for which keep(var) holds, in order; last part: how many."""
    kt = mk_bool(keep)
    lv = 1 + max(level(e), level(kt))
    m = {var: mk("bv", lv)}
    cnt = summation(num(1), B.AND(keep, cmp("Lt", var, n, True)), var)
    return mk("filtered", lv, subst(e, m), subst(kt, m), n, cnt)


def concatmap(e, n, var):
    lv = 1 + level(e)
    return mk("concatmap", lv, subst(e, {var: mk("bv", lv)}), n)


def rising(e, iv):
    """Guard e, once true, stays true as the counter iv grows."""
    lines = set()
    for at in B.atoms(e):
        if at[0] in ("L", "E") and len(at) == 3 and at[2]:
            c = poly(at[1]).get(((iv, 1),))
            if c in (1, -1) and iv not in subterms(sub(at[1], scale(iv, c))):
                lines.add((at[1], c))
                continue
        if any(isinstance(x, terms.T) and iv in subterms(x) for x in at[1:]):
            return False
    for q, c in lines:
        le, eq = B.var("L", q, True), B.var("E", q, True)
        before = B.AND(le, B.NOT(eq))
        states = [B.restrict(e, x) for x in (before, eq, B.NOT(B.OR(before, eq)))]
        if c < 0:
            states.reverse()
        if any(not terms.implies(a, b) for a, b in zip(states, states[1:])):
            return False
    return True


class Analysis:
    def __init__(self, prog, opaque=(), opaque_traits=OPAQUE_TRAITS, signals=False, sealed=()):
        self.sealed = dict(sealed)             # function id -> the name its calls are kept under
        self.signals = signals                 # follow the interrupted branch as well
        self.p = prog
        self.opaque = set(opaque) | set(self.sealed)  # function ids kept as calls
        self.opaque_traits = tuple(opaque_traits)
        self.log = []
        self.loopstack = []
        self.loops = {}                        # lid -> info
        self.lids = {}
        self.frames = {}
        self.unknown = {}                      # callee -> count, not modelled
        self.peel = ()
        self.fixed = {}                        # arrays of a constant length
        self.inlined = set()
        self.analysed = set()
        self.visits = 0
        self.skips = []
        self.loop_nodes = []
        self.decided = [None]
        self.philike = {}
        self.depth = 0
        self.loopterm = {}
        self.shapes = {}                       # shape term -> rank
        self.allocs = {}                       # (frame, site) -> ordinal of a created grid
        self.muts = {}                         # grid object -> names of the changes made to it
        self.zeroext = set()
        terms.dim_of = self.dim
        terms.rank_of = self.rank
        terms.trunc = self.trunc

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, cond=1):
        """Analyses fn from symbolic arguments."""
        env = {}
        vals = []
        n = fn["argc"]
        for i in range(n):
            a = args[i] if args and i < len(args) and args[i] is not None else mk("arg", i)
            ty = fn["locals"][i + 1]["ty"]
            if is_mut_ref(ty):
                env[("obj", i)] = a
                vals.append(mk("mref", ("obj", i), ()))
            else:
                vals.append(a)
        self.st = State(env, cond)
        ret = self.call_fn(fn, vals, ("top",))
        self.ret = ret
        self.final = {r[1]: v for r, v in self.st.env.items() if r[0] == "obj"}
        self.held = {r[1:]: v for r, v in self.st.env.items() if r[0] == "held"}
        return ret

    # ------------------------------------------------------------ function bodies
    def call_fn(self, fn, args, site):
        if self.depth > MAX_DEPTH or any(s == fn["id"] for s in self.callstack()):
            self.note("recursion " + fn["id"])
            return mk("call", fn["id"], *[self.snap(a) for a in args])
        parent = getattr(self, "fr", None)
        key0 = ((parent.key if parent else 0), site, fn["id"], self.peel)
        key = self.frames.setdefault(key0, len(self.frames) + 1)
        fr = Frame(fn, key, self.depth, self.p.blocks(fn))
        fr.site = parent
        self.analysed.add(fn["id"])
        env = self.st.env
        for i in range(1, fn["argc"] + 1):
            env[(key, i)] = args[i - 1] if i - 1 < len(args) else UNDEF
        old = parent
        self.fr = fr
        self.depth += 1
        cond0 = self.st.cond
        try:
            outs, backs, rets = self.region(fr, fr.cfg.nodes, 0, self.st)
        finally:
            self.fr = old
            self.depth -= 1
        rets = rets + []
        if not rets:
            raise Dead()
        st = self.join(rets)
        ret = st.env.get((key, 0), UNIT)
        for r in [r for r in st.env if r[0] == key]:
            if not self.referenced(r, ret, st.env, key):
                del st.env[r]
        self.st = st
        return ret

    def referenced(self, r, ret, env, key):
        # a reference into a callee's local cannot outlive it, but closures keep their frame
        return False

    def callstack(self):
        f = getattr(self, "fr", None)
        while f is not None:
            yield f.fn["id"]
            f = f.site

    def join(self, states):
        if len(states) == 1:
            return states[0]
        cond = B.OR(*[s.cond for s in states])
        env = {}
        keys = set()
        for s in states:
            keys.update(s.env)
        for k in keys:
            v0 = states[0].env.get(k)
            if all(s.env.get(k) is v0 for s in states[1:]):
                env[k] = v0
                continue
            vs = [(s.env[k], s.cond) for s in states if k in s.env]
            if k[0] == "held" and len(vs) < len(states):
                continue                       # what a grid holds is not known on every path
            env[k] = self.case(vs)
        return State(env, cond)

    def case(self, vs):
        care = B.OR(*[c for _, c in vs])
        return mk_case([(v, B.restrict(c, care)) for v, c in vs])

    # ------------------------------------------------------------ regions
    def region(self, fr, nodes, entry, st):
        """Evaluates the acyclic skeleton of `nodes`; returns (exits, backs, returns)."""
        incoming = {entry: [st]}
        exits, backs, rets = [], [], []

        def send(b, s):
            if s.cond == 0:
                return
            if b == "ret":
                rets.append(s)
            elif b == entry:
                backs.append(s)
            elif b in nodes:
                incoming.setdefault(b, []).append(s)
            else:
                exits.append((b, s))

        for comp in fr.cfg.order(nodes, entry):
            heads = [b for b in comp if b in incoming]
            if not heads:
                continue
            if len(comp) == 1:
                b = heads[0]
                if b != entry and b in fr.cfg.succ[b]:
                    loop = True
                else:
                    loop = False
            else:
                loop = True
            if not loop:
                s = self.join(incoming.pop(b))
                if s.cond == 0:
                    continue
                s = State(dict(s.env), s.cond)
                for t, s2 in self.block(fr, b, s):
                    send(t, s2)
            else:
                if len(heads) != 1:
                    raise Unsupported("irreducible loop in " + fr.fn["id"])
                h = heads[0]
                s = self.join(incoming.pop(h))
                if s.cond == 0:
                    continue
                for t, s2 in self.cfg_loop(fr, comp, h, s):
                    send(t, s2)
        return exits, backs, rets

    def cfg_loop(self, fr, comp, h, st):
        lid = self.lid((fr.key, h, self.peel), fr.fn["id"])
        comp = fr.cfg.with_doomed(comp)

        def body(s):
            self.decided.append(None)
            self.skips.append([])
            try:
                exits, backs, rets = self.region(fr, comp, h, s)
            finally:
                d = self.decided.pop()
                sk = self.skips.pop()
            exits = exits + [("ret", r) for r in rets]
            return backs + sk, exits, d

        self.loop_nodes.append((fr.key, comp))
        try:
            return self.run_loop(lid, st, body)
        finally:
            self.loop_nodes.pop()

    def lid(self, key, fnid):
        k = self.lids.get(key)
        if k is None:
            k = self.lids[key] = len(self.lids) + 1
            self.loops[k] = {"fn": fnid, "parent": self.loopstack[-1] if self.loopstack else None}
        return k

    # ------------------------------------------------------------ loops
    PEEL = 8

    def run_loop(self, lid, st0, body):
        """Summarises a loop.  body(state) -> (back states, [(target, exit state)], decided)."""
        mark = len(self.log)
        # constant trip count: unroll
        exits, cur, ok = [], st0, False
        oldpeel = self.peel
        for n in range(self.PEEL + 1):
            self.peel = oldpeel + ((lid, n),)
            try:
                backs, ex, d = body(State(dict(cur.env), cur.cond))
            except Dead:
                backs, ex, d = [], [], True
            if not d:
                break
            exits += ex
            if not backs:
                ok = True
                break
            nxt = self.join(backs)
            if self.too_long(cur.env, nxt.env):
                break
            cur = nxt
        self.peel = oldpeel
        if ok:
            return exits
        del self.log[mark:]
        return self.symbolic_loop(lid, st0, body, mark)

    def too_long(self, e0, e1):
        import models
        for k, v in e1.items():
            w = e0.get(k)
            if v is not w and v.k == "iter" and w is not None and w.k == "iter" \
                    and v.a[0] is w.a[0]:
                n = tint(models.seq_len(self, v.a[0]))
                if n is not None and n > self.PEEL:
                    return True
        return False

    def symbolic_loop(self, lid, st0, body, mark):
        self.loopstack.append(lid)
        info = self.loops[lid]
        phis = {}                              # phi term -> (root, init)
        ivs = {}                               # phi term -> induction value
        hdr = dict(st0.env)
        iv = mk("iv", lid)
        nextiv = {iv: add(iv, num(1))}
        try:
            for rnd in range(40):
                del self.log[mark:]
                try:
                    backs, exits, _ = body(State(dict(hdr), st0.cond))
                except Dead:
                    backs, exits = [], []
                if not backs:
                    break
                bst = self.join(backs)
                changed = False
                new = {}
                for k, hv in hdr.items():
                    bv = bst.env.get(k, UNDEF)
                    if bv is UNDEF:
                        continue
                    nv = self.widen(lid, hv, bv, st0.env[k], (k,), phis, nextiv)
                    if nv is not hv:
                        new[k] = nv
                        changed = True
                if changed:
                    hdr.update(new)
                    continue
                # stable: look for induction
                sub_ = {}
                for p, (path, init) in phis.items():
                    if p in ivs or (p, "no") in ivs:
                        continue
                    b = self.at_path(bst.env, path)
                    if b is None:
                        continue
                    step = self.step(p, b, lid)
                    if step is not None:
                        ivs[p] = True
                        sub_[p] = add(init, mul(step, iv))
                    else:
                        ivs[(p, "no")] = True
                if not sub_:
                    break
                for k in hdr:
                    if any(x in sub_ for x in self.phis_in(hdr[k])):
                        hdr[k] = subst(hdr[k], sub_)
            else:
                raise Unsupported("loop does not stabilise")
            cond0 = st0.cond
            half = self.halving(lid, phis, ivs, bst) if backs and exits else None
            if half:
                cond0 = B.AND(st0.cond, half[1])
                del self.log[mark:]
                backs, exits, _ = body(State(dict(hdr), cond0))
                if backs:
                    bst = self.join(backs)
            elif backs and exits:
                pre = self.earlier(lid, exits, bst.cond, st0.cond, iv)
                if pre:
                    # rounds after one that leaves the loop do not happen
                    cond0 = B.AND(st0.cond, B.NOT(pre))
                    del self.log[mark:]
                    backs, exits, _ = body(State(dict(hdr), cond0))
                    if backs:
                        bst = self.join(backs)
        finally:
            self.loopstack.pop()
        info.update(phis={p: (path, init) for p, (path, init) in phis.items()}, iv=iv)
        info["back"] = bst.cond if backs else 0
        # final values of the header terms that keep changing
        fin = {}
        if backs:
            info["cur"] = {p: (whole_elements(self.at_path(bst.env, path) or p, init), init)
                           for p, (path, init) in phis.items()}
            for p, (path, init) in phis.items():
                if ivs.get(p):
                    continue
                b = self.at_path(bst.env, path)
                if b is None:
                    continue
                b = whole_elements(b, init)
                if half and p in half[0]:
                    fin[p] = half[2]
                    continue
                fin[p] = self.final_value(lid, p, init, b, bst.cond, st0.cond)
                self.loopterm[p] = (init, b, fin[p], lid)
        return self.leave(lid, st0, exits, fin, info, cond0)

    def halving(self, lid, phis, ivs, bst):
        """A search by halving [lo, hi): (the two bounds, what holds of the middle, where the
        search ends).  Like partition_point it takes the list to be split in two by the test."""
        ps = [p for p in phis if not ivs.get(p)]
        if len(ps) != 2:
            return None
        b = {p: self.at_path(bst.env, phis[p][0]) for p in ps}
        if any(x is None or x.k != "case" or len(x.a[0]) != 2 for x in b.values()):
            return None
        for lo, hi in (ps, ps[::-1]):
            up = [(v, c) for v, c in b[lo].a[0] if v is not lo]
            down = [(v, c) for v, c in b[hi].a[0] if v is not hi]
            if len(up) != 1 or len(down) != 1:
                continue
            (nlo, before), (mid, after) = up[0], down[0]
            if mid not in (mk("idiv", add(lo, hi), num(2)),
                           add(lo, mk("idiv", sub(hi, lo), num(2)))) or \
                    nlo is not add(mid, num(1)):
                continue
            more = cmp("Lt", lo, hi, True)
            if not terms.implies(bst.cond, more) or B.AND(before, after, bst.cond) != 0 or \
                    not terms.implies(bst.cond, B.OR(before, after)):
                continue
            hole = mk("gv", ("middle", lid))
            test = subst_guard(B.restrict(before, more), {mid: hole})
            if self.mentions_phi(mk_bool(test), lid) or hole not in subterms(mk_bool(test)):
                continue
            start, end = phis[lo][1], phis[hi][1]
            inr = B.AND(cmp("Ge", hole, start, True), cmp("Lt", hole, end, True))
            facts = B.OR(B.NOT(more), B.AND(cmp("Ge", mid, start, True), cmp("Lt", mid, end, True)))
            some, first, _ = terms.some_position(B.AND(inr, B.NOT(test)), hole)
            return ps, facts, mk_case([(first, some), (end, B.NOT(some))])
        return None

    def earlier(self, lid, exits, bcond, cond0, iv):
        """Guard that a round before iv has left the loop other than by running out."""
        e = B.restrict(B.OR(*[s.cond for _, s in exits]), cond0)
        g = B.restrict(bcond, cond0)
        natural = 0
        rest = g
        while True:
            tr = self.trip(rest, iv)
            if tr is None or tr[1] == rest:
                break
            natural = B.OR(natural, cmp("Ge", iv, tr[0], True))
            rest = tr[1]
        for at in B.atoms(rest):
            if at[0] == "HAS":
                natural = B.OR(natural, B.NOT(B.var(*at)))
        e = B.restrict(B.AND(e, B.NOT(natural)), B.NOT(natural)) if natural != 1 else 0
        if B.AND(e, B.NOT(natural)) == 0:
            return 0
        e = B.AND(e, B.NOT(natural))
        gt = mk_bool(e)
        if self.mentions_phi(gt, lid):
            return B.var("EX", lid, gt, iv)
        if len(exits) == 1 and B.AND(e, g) == 0 and rising(e, iv):
            return 0
        n = 1 + max(level(gt), level(iv))
        v = mk("bv", n)
        before = B.AND(subst_guard(e, {iv: v}), cmp("Lt", v, iv, True))
        return B.var("EX", n, mk_bool(before))

    def at_path(self, env, path):
        v = env.get(path[0])
        for n in path[1:]:
            if v is None:
                return None
            if v.k == "adt":
                v = v.a[3][n]
            elif v.k in ("tuple", "array"):
                v = v.a[0][n]
            elif v.k == "closure":
                v = v.a[1][n]
            elif v.k == "iter":
                v = v.a[n]
            else:
                return None
        return v

    def phis_in(self, t):
        if t.k in ("arg", "str", "undef"):
            return ()
        return [x for x in loopy(t) if x.k == "phi"]

    def mentions_loop(self, t, lid):
        return any(x.a[0] == lid for x in loopy(t))

    def mentions_phi(self, t, lid):
        return any(x.k == "phi" and x.a[0] == lid for x in loopy(t))

    def step(self, p, b, lid):
        d = None
        if b.k != "case":
            d = sub(b, p)
        if d is None or d.k in ("case", "mref", "adt", "tuple", "array", "bool"):
            return None
        if p in loopy(d) or self.mentions_loop(d, lid):
            return None
        return d

    def widen(self, lid, h, b, init, path, phis, nextiv):
        if h is b:
            return h
        if h.k == "phi" and h.a[0] == lid:
            return h
        if b.k == "undef":
            return h
        iv = mk("iv", lid)
        if h.k not in ("adt", "tuple", "array", "closure", "iter") and \
                iv in loopy(h) and subst(h, nextiv) is b:
            return h
        if h.k == b.k == init.k:
            def rec(hs, bs, ins, mkf):
                vs = [self.widen(lid, x, y, z, path + (i,), phis, nextiv)
                      for i, (x, y, z) in enumerate(zip(hs, bs, ins))]
                return h if all(x is y for x, y in zip(vs, hs)) else mkf(tuple(vs))
            if h.k == "adt" and h.a[:3] == b.a[:3] == init.a[:3]:
                return rec(h.a[3], b.a[3], init.a[3], lambda v: mk("adt", *h.a[:3], v))
            if h.k in ("tuple", "array") and len(h.a[0]) == len(b.a[0]) == len(init.a[0]):
                return rec(h.a[0], b.a[0], init.a[0], lambda v: mk(h.k, v))
            if h.k == "closure" and h.a[0] == b.a[0] == init.a[0]:
                return rec(h.a[1], b.a[1], init.a[1], lambda v: mk("closure", h.a[0], v))
            if h.k == "iter" and h.a[0] is b.a[0]:
                nv = self.widen(lid, h.a[1], b.a[1], init.a[1], path + (1,), phis, nextiv)
                return h if nv is h.a[1] else mk("iter", h.a[0], nv)
        # induction over the loop counter: try again as phi
        name = mk("phi", lid, self.pathname(path))
        phis[name] = (path, init)
        self.philike[name] = init
        return name

    def pathname(self, path):
        root = path[0]
        return (root,) + tuple(path[1:])

    ARRAYISH = ("elemupd", "viewupd", "ew", "bew", "full", "pushed", "concat")

    def trip(self, g, iv):
        """(n, rest) with g == (iv < n) and rest, else None."""
        for at in B.atoms(g):
            if at[0] == "L" and at[2]:
                c = poly(at[1]).get(((iv, 1),))
                if c not in (1, -1):
                    continue
                rest = sub(at[1], scale(iv, c))
                n = scale(rest, -c)
                if iv in subterms(n):
                    continue
                h = cmp("Lt", iv, n, True)
                r = B.restrict(g, h)
                if B.AND(h, r) == g:
                    return n, r
        return None

    def final_value(self, lid, p, init, b, bcond, cond0):
        iv = mk("iv", lid)
        g = B.restrict(bcond, cond0)
        gt = mk_bool(g)
        if b.k == "case" and not self.mentions_phi(gt, lid) and all(
                c == 1 or x is p or not self.mentions_phi(sub(x, p), lid) for x, c in b.a[0]
                if x.k not in ("adt", "tuple", "array", "bool", "mref", "str")):
            b = mk_case([(x, self.lagged(lid, c, iv)) for x, c in b.a[0]])
        v = self.final_struct(lid, p, init, b, bcond, cond0)
        if v is not None:
            return v
        if not self.mentions_phi(gt, lid):
            if self.arrayish(b, p):
                v = self.final_array(lid, p, init, b, g, iv)
            elif b.k not in ("adt", "tuple", "array", "bool", "mref", "str"):
                parts = [(x, c) for x, c in b.a[0]] if b.k == "case" else [(b, 1)]
                ds = [(sub(x, p), c) for x, c in parts
                      if x.k not in ("adt", "tuple", "array", "bool", "mref", "str")]
                if len(ds) == len(parts):
                    d = mk_case(ds)
                    if not self.mentions_phi(d, lid):
                        v = add(init, summation(d, g, iv))
                    elif d.k != "case" or True:
                        v = self.extremum(lid, p, init, b, g, iv)
                if v is None and not any(self.mentions_phi(x, lid) for x, _ in parts
                                         if x is not p):
                    v = self.last_value(lid, p, init, parts, g, iv)
            elif b.k not in ("adt", "tuple", "array", "bool", "mref", "str"):
                pass
        elif b.k == "case" or b.k in ("min", "max"):
            v = self.extremum(lid, p, init, b, g, iv)
        if v is not None:
            return v
        return self.fin(lid, p, init, b, g)

    def final_struct(self, lid, p, init, b, bcond, cond0):
        """A struct of which the loop changes some fields: its fields one by one."""
        parts = [x for x, _ in b.a[0]] if b.k == "case" else [b]
        names = {n for x in parts if x.k == "with" and x.a[0] is p for n, _ in x.a[1]}
        if not names or not all(x is p or x.k == "with" and x.a[0] is p for x in parts):
            return None
        same = {x: fld(init, x.a[1], x.a[2]) for x in subterms(b, mk_bool(bcond))
                if x.k == "fld" and x.a[0] is p and x.a[2] not in names}
        b, bcond = subst(b, same), subst_guard(bcond, same)
        out = init
        for n in sorted(names):
            q = fld(p, "", n)
            v = self.final_value(lid, q, fld(init, "", n), fld(b, "", n), bcond, cond0)
            if v is None or v.k == "fin" or self.mentions_phi(v, lid):
                return None
            out = with_field(out, n, v)
        return out

    def fin(self, lid, p, init, b, g):
        """The value of p when the loop ends, named up to the loop's position."""
        iv = mk("iv", lid)
        gt = mk_bool(g)
        phis, queue, inits = {p: 0}, [(b, init)], []
        bodies = []
        infos = self.loops[lid].get("cur") or {}
        while queue:
            t, i0 = queue.pop(0)
            bodies.append(t)
            inits.append(i0)
            for x in sorted((x for x in loopy(t) | loopy(gt)
                             if x.k == "phi" and x.a[0] == lid and x not in phis),
                            key=lambda x: x.id):
                phis[x] = len(phis)
                bi = infos.get(x)
                queue.append(bi if bi else (x, x))
        n = 1 + max([level(t) for t in bodies] + [level(gt)])
        m = {x: mk("rec", n, j) for x, j in phis.items()}
        m[iv] = mk("bv", n)
        return mk("fin", n, tuple(subst(t, m) for t in bodies), tuple(inits), subst(gt, m))

    def extremum(self, lid, p, init, b, g, iv):
        """Running minimum / maximum: max(init, x_0, x_1, ...) over the rounds with guard g."""
        if b.k == "case" and len(b.a[0]) == 2 and any(x is p for x, _ in b.a[0]):
            x, c = [(x, c) for x, c in b.a[0] if x is not p][0]
            hit = B.AND(g, c)
            lt, e, gt = terms.rel(sub(x, p), False)
            kind = rest = None
            for k, w in (("min", lt), ("max", gt), ("min", B.OR(lt, e)), ("max", B.OR(gt, e))):
                r = B.restrict(hit, w)
                if B.AND(w, r) == hit and not self.mentions_phi(mk_bool(r), lid):
                    kind, rest = k, r
                    break
            g2 = rest
        elif b.k in ("min", "max") and p in b.a:
            x = b.a[0] if b.a[1] is p else b.a[1]
            kind, g2 = b.k, g
        else:
            return None
        if kind is None or self.mentions_phi(x, lid) or self.mentions_phi(mk_bool(g2), lid):
            return None
        g2 = B.AND(g2, B.NOT(is_nan(x)))
        n = 1 + max(level(x), level(mk_bool(g2)))
        m = {iv: mk("bv", n)}
        return mk("extr", n, kind, subst(x, m), subst(mk_bool(g2), m), init)

    def last_value(self, lid, p, init, parts, g, iv):
        """p is overwritten with values that do not depend on earlier rounds."""
        vals = [(x, c) for x, c in parts if x is not p]
        hit = B.AND(g, B.OR(*[c for _, c in vals]))
        v = mk_case(vals) if len(vals) > 1 else vals[0][0]
        if self.mentions_phi(mk_bool(hit), lid):
            return None
        some, _, last = terms.some_position(hit, iv)
        if some == 0:
            return init
        return mk_case([(subst(v, {iv: last}), some), (init, B.NOT(some))])

    def arrayish(self, b, p):
        if b.k == "case":
            return any(self.arrayish(x, p) for x, _ in b.a[0] if x is not p)
        return b.k in self.ARRAYISH or (b.k == "vec" and False)

    def final_array(self, lid, p, init, b, g, iv):
        parts = [(x, c) for x, c in b.a[0]] if b.k == "case" else [(b, 1)]
        if any(x.k in ("pushed", "concat") for x, _ in parts):
            return self.final_vec(lid, p, init, parts, g, iv)
        r = self.rank(init) or self.rank(b)
        dims = self.dims(init, r) if r else None
        e, eb = idx(p, (ANY,)), idx(b, (ANY,))
        e0 = None
        if init.k == "vec" and init.a[0].k == "array":
            if p not in self.zeroext or init.a[0].a[0]:
                return None
            e0, dims = num(0), None
        e0 = e0 or idx(init, (ANY,))
        d = mk_case([(sub(x, e), c) for x, c in eb.a[0]]) if eb.k == "case" else sub(eb, e)
        if not self.mentions_phi(d, lid):
            return ew(add(e0, summation(d, g, iv)), dims)
        eparts = eb.a[0] if eb.k == "case" else ((eb, 1),)
        own = idx(p, tuple(anyk(k) for k in range(r))) if r else e   # e by its coordinates
        vals = [(x, c) for x, c in eparts if x is not e and x is not own]
        hit = B.AND(g, B.OR(*[c for _, c in vals]))
        v = mk_case(vals) if len(vals) > 1 else vals[0][0]
        t = solve(hit, iv)
        fl = solve_flat(hit, iv) if t is None else None
        if fl is not None:
            t = fl[0]
        if t is not None and not self.mentions_loop(t, lid):
            m = {iv: t}
            v2 = subst(v, m)
            h = fl[1] if fl is not None else \
                B.AND(subst_guard(hit, m), cmp("Ge", t, num(0), True))
            m2 = {e: e0, own: e0}
            v2 = subst(v2, m2)
            h = subst_guard(h, m2)
            if self.mentions_phi(v2, lid) or self.mentions_phi(mk_bool(h), lid):
                return None
            return ew(mk_case([(v2, h), (e0, B.NOT(h))]), dims)
        if not self.mentions_phi(v, lid) and not self.mentions_phi(mk_bool(hit), lid):
            lv = self.last_value(lid, e, e0, [(v, B.OR(*[c for _, c in vals]))], g, iv)
            return None if lv is None else ew(lv, dims)
        return None

    def final_vec(self, lid, p, init, parts, g, iv):
        """A vector that grows at its end."""
        tr = self.trip(g, iv)
        if tr is None:
            return None
        n, rest = tr
        grow = [(x, c) for x, c in parts if x is not p]
        if any(x.k not in ("pushed", "concat") or x.a[0] is not p for x, _ in grow):
            return None
        if any(self.mentions_phi(x.a[1], lid) for x, _ in grow):
            return None
        keep = B.AND(rest, B.OR(*[c for _, c in grow]))
        keep = self.lagged(lid, keep, iv)
        if self.mentions_phi(mk_bool(keep), lid):
            return None
        if all(x.k == "pushed" for x, _ in grow):
            x = mk_case([(x.a[1], c) for x, c in grow]) if len(grow) > 1 else grow[0][0].a[1]
            if keep == 1:
                tail = ew(subst(x, {iv: anyk(0)}), (n,))
            else:
                tail = filtered(x, keep, n, iv)
        elif len(grow) == 1 and keep == 1:
            x = grow[0][0].a[1]
            d = self.dims(x, 1)
            if x.k == "ew" and len(x.a[1]) == 1 and not self.mentions_loop(d[0], lid):
                body = subst(x.a[0], {ANY: mk("ixs", (mk("gv", ("t", 1)),))})
                body = subst(body, {iv: anyk(0)})
                body = subst(body, {mk("gv", ("t", 1)): anyk(1)})
                tail = mk("flat", ew(body, (n, d[0])), (n, d[0]))
            elif x.k == "flat" and x.a[0].k == "ew" and \
                    not any(self.mentions_loop(d, lid) for d in x.a[1]):
                r = len(x.a[1])
                gs = tuple(mk("gv", ("t", k)) for k in range(r))
                body = subst(x.a[0].a[0], {ANY: mk("ixs", gs)})
                body = subst(body, {iv: anyk(0)})
                body = subst(body, {gs[k]: anyk(k + 1) for k in range(r)})
                ds = (n,) + x.a[1]
                tail = mk("flat", ew(body, ds), ds)
            else:
                tail = concatmap(x, n, iv)
        else:
            return None
        if init.k == "vec" and init.a[0].k == "array" and not init.a[0].a[0]:
            return tail
        return mk("concat", init, tail)

    def lagged(self, lid, g, iv):
        """A guard in which what every round sets anew is what the round before set."""
        cur, m = self.loops[lid].get("cur") or {}, {}
        for x in loopy(mk_bool(g)):
            if x.k == "phi" and x.a[0] == lid and x in cur and not self.mentions_phi(cur[x][0], lid):
                b, init = cur[x]
                start = cmp("Eq", iv, num(0), True)
                m[x] = mk_case([(init, start), (subst(b, {iv: sub(iv, num(1))}), B.NOT(start))])
        return subst_guard(g, m) if m else g

    def leave(self, lid, st0, exits, fin, info, cond0):
        if not exits:
            return []
        iv = mk("iv", lid)
        groups = {}
        for t, s in exits:
            groups.setdefault(t, []).append(s)

        def normal(s):
            g = B.restrict(s.cond, cond0)
            return all(a[0] in ("L", "E", "G", "HAS") and all(
                not (x.k == "phi" and x.a[0] == lid) for x in subterms(*[y for y in a if isinstance(y, T)]))
                for a in B.atoms(g))

        seq = []
        for t, ss in groups.items():
            ns = [s for s in ss if normal(s)]
            bs = [s for s in ss if not normal(s)]
            if ns:
                seq.append((t, self.join(ns), True))
            if bs:
                seq.append((t, self.join(bs), False))
        norm = [x for x in seq if x[2]]
        if len(seq) == 1:
            t, s, n = seq[0]
            env = self.finish(s.env, fin, lid)
            return [(t, State(env, st0.cond))]
        # several ways out: each early exit is guarded by "some iteration takes it"
        default = norm[0] if norm else seq[-1]
        rest = st0.cond
        out = []
        info["brk"] = []
        for x in seq:
            if x is default:
                continue
            t, s, n = x
            g = B.restrict(s.cond, cond0)
            atom, m = self.some_round(lid, g, iv)
            info["brk"].append(g)
            out.append((t, State(self.finish(s.env, m, lid), B.AND(rest, atom))))
            rest = B.AND(rest, B.NOT(atom))
        out.append((default[0], State(self.finish(default[1].env, fin, lid), rest)))
        return out

    def some_round(self, lid, g, iv):
        """(guard that some round satisfies g, what the counter is at the first such round)."""
        gt = mk_bool(g)
        if self.mentions_phi(gt, lid):
            return B.var("EX", lid, gt), {}
        some, first, _ = terms.some_position(g, iv)
        return some, {iv: first}

    def finish(self, env, fin, lid):
        if not fin:
            return dict(env)
        out = {}
        for k, v in env.items():
            if v.k in ("arg", "str"):
                out[k] = v
                continue
            ps = [x for x in loopy(v) if x in fin]
            out[k] = subst(v, {p: fin[p] for p in ps}) if ps else v
        return out

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        self.visits += 1
        if self.visits > 60000:
            raise Unsupported("analysis budget exceeded in " + fr.fn["id"])
        self.st = st
        bl = fr.cfg.bl[b]
        for s in bl["s"]:
            if s[0] == "=":
                self.assign(fr, s[1], s[2], s[3] if len(s) > 3 else None)
            elif s[0] == "setdiscr":
                self.note("setdiscr")
        t = bl["t"]
        k = t[0]
        sp = bl.get("sp")
        if k == "goto":
            return [(t[1], self.st)]
        if k == "return":
            return [("ret", self.st)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [(t[2], self.st)]
        if k == "assert":
            v = self.operand(fr, t[1])
            if t[3] not in ("other",):
                self.emit("assert", name=t[3], val=v if t[2] else mk_bool(B.NOT(as_bool(v))),
                          args=tuple(self.snap(self.operand(fr, o)) for o in (t[5] or []))
                          if len(t) > 5 else (), sp=sp)
            return [(t[4], self.st)]
        if k == "switch":
            return self.switch(fr, b, t)
        if k == "call":
            try:
                self.call(fr, b, t, sp)
            except Dead:
                return []
            if t[4] is None:
                return []
            return [(t[4], self.st)]
        if k == "unwind":
            return []
        raise Unsupported("terminator " + k)

    def switch(self, fr, b, t):
        v = self.operand(fr, t[1])
        st = self.st
        out = []
        rest = 1
        isbool = t[4] == "bool"
        for val, tgt in t[2]:
            if isbool:
                g = as_bool(v) if int(val) else B.NOT(as_bool(v))
            else:
                g = cmp("Eq", v, num(int(val)), True)
            out.append((tgt, B.AND(rest, g)))
            rest = B.AND(rest, B.NOT(g))
        if t[3] is not None:
            out.append((t[3], rest))
        if self.loop_nodes and self.loop_nodes[-1][0] == fr.key:
            comp = self.loop_nodes[-1][1]
            inside = [g for tg, g in out if tg in comp and not self.dead_block(fr, tg)]
            outside = [g for tg, g in out if tg not in comp and
                       not self.dead_block(fr, tg)]
            if b in comp and inside and outside:
                ins, outs = B.OR(*inside), B.OR(*outside)
                if (ins == 0 or outs == 0) and self.decided[-1] is None:
                    self.decided[-1] = True
        res = []
        for tgt, g in out:
            if g == 0:
                continue
            c = B.AND(st.cond, g)
            if c == 0:
                continue
            res.append((tgt, State(dict(st.env), c)))
        return res

    def dead_block(self, fr, b):
        return b in fr.cfg.doomed or fr.cfg.bl[b]["t"][0] == "unreachable"

    # ------------------------------------------------------------ places
    def resolve(self, fr, pl):
        """(root, path) of a place, following references held in locals."""
        root, path = (fr.key, pl["l"]), ()
        variant = ""
        for e in pl["p"]:
            k = e[0]
            if k == "deref":
                v = self.load(root, path)
                if v.k == "mref":
                    root, path = v.a
                elif v.k == "case" and any(x.k == "mref" for x, _ in v.a[0]):
                    return ("case", v, path)
                # shared references and boxes are transparent
            elif k == "f":
                if e[3] in WRAPPERS:
                    continue
                path = path + (("f", variant, str(e[2])),)
                variant = ""
            elif k == "down":
                variant = e[2]
            elif k == "idx":
                path = self.addix(path, (self.st.env.get((fr.key, e[1]), UNDEF),))
            elif k == "cidx":
                if e[2]:
                    v = self.load(root, path)
                    path = self.addix(path, (sub(mk("len", v), num(e[1])),))
                else:
                    path = self.addix(path, (num(e[1]),))
            else:
                raise Unsupported("projection " + str(e))
        return (root, path)

    def addix(self, path, ix):
        if path and path[-1][0] == "ix":
            return path[:-1] + (("ix", path[-1][1] + tuple(ix)),)
        return path + (("ix", tuple(ix)),)

    def load(self, root, path):
        if root == "case":
            raise Unsupported("place")
        v = self.st.env.get(root, UNDEF)
        for e in path:
            v = self.deref_all(v)
            if e[0] == "f":
                v = fld(v, e[1], e[2])
            elif e[0] == "ix":
                v = idx(v, e[1])
            elif e[0] == "view":
                v = mk("view", v, e[1])
        return v

    def deref_all(self, v):
        while v.k == "mref":
            v = self.load(*v.a)
        return v

    def load_ref(self, v):
        """The value behind v if it is a mutable reference."""
        if v.k == "mref":
            return self.load_ref(self.load(*v.a))
        if v.k == "case" and any(x.k == "mref" for x, _ in v.a[0]):
            return mk_case([(self.load_ref(x), c) for x, c in v.a[0]])
        return v

    snap = load_ref

    def read(self, fr, pl):
        r = self.resolve(fr, pl)
        if r[0] == "case":
            _, v, path = r
            i = [n for n, e in enumerate(pl["p"]) if e[0] == "deref"][-1]
            base = self.load_ref(v)
            rest = {"l": pl["l"], "p": pl["p"][i + 1:]}
            return self.project(fr, base, rest["p"])
        return self.load(*r)

    def project(self, fr, v, ps):
        variant = ""
        for e in ps:
            if e[0] == "f":
                if e[3] in WRAPPERS:
                    continue
                v = fld(v, variant, str(e[2]))
                variant = ""
            elif e[0] == "down":
                variant = e[2]
            elif e[0] == "idx":
                v = idx(v, (self.st.env.get((fr.key, e[1]), UNDEF),))
            elif e[0] == "cidx":
                v = idx(v, (num(e[1]),))
        return v

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            return with_field(v, e[2], self.upd(fld(v, e[1], e[2]), path[1:], val))
        if e[0] == "ix":
            ix = e[1]
            if v.k == "array" or (v.k == "vec" and v.a[0].k == "array"):
                arr = v if v.k == "array" else v.a[0]
                n = tint(ix[0])
                if n is not None and 0 <= n < len(arr.a[0]):
                    vals = list(arr.a[0])
                    rest = path[1:] if len(ix) == 1 else (("ix", ix[1:]),) + path[1:]
                    vals[n] = self.upd(vals[n], rest, val)
                    return mk("array", tuple(vals))
            new = self.upd(idx(v, ix), path[1:], val)
            if v.k == "elemupd" and v.a[1] == ix:
                v = v.a[0]
            return mk("elemupd", v, ix, new)
        if e[0] == "view":
            if len(path) > 1 and path[1][0] == "ix" and \
                    len(path[1][1]) == sum(x[0] != "ix" for x in e[1]) and \
                    all(x[0] in ("ix", "all", "rng") for x in e[1]):
                it = iter(path[1][1])          # an element of the view is an element of the array
                ix = tuple(x[1] if x[0] == "ix" else next(it) if x[0] == "all"
                           else add(x[1], next(it)) for x in e[1])
                return self.upd(v, (("ix", ix),) + path[2:], val)
            return mk("viewupd", v, e[1], self.upd(mk("view", v, e[1]), path[1:], val))
        raise Unsupported("update")

    def store(self, root, path, val, sp=None, how="store"):
        # a reference stored in the path redirects the write
        v = self.st.env.get(root, UNDEF)
        for i, e in enumerate(path):
            if v.k == "mref":
                return self.store(v.a[0], v.a[1] + path[i:], val, sp, how)
            v = fld(v, e[1], e[2]) if e[0] == "f" else idx(v, e[1]) if e[0] == "ix" else \
                mk("view", v, e[1])
        interesting = root[0] == "obj" or any(e[0] in ("ix", "view") for e in path)
        if interesting:
            base = self.st.env.get(root, UNDEF)
            self.emit(how, name=None, obj=base, place=(root, path), val=val,
                      old=self.load(root, path), sp=sp)
        self.st.env[root] = self.upd(self.st.env.get(root, UNDEF), path, val)

    def write(self, fr, pl, val, sp=None):
        r = self.resolve(fr, pl)
        if r[0] == "case":
            _, v, path = r
            i = [n for n, e in enumerate(pl["p"]) if e[0] == "deref"][-1]
            c0 = self.st.cond
            for m, c in v.a[0]:
                if m.k != "mref":
                    continue
                rp = m.a[1]
                for e in pl["p"][i + 1:]:
                    if e[0] == "f":
                        rp = rp + (("f", "", str(e[2])),)
                    elif e[0] == "idx":
                        rp = self.addix(rp, (self.st.env.get((fr.key, e[1]), UNDEF),))
                self.st.cond = B.AND(c0, c)
                old = self.load(m.a[0], rp)
                self.store(m.a[0], rp, mk_case([(val, c), (old, B.NOT(c))]), sp)
            self.st.cond = c0
            return
        root, path = r
        if not path:
            # assigning through a reference parameter is an effect, a plain local is not
            if root[0] == "obj":
                self.store(root, path, val, sp)
            else:
                self.st.env[root] = val
            return
        self.store(root, path, val, sp)

    # ------------------------------------------------------------ operands and rvalues
    def operand(self, fr, o):
        if "c" in o:
            return self.read(fr, o["c"])
        if "m" in o:
            return self.read(fr, o["m"])
        return self.const(fr, o["k"])

    def op_ty(self, fr, o):
        pl = o.get("c") or o.get("m")
        if pl:
            return pl.get("ty") or fr.fn["locals"][pl["l"]]["ty"]
        return o["k"]["ty"]

    def const(self, fr, k):
        if "bool" in k:
            return mk_bool(1 if k["bool"] else 0)
        if "int" in k:
            return num(int(k["int"]))
        if "float" in k:
            s = k["float"]
            if s.lower() in ("nan", "inf", "-inf", "infinity", "-infinity"):
                return mk("const", s.lower())
            return num(Fraction(s))
        if "str" in k:
            return mk("str", k["str"])
        if "fndef" in k:
            d = k["fndef"]
            return mk("fn", d.get("res") or d["fn"], d["path"])
        if "closure" in k:
            return mk("closure", k["closure"], ())
        if "promoted" in k:
            return self.promoted(fr, k)
        if k["ty"] == "()":
            return UNIT
        if "named" in k:
            return mk("const", str(k["named"]))
        return mk("const", str(k.get("txt") or k.get("param") or k["ty"]))

    def promoted(self, fr, k):
        of = self.p.fns.get(k.get("of")) or fr.fn
        try:
            pr = of["promoted"][k["promoted"]]
        except (IndexError, KeyError):
            return mk("const", str(k))
        body = dict(pr)
        body.setdefault("argc", 0)
        body["id"] = of["id"] + f"::promoted{k['promoted']}"
        body["kind"] = "fn"
        self.p.fns.setdefault(body["id"], body)
        n = len(self.log)
        r = self.call_fn(body, [], ("promoted", k["promoted"]))
        del self.log[n:]
        self.analysed.discard(body["id"])
        return r

    def assign(self, fr, pl, rv, sp):
        v = self.rvalue(fr, rv, pl)
        self.write(fr, pl, v, sp)

    def rvalue(self, fr, rv, pl):
        k = rv[0]
        if k == "use":
            pl = rv[1].get("c")
            if pl and pl["p"] and self.op_ty(fr, rv[1]).startswith("std::boxed::Box<"):
                return self.mref(fr, pl)       # a box is only copied to reach what it holds
            return self.operand(fr, rv[1])
        if k == "ref":
            if rv[1]:
                return self.mref(fr, rv[2])
            return self.snap(self.read(fr, rv[2]))
        if k == "cast":
            return self.cast(fr, rv)
        if k == "bin":
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            return self.binop(rv[1], a, b, rv[4])
        if k == "un":
            a = self.operand(fr, rv[2])
            if rv[1] == "Not":
                ty = self.op_ty(fr, rv[2])
                if ty == "bool":
                    return mk_bool(B.NOT(as_bool(a)))
                return mk("op", "not", a)
            if rv[1] == "Neg":
                return neg(a)
            if rv[1] == "PtrMetadata":
                return self.length(self.snap(a))
            return mk("op", rv[1], a)
        if k == "discr":
            v = self.read(fr, rv[1])
            return mk_case([(num(int(n)), is_variant(v, name)) for name, n in rv[2]]) \
                if rv[2] else mk("op", "discr", v)
        if k == "agg":
            vals = tuple(self.operand(fr, o) for o in rv[2])
            kind = rv[1]
            if isinstance(kind, list) and kind[0] in ("array", "tuple"):
                kind = kind[0]
            if kind == "array":
                return mk("array", vals)
            if kind == "tuple":
                return mk("tuple", vals)
            if kind[0] == "adt":
                return self.adt(kind[1], kind[3], tuple(kind[4]), vals)
            if kind[0] == "closure":
                return mk("closure", kind[1], vals)
            return mk("tuple", vals)
        if k == "repeat":
            return mk("rep", self.operand(fr, rv[1]), *[str(x) for x in rv[2:]])
        return mk("op", "rvalue", mk("const", str(k)))

    def adt(self, path, variant, names, vals):
        if path == "std::ops::Range":
            return mk("adt", path, variant, names, vals)
        return mk("adt", path, variant, names, vals)

    def mref(self, fr, pl):
        r = self.resolve(fr, pl)
        if r[0] == "case":
            _, v, path = r
            i = [n for n, e in enumerate(pl["p"]) if e[0] == "deref"][-1]
            out = []
            for m, c in v.a[0]:
                if m.k != "mref":
                    out.append((m, c))
                    continue
                rp = m.a[1]
                for e in pl["p"][i + 1:]:
                    if e[0] == "f":
                        rp = rp + (("f", "", str(e[2])),)
                    elif e[0] == "idx":
                        rp = self.addix(rp, (self.st.env.get((fr.key, e[1]), UNDEF),))
                out.append((mk("mref", m.a[0], rp), c))
            return mk_case(out)
        root, path = r
        v = self.load(root, path)
        if v.k == "mref" and pl["p"] and pl["p"][-1][0] == "deref":
            return v
        return mk("mref", root, path)

    def cast(self, fr, rv):
        kind = rv[1]
        if kind == "BoxDerefTransmute":
            o = rv[2]
            pl = o.get("c") or o.get("m")
            ps = list(pl["p"])
            while ps and ps[-1][0] == "f" and ps[-1][3] in WRAPPERS:
                ps.pop()
            p2 = {"l": pl["l"], "p": ps}
            v = self.read(fr, p2)
            if v.k == "mref" or (v.k == "case" and any(x.k == "mref" for x, _ in v.a[0])):
                return v
            r = self.resolve(fr, p2)
            if r[0] == "case":
                return self.mref(fr, p2)
            return mk("mref", r[0], r[1])
        v = self.operand(fr, rv[2])
        if kind == "FloatToInt":
            return narrow(self.trunc(v), "f64", rv[3])
        if kind == "FloatToFloat":
            return narrow(v, rv[4] if len(rv) > 4 else "f64", rv[3])
        if kind.startswith("PointerCoercion(ReifyFnPointer") or \
                kind.startswith("PointerCoercion(ClosureFnPointer"):
            return v
        if "Unsize" in kind:
            n = fixed_len(self.op_ty(fr, rv[2]))
            if n is not None and n <= self.PEEL and v.k not in ("mref", "array", "case", "rep"):
                return mk("array", tuple(idx(v, (num(i),)) for i in range(n)))
            if n is not None and n <= self.PEEL and v.k == "mref":
                self.fixed[self.snap(v)] = n
            return v
        if kind.startswith("IntToInt"):
            fr_, to = rv[4] if len(rv) > 4 else "", rv[3]
            if v.k == "bool":
                return mk_case([(num(1), v.a[0]), (num(0), B.NOT(v.a[0]))])
            return narrow(v, fr_, to)
        return v

    def trunc(self, v):
        if v.k == "case" and small_case(v):
            return mk_case([(self.trunc(x), c) for x, c in v.a[0]])
        if is_num(v):
            x = num_val(v)
            return num(int(x))
        if v.k == "floor":
            v = v.a[0]
        if self.is_int_term(v):
            return v
        return mk("trunc", v)

    INTK = ("iv", "bv", "gv", "anyk", "uix", "dim", "len", "trunc", "idiv", "rem", "srem")

    def is_int_term(self, v):
        if v.k in self.INTK:
            return True
        if v.k == "poly":
            return all(c.denominator == 1 and all(e > 0 and self.is_int_term(t) for t, e in m)
                       for m, c in v.a[0])
        return False

    def binop(self, op, a, b, ty):
        a, b = self.snap(a), self.snap(b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        isf = is_floatty(ty)
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if ty == "bool" or not (isf or is_intty(ty)) or a.k == "bool" or b.k == "bool":
                if base in ("Eq", "Ne"):
                    g = eq(a, b)
                    return mk_bool(g if base == "Eq" else B.NOT(g))
            if isf:
                if a.k == "const" and a.a[0] == "nan" or b.k == "const" and b.a[0] == "nan":
                    return mk_bool(int(base == "Ne"))
                if a is b:
                    n = is_nan(a)
                    return mk_bool(n if base == "Ne" else
                                   B.NOT(n) if base in ("Le", "Ge", "Eq") else 0)
            return mk_bool(cmp(base, a, b, not isf))
        if base in ("BitAnd", "BitOr", "BitXor") and (ty == "bool"):
            x, y = as_bool(a), as_bool(b)
            return mk_bool(B.AND(x, y) if base == "BitAnd" else B.OR(x, y) if base == "BitOr"
                           else B.NOT(B.IFF(x, y)))
        r = self.arith(base, a, b, isf)
        if r.k == "rem" and ty[:1] == "i":          # may be negative
            r = mk("srem", *r.a)
        if "WithOverflow" in op:
            return mk("tuple", (r, mk_bool(0)))
        return r

    def arith(self, base, a, b, isf):
        if a.k in ("undef",) or b.k in ("undef",):
            return UNDEF
        if base == "Add":
            return add(a, b)
        if base == "Sub":
            return sub(a, b)
        if base == "Mul":
            return mul(a, b)
        if base == "Div":
            if isf:
                return div(a, b)
            if tint(a) is not None and tint(b):
                return num(tint(a) // tint(b))
            return mk("idiv", a, b)
        if base == "Rem":
            if not isf and tint(a) is not None and tint(b):
                return num(tint(a) % tint(b))
            return mk("rem", a, b)
        return mk("op", base, a, b)

    def length(self, v):
        v = self.snap(v)
        if v.k == "case":
            return mk_case([(self.length(x), c) for x, c in v.a[0]])
        if v.k == "array":
            return num(len(v.a[0]))
        if v.k == "vec":
            return self.length(v.a[0])
        if v.k == "rep":
            n = v.a[1].split("_")[0]
            return num(int(n)) if n.isdigit() else mk("len", v)
        return self.dim(v, 0)

    #: fields of a grid that share the extents of its cells
    GRID_ARRAYS = ("data", "weight")
    GRID_GETTERS = ("get_data", "get_weights")

    def dim(self, v, k):
        """Extent of axis k of an array term."""
        if k == 0 and v in self.fixed:
            return num(self.fixed[v])
        if v.k == "fld" and v.a[2] in roles.ARR and v.a[2] != "position" and k == 0 \
                and v.a[0].k == "call" and v.a[0].a[0] in roles.STEP:
            # the per-particle arrays of one timestep are parallel (data model)
            v = fld(v.a[0], v.a[1], "position")
        if v.k == "full":
            s = v.a[1]
            if s.k in ("array", "tuple"):
                if k < len(s.a[0]):
                    return s.a[0][k]
            elif s.k == "shape":
                return self.dim(s.a[0], k)
            elif s.k not in ("case", "phi"):
                if self.is_scalar_shape(s):
                    return s if k == 0 else num(1)
                return idx(s, (num(k),))
        if v.k in ("elemupd", "viewupd", "with"):
            return self.dim(v.a[0], k)
        if v.k == "idx" and v.a[0].k == "call" and v.a[0].a[0] == "hdf5.read":
            return self.dim(v.a[0], len(v.a[1]) + k)       # tables are rectangular
        if v.k == "phi" and v in self.philike:
            if self.philike[v].k == "vec":
                return mk("dim", v, k)
            return self.dim(self.philike[v], k)
        if v.k in ("ew", "bew"):
            if v.a[1] is not None and k < len(v.a[1]):
                return v.a[1][k]
            for x in subterms(v.a[0]):
                if x.k == "idx" and x.a[1] and x.a[1][-1] is ANY and len(x.a[1]) == 1:
                    return self.dim(x.a[0], k)
        if v.k == "vec":
            return self.dim(v.a[0], k)
        if v.k == "flat" and k == 0:
            n = num(1)
            for d in v.a[1]:
                n = mul(n, d)
            return n
        if v.k == "filtered" and k == 0:
            return v.a[4]
        if v.k == "view":
            out = []
            for j, e in enumerate(v.a[1]):
                if e[0] == "all":
                    out.append(("d", j))
                elif e[0] == "rng":
                    out.append(("v", sub(e[2], e[1]) if e[2] is not None
                                else sub(self.dim(v.a[0], j), e[1])))
            if k < len(out):
                return self.dim(v.a[0], out[k][1]) if out[k][0] == "d" else out[k][1]
        if v.k == "idx":
            d = self.dim(v.a[0], k + len(v.a[1]))
            if d.k != "dim":
                return d
        if v.k == "array":
            if k == 0:
                return num(len(v.a[0]))
            return self.dim(v.a[0][0], k - 1) if v.a[0] else num(0)
        if v.k == "case":
            return mk_case([(self.dim(x, k), c) for x, c in v.a[0]])
        if v.k == "fld" and v.a[2] in self.STEP_ARRAYS and v.a[0].k == "call" and \
                v.a[0].a[0] in self.STEP_GETTERS:
            if k == 0:
                return mk("dim", fld(v.a[0], "", "position"), 0)
            if v.a[2] in ("velocity", "position"):
                return num(3)
        if v.k == "fld" and v.a[2] in self.GRID_ARRAYS and v.a[1] == "" and v.a[0].k != "thing":
            return idx(fld(v.a[0], "", "cells"), (num(k),))
        if v.k == "call" and v.a[0] in self.GRID_GETTERS and len(v.a) == 2:
            return idx(self.geometry("get_cells", v.a[1]), (num(k),))
        return mk("dim", v, k)

    #: accessors that only depend on the geometry of a grid, which its copies share
    GEOMETRY = ("get_cells", "get_limits", "get_xpositions", "get_ypositions", "get_zpositions",
                "is_inside", "cell_id", "is_cylindrical")

    #: arrays of a timestep hold one row per particle (three components for vectors)
    STEP_ARRAYS = ("position", "velocity", "radius", "particleid", "clouds", "density", "ptype")
    STEP_GETTERS = ("get_timestep", "get_timestep_buffer", "get_timestep_unbuffered")

    def geometry(self, name, g, *rest):
        while True:
            if g.k in ("clone", "fresh", "state"):
                g = g.a[0]
            elif g.k == "call" and g.a[0] == "new_zeros":
                g = g.a[1]
            elif g.k == "adt" and g.a[1] == "VectorGrid":
                g = idx(fld(g, "", "data"), (num(0),))
            else:
                break
        return mk("call", name, g, *rest)

    def is_scalar_shape(self, s):
        return s.k in ("iv", "dim", "len", "poly", "trunc", "call", "fld", "uix", "idiv") and \
            s not in self.shapes

    def rank(self, v):
        """Number of axes of an array term, or None."""
        if v.k == "full":
            s = v.a[1]
            if s.k in ("array", "tuple"):
                return len(s.a[0])
            if s.k == "shape":
                return self.rank(s.a[0])
            if s in self.shapes:
                return self.shapes[s]
            return 1 if self.is_scalar_shape(s) else None
        if v.k in ("ew", "bew"):
            return len(v.a[1]) if v.a[1] is not None else None
        if v.k in ("vec", "flat", "filtered", "pushed", "concat"):
            return 1
        if v.k == "elemupd":
            return self.rank(v.a[0]) or len(v.a[1])
        if v.k == "viewupd":
            return self.rank(v.a[0]) or len(v.a[1])
        if v.k == "phi" and v in self.philike:
            return self.rank(self.philike[v])
        if v.k == "fld" and v.a[2] in self.GRID_ARRAYS:
            return 3
        if v.k == "call" and v.a[0] in self.GRID_GETTERS:
            return 3
        if v.k == "case":
            for x, _ in v.a[0]:
                r = self.rank(x)
                if r:
                    return r
        return None

    def dims(self, v, rank=None):
        r = rank or self.rank(v)
        return tuple(self.dim(v, k) for k in range(r)) if r else None

    def size(self, v, rank):
        n = num(1)
        for k in range(rank or 1):
            n = mul(n, self.dim(v, k))
        return n

    # ------------------------------------------------------------ log
    def emit(self, kind, **kw):
        kw.setdefault("cond", self.st.cond)
        kw.setdefault("loops", tuple(self.loopstack))
        kw.setdefault("fn", self.fr.fn["id"] if getattr(self, "fr", None) else None)
        self.log.append(Ev(kind, **kw))

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    # ------------------------------------------------------------ calls
    def call(self, fr, b, t, sp):
        args = [self.operand(fr, o) for o in t[2]]
        tys = [self.op_ty(fr, o) for o in t[2]]
        dest = t[3]
        f = t[1]
        k = f.get("k")
        ret = None
        if k and "fndef" in k:
            ret = self.call_def(k["fndef"], args, tys, ("s", b), sp, dest)
        else:
            v = self.operand(fr, f)
            ret = self.call_value(v, args, tys, ("s", b), sp)
        if ret is not None:
            self.write(fr, dest, ret, sp)

    def call_value(self, v, args, tys, site, sp):
        """Calls a function-like value; args are the plain arguments."""
        v = self.snap(v) if v.k == "mref" else v
        if v.k == "case":
            st0 = self.st
            outs, vals = [], []
            for x, c in v.a[0]:
                cc = B.AND(st0.cond, c)
                if cc == 0:
                    continue
                self.st = State(dict(st0.env), cc)
                try:
                    r = self.call_value(x, args, tys, site + (x.id,), sp)
                except Dead:
                    continue
                self.st.env[("tmp", 0)] = r
                outs.append(self.st)
            if not outs:
                raise Dead()
            self.st = self.join(outs)
            return self.st.env.pop(("tmp", 0))
        if v.k == "closure":
            fn = self.p.fns.get(v.a[0])
            if fn is not None:
                return self.call_fn(fn, [v] + list(args), site + (v.a[0],))
        if v.k == "fn":
            fn = self.p.fns.get(v.a[0])
            if fn is not None and fn["id"] not in self.opaque:
                return self.call_fn(fn, list(args), site + (v.a[0],))
            d = {"fn": v.a[0], "path": v.a[1], "name": v.a[1].rsplit("::", 1)[-1], "trait": None,
                 "args": [], "res": v.a[0], "rk": "item"}
            if fn is None:
                return self.call_def(d, list(args), tys or [""] * len(args), site, sp, None)
        self.note("indirect call")
        self.emit("call", name="?", args=tuple(self.snap(a) for a in args), sp=sp)
        return mk("call", "?", v, *[self.snap(a) for a in args])

    def target(self, d, tys):
        """Local body a resolved call reaches, or None."""
        rk = d.get("rk")
        if rk == "virtual":
            return None
        res = d.get("res")
        if res and res in self.p.fns:
            return self.p.fns[res]
        if d["fn"] in self.p.fns:
            fn = self.p.fns[d["fn"]]
            if fn.get("trait_default") and self.p.overridden(fn["trait_default"], fn["name"]):
                return None
            return fn
        return None

    def each_place(self, args, call):
        """call(args, tag) for every place a reference among args may denote, or None."""
        i = next((i for i, v in enumerate(args)
                  if v.k == "case" and any(x.k == "mref" for x, _ in v.a[0])), None)
        if i is None:
            return None
        st0, outs = self.st, []
        for n, (x, c) in enumerate(args[i].a[0]):
            cc = B.AND(st0.cond, c)
            if cc == 0:
                continue
            self.st = State(dict(st0.env), cc)
            try:
                r = call(args[:i] + [x] + args[i + 1:], n)
            except Dead:
                continue
            self.st.env[("tmp", 0)] = r
            outs.append(self.st)
        if not outs:
            raise Dead()
        self.st = self.join(outs)
        return self.st.env.pop(("tmp", 0))

    def call_def(self, d, args, tys, site, sp, dest):
        import models
        r = self.each_place(list(args), lambda a, n: self.call_def(d, a, tys, site + (n,), sp, dest))
        if r is not None:
            return r
        fn = self.target(d, tys)
        tr = d.get("trait")
        if fn is not None and fn["id"] not in self.opaque and not (
                tr and tr.split("<")[0] in self.opaque_traits):
            if fn["kind"] == "closure" and len(args) == 2 and (tr or "").split("<")[0] in CALLS:
                # the arguments of a direct call of a closure come as one tuple
                tup = self.snap(args[1]) if args[1].k == "mref" else args[1]
                return self.call_fn(fn, [args[0]] + [fld(tup, "", str(i))
                                                     for i in range(fn["argc"] - 1)], site)
            if fn["name"] == "fmt" and tr and "fmt" in tr:
                # the text of one value, written where the second argument says
                shown = self.snap(args[0]) if args else UNIT
                return mk("text", self.snap(args[1]), terms.words((shown,))) if len(args) == 2 else UNIT
            if tr in ("std::clone::Clone",) and d["name"] == "clone":
                return models.clone(self, args, tys, site)
            return self.call_fn(fn, args, site)
        m = models.lookup(d)
        if m is not None and not (tr and tr.split("<")[0] in self.opaque_traits):
            return m(self, args, tys, d, site, sp, dest)
        return self.opaque_call(d, args, tys, sp, site)

    def fresh(self, t, site):
        """A grid object created here: distinct from every other one, unchanged so far."""
        n = self.allocs.setdefault((self.fr.key, site), len(self.allocs) + 1)
        x = mk("fresh", t, n, tuple(mk("iv", l) for l in self.loopstack))
        self.muts.pop(x, None)
        for what in ("data", "weight"):
            self.st.env.pop(("held", what, x), None)
        return x

    #: changes a read does not see (what each operation changes is a rule of its own)
    BLIND = {
        "get_weights": ("divide_by_weight", "divide_by_array", "divide_by_scalar", "set_data",
                        "insert", "outlier_removal"),
        "get_data": ("set_weights",),
    }

    def now(self, x, name=None):
        """Object x as it is at this point."""
        ms = self.muts.get(x, set()) - set(self.BLIND.get(name, ()))
        return mk("state", x, tuple(sorted(ms))) if ms else x

    def grid_holds(self, x, what):
        """The data or weights of grid object x at this point, as an array."""
        v = self.st.env.get(("held", what, x))
        if v is not None and v.k == "ew":
            return v
        name = {"data": "get_data", "weight": "get_weights"}[what]
        return mk("call", name, self.now(x, name))

    def holds(self, x, name, args):
        """Keeps what grid object x holds in step with an operation on it."""
        env = self.st.env
        if x.k == "adt" and x.a[1] == "VectorGrid":     # acts on each component
            for k in range(3):
                y = idx(fld(x, "", "data"), (num(k),))
                self.holds(y, name, args)
                self.muts.setdefault(y, set()).add(name)
            return
        if x.k == "fresh" and x.a[2] != tuple(mk("iv", l) for l in self.loopstack) or \
                x.k not in ("fresh", "arg"):
            known = None
        elif name in ("set_data", "set_weights"):
            known = idx(args[0], (ANY,))
        elif name == "divide_by_array":
            known = terms.div(idx(self.grid_holds(x, "data"), (ANY,)), idx(args[0], (ANY,)))
        elif name == "divide_by_weight":
            known = terms.div(idx(self.grid_holds(x, "data"), (ANY,)),
                              idx(self.grid_holds(x, "weight"), (ANY,)))
        elif name == "divide_by_scalar":
            known = terms.div(idx(self.grid_holds(x, "data"), (ANY,)), args[0])
        else:
            known = None
        changed = ("data",) if name.startswith("divide_by") or name == "set_data" else \
            ("weight",) if name == "set_weights" else ("data", "weight")
        for what in changed:
            if known is not None:
                env[("held", what, x)] = mk("ew", known, tuple(
                    idx(self.geometry("get_cells", x), (num(k),)) for k in range(3)))
            elif ("held", what, x) in env:
                env[("held", what, x)] = mk("stale")

    def opaque_call(self, d, args, tys, sp, site=None):
        tr = d.get("trait")
        name = self.sealed.get(d.get("res") or d["fn"]) or d["name"]
        local = (tr and tr.split("<")[0] in self.opaque_traits) or d.get("rk") == "virtual" or \
            (d.get("res") or d["fn"]) in self.p.fns or d["fn"] in self.p.fns
        full = name if local else d["path"]
        if not local:
            self.note(d["path"])
        vals = tuple(self.snap(a) for a in args)
        place = args[0].a if args and args[0].k == "mref" else None
        mut = any(a.k == "mref" for a in args)
        if name in GEOMETRY and local and vals and (tr or "").startswith("grid::GridFunctions3D"):
            vals = (self.geometry(name, vals[0]).a[1],) + vals[1:]
        grid = local and (tr or "").startswith("grid::GridFunctions3D")
        self.emit("call", name=full, obj=vals[0] if vals else None, place=place, args=vals[1:],
                  sp=sp, extra={"mut": mut, "path": d["path"], "local": local, "ty": d["args"]})
        if not local:
            # an unknown callee may change what its &mut arguments refer to
            for i, a in enumerate(args):
                if a.k == "mref":
                    old = self.snap(a)
                    self.store(a.a[0], a.a[1], mk("mut", full, i, old, vals[:i] + vals[i + 1:]), sp,
                               how="mutcall")
        if grid and mut and args[0].k == "mref":
            self.holds(vals[0], name, vals[1:])
            self.muts.setdefault(vals[0], set()).add(name)
        elif grid and name in ("get_data", "get_weights"):
            return self.grid_holds(vals[0], "data" if name == "get_data" else "weight")
        elif grid and name not in GEOMETRY:
            vals = (self.now(vals[0], name),) + vals[1:]
        if grid and name == "new_zeros":
            return self.fresh(mk("call", name, vals[0] if vals[0].k != "state" else vals[0].a[0]),
                              site)
        return mk("call", full, *vals)

"""Value flow through Python source: a function's syntax tree is walked with terms for the values it is
not told, one walk for every way its undecided conditions can come out. A walk ends in the value
returned or the exception raised; calls the source does not define are recorded, not made.

Terms are tuples: ("sym", name), ("idx", t, k), ("attr", t, name), ("call", f, args, kwargs, n),
("op", o, a, b), ("trunc", t), ("asint", t), ("not", t), ("lt", a, b), ("eq", a, b), ("none", t),
("isinstance", t, kinds), ("part", t, start, step). Constants are K, sequences of known length Seq,
instances of classes of the source Obj."""
import ast
from fractions import Fraction


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, kind):
        self.kind = kind


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Skip(Exception):
    pass


class Stop(Exception):
    pass


class K:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(("K", self.v))

    def __repr__(self):
        return repr(self.v)


class Seq:
    """A list or array of known length; dtype "int" where whatever is put in becomes whole."""

    def __init__(self, items, array=False, dtype=None):
        self.items, self.array, self.dtype = list(items), array, dtype

    def __repr__(self):
        return "[" + ", ".join(show(x) for x in self.items) + "]"


class Dict:
    def __init__(self, items):
        self.items = items


class Obj:
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, fields or {}


class Fn:
    def __init__(self, node, env, module, bound=None):
        self.node, self.env, self.module, self.bound = node, env, module, bound


class Cls:
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}


def show(t):
    if isinstance(t, (K, Seq)):
        return repr(t)
    if not isinstance(t, tuple):
        return type(t).__name__
    o = t[0]
    if o == "seq":
        return "[" + ", ".join(show(x) for x in t[2]) + "]"
    if o == "sym":
        return t[1]
    if o == "idx":
        return f"{show(t[1])}[{show(t[2])}]"
    if o == "attr":
        return f"{show(t[1])}.{t[2]}"
    if o == "call":
        return f"{show(t[1])}({', '.join([show(x) for x in t[2]] + [f'{k}={show(v)}' for k, v in t[3]])})"
    if o == "op":
        return f"({show(t[2])} {t[1]} {show(t[3])})"
    return f"{o}({', '.join(show(x) if not isinstance(x, str) else x for x in t[1:])})"


class Module:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.tree = ast.parse(open(path).read())
        self.names = {}
        self.walk(self.tree.body)

    def walk(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.names[n.name] = Fn(n, None, self)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = Cls(n, self)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("sym", a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.names[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.names[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self.walk(n.body)

    def cls(self, name):
        c = self.names.get(name)
        return c if isinstance(c, Cls) else None


INTS = ("int64", "int32", "int", "intp", "uint64", "uintp", "integer", "int_")
IDENT = {"asarray", "array", "ascontiguousarray", "atleast_1d", "asanyarray", "copy", "deepcopy"}


class Walk:
    """One way through a function."""

    def __init__(self, facts, lens, script):
        self.facts, self.lens = facts, lens
        self.script, self.taken = list(script), []
        self.known = {}
        self.effects = []
        self.lines = set()
        self.fns = set()
        self.depth = 0
        self.fuel = 20000

    # ---------------------------------------------------------------- conditions
    def decide(self, t):
        if t[0] == "not":
            return not self.decide(t[1])
        if t in self.known:
            return self.known[t]
        r = self.facts(t)
        if r is None and t[0] == "eq" and isinstance(t[2], K):
            # one value cannot be two constants
            if any(k[0] == "eq" and k[1] == t[1] and k[2] != t[2] and v for k, v in self.known.items()):
                r = False
        if r is None:
            at = len(self.taken)
            r = self.script[at] if at < len(self.script) else True
            self.taken.append(r)
        self.known[t] = r
        return r

    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Seq):
            return bool(v.items)
        if isinstance(v, Dict):
            return bool(v.items)
        if isinstance(v, (Obj, Fn, Cls)):
            return True
        if v[0] in ("lt", "eq", "none", "isinstance", "not", "any", "all", "in"):
            return self.decide(v)
        return self.decide(("truth", v))

    # ---------------------------------------------------------------- sequences
    def length(self, v):
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, K) and isinstance(v.v, (str, tuple)):
            return len(v.v)
        if isinstance(v, tuple):
            if v in self.lens:
                return self.lens[v]
            if v[0] in ("asint", "trunc"):
                return self.length(v[1])
            if v[0] == "op":
                a, b = self.length(v[2]), self.length(v[3])
                return a if a is not None else b
            if v[0] == "part":
                n = self.length(v[1])
                return None if n is None else len(range(*slice(v[2], v[4], v[3]).indices(n)))
        return None

    def elem(self, v, k):
        """Element k (a number) of v."""
        if isinstance(v, Seq):
            x = v.items[k]
            return trunc(x) if v.dtype == "int" else x
        if isinstance(v, K):
            return K(v.v[k]) if isinstance(v.v, (str, tuple)) else v
        n = self.length(v)
        if n is not None and k < 0:
            k += n
        if v[0] in ("asint", "trunc"):
            return trunc(self.elem(v[1], k))
        if v[0] == "op" and n is not None:
            return op(v[1], self.each(v[2], k), self.each(v[3], k))
        if v[0] == "part" and n is not None:
            return self.elem(v[1], range(*slice(v[2], v[4], v[3]).indices(self.length(v[1])))[k])
        return ("idx", v, K(k))

    def each(self, v, k):
        return v if self.length(v) is None else self.elem(v, k)

    def items(self, v):
        n = self.length(v)
        if n is None:
            raise Undecided(f"a sequence of unknown length: {show(v)}")
        return [self.elem(v, k) for k in range(n)]

    # ---------------------------------------------------------------- statements
    def call(self, fn, args, kwargs):
        self.depth += 1
        if self.depth > 40:
            raise Undecided("calls too deep")
        node, a = fn.node, fn.node.args
        self.fns.add(f"{fn.module.name}.{getattr(node, 'name', 'lambda')}")
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = ([fn.bound] if fn.bound is not None else []) + list(args)
        if len(args) > len(names) and not a.vararg:
            raise Raised("TypeError")
        env.update(zip(names, args))
        if a.vararg:
            env[a.vararg.arg] = Seq(args[len(names):])
        rest = {}
        for k, v in kwargs:
            if k in names and k not in env or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                raise Raised("TypeError")
        if a.kwarg:
            env[a.kwarg.arg] = Dict(rest)
        for x, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in env:
                env[x] = self.eval(d, Env({}, None, fn.module))
        if any(x not in env for x in names + [x.arg for x in a.kwonlyargs]):
            raise Raised("TypeError")
        env = Env(env, fn.env, fn.module)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            self.block(node.body, env)
            return K(None)
        except Return as r:
            return r.value
        finally:
            self.depth -= 1

    def block(self, body, env):
        for n in body:
            self.stmt(n, env)

    def stmt(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided("too many steps")
        self.lines.add((env.module.name, n.lineno))
        if isinstance(n, ast.Expr):
            self.eval(n.value, env)
        elif isinstance(n, ast.Assign):
            v = self.eval(n.value, env)
            for t in n.targets:
                self.assign(t, v, env)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.eval(n.value, env), env)
        elif isinstance(n, ast.AugAssign):
            load = ast.parse(ast.unparse(n.target), mode="eval").body
            old, v = self.eval(load, env), self.eval(n.value, env)
            if isinstance(old, Seq) and not old.array and isinstance(n.op, ast.Add):
                old.items += self.items(v)
            else:
                self.assign(n.target, self.binop(OPS.get(type(n.op)), old, v), env)
        elif isinstance(n, ast.If):
            self.block(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)
        elif isinstance(n, ast.For):
            try:
                for x in self.items(self.eval(n.iter, env)):
                    self.assign(n.target, x, env)
                    try:
                        self.block(n.body, env)
                    except Skip:
                        continue
                else:
                    self.block(n.orelse, env)
            except Stop:
                pass
        elif isinstance(n, ast.While):
            for _ in range(50):
                if not self.truth(self.eval(n.test, env)):
                    self.block(n.orelse, env)
                    break
                try:
                    self.block(n.body, env)
                except Skip:
                    continue
                except Stop:
                    break
            else:
                raise Undecided("a loop without a bound")
        elif isinstance(n, ast.Return):
            raise Return(self.eval(n.value, env) if n.value else K(None))
        elif isinstance(n, ast.Raise):
            x = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            raise Raised(x.id if isinstance(x, ast.Name) else "Exception")
        elif isinstance(n, ast.Assert):
            if not self.truth(self.eval(n.test, env)):
                raise Raised("AssertionError")
        elif isinstance(n, ast.FunctionDef):
            env.vars[n.name] = Fn(n, env, env.module)
        elif isinstance(n, ast.Try):
            try:
                self.block(n.body, env)
                self.block(n.orelse, env)
            except Raised as r:
                for h in n.handlers:
                    kinds = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                    if h.type is None or any(isinstance(k, ast.Name) and k.id in (r.kind, "Exception", "BaseException")
                                             for k in kinds):
                        if h.name:
                            env.vars[h.name] = ("sym", "error")
                        self.block(h.body, env)
                        break
                else:
                    raise
            finally:
                self.block(n.finalbody, env)
        elif isinstance(n, ast.With):
            for i in n.items:
                v = self.eval(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(n.body, env)
        elif isinstance(n, ast.Match):
            self.match(n, env)
        elif isinstance(n, ast.Continue):
            raise Skip()
        elif isinstance(n, ast.Break):
            raise Stop()
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                env.vars[a.asname or a.name.split(".")[0]] = ("sym", a.name)
        elif isinstance(n, (ast.Pass, ast.Global, ast.Nonlocal, ast.Delete)):
            pass
        else:
            raise Undecided(f"a {type(n).__name__} statement")

    def match(self, n, env):
        v = self.eval(n.subject, env)

        def fits(p):
            if isinstance(p, ast.MatchValue):
                return self.truth(self.equal(v, self.eval(p.value, env)))
            if isinstance(p, ast.MatchSingleton):
                return self.truth(self.none(v)) if p.value is None else self.truth(self.equal(v, K(p.value)))
            if isinstance(p, ast.MatchOr):
                return any(fits(q) for q in p.patterns)
            if isinstance(p, ast.MatchAs) and (p.pattern is None or fits(p.pattern)):
                if p.name:
                    env.vars[p.name] = v
                return True
            if isinstance(p, ast.MatchAs):
                return False
            raise Undecided(f"a {type(p).__name__} pattern")
        for c in n.cases:
            if fits(c.pattern) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.block(c.body, env)
                return

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Undecided("a starred target")
            for k, x in enumerate(t.elts):
                self.assign(x, self.elem(v, k), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if isinstance(o, Obj):
                o.fields[t.attr] = v
            else:
                self.effects.append(("set", o, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value, env), t.slice
            if isinstance(o, Seq) and isinstance(k, ast.Slice) and all(x is None for x in (k.lower, k.upper, k.step)):
                o.items[:] = [self.each(v, j) for j in range(len(o.items))]
                return
            k = self.eval(k, env)
            if isinstance(o, Dict) and isinstance(k, K):
                o.items[k.v] = v
            elif isinstance(o, Seq) and isinstance(k, K):
                o.items[k.v] = v
            else:
                raise Undecided(f"writing to {show(o)}")
        else:
            raise Undecided("a target")

    # ---------------------------------------------------------------- expressions
    def eval(self, n, env):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Undecided(f"a {type(n).__name__} expression")
        return f(n, env)

    def e_Constant(self, n, env):
        return K(n.value)

    def e_Name(self, n, env):
        e = env
        while e is not None:
            if n.id in e.vars:
                return e.vars[n.id]
            e = e.up
        v = env.module.names.get(n.id)
        if isinstance(v, ast.AST):
            v = self.eval(v, Env({}, None, env.module))
        return v if v is not None else ("sym", n.id)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def seq(self, elts, env):
        r = []
        for x in elts:
            r += self.items(self.eval(x.value, env)) if isinstance(x, ast.Starred) else [self.eval(x, env)]
        return Seq(r)

    def e_List(self, n, env):
        return self.seq(n.elts, env)

    e_Tuple = e_Set = e_List

    def e_Dict(self, n, env):
        r = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, env)
                if not isinstance(d, Dict):
                    raise Undecided("a dictionary of unknown keys")
                r.update(d.items)
                continue
            k = self.eval(k, env)
            if not isinstance(k, K):
                raise Undecided("a key")
            r[k.v] = self.eval(v, env)
        return Dict(r)

    def e_JoinedStr(self, n, env):
        parts = [self.eval(v.value if isinstance(v, ast.FormattedValue) else v, env) for v in n.values]
        if all(isinstance(x, K) for x in parts):
            return K("".join(str(x.v) for x in parts))
        return ("text",) + tuple(x if isinstance(x, (K, tuple)) else K(show(x)) for x in parts)

    def e_Attribute(self, n, env):
        return self.attr(self.eval(n.value, env), n.attr)

    def attr(self, o, name):
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            if name in o.cls.methods:
                node = o.cls.methods[name]
                kinds = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
                bound = None if "staticmethod" in kinds else ("sym", "class") if "classmethod" in kinds else o
                f = Fn(node, None, o.cls.module, bound)
                return self.call(f, [], []) if "property" in kinds else f
            return ("attr", ("sym", "self"), name)
        if isinstance(o, Cls):
            if name in o.methods:
                node = o.methods[name]
                kinds = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
                return Fn(node, None, o.module, ("sym", "class") if "classmethod" in kinds else None)
            return ("attr", ("sym", o.node.name), name)
        if isinstance(o, Seq):
            if name in ("size",):
                return K(len(o.items))
            if name == "shape":
                return Seq([K(len(o.items))])
            if name == "T":
                return o
            return ("attr", o, name)
        if isinstance(o, tuple) and name == "size" and self.length(o) is not None:
            return K(self.length(o))
        if isinstance(o, tuple) and name == "shape" and self.length(o) is not None:
            return Seq([K(self.length(o))])
        return ("attr", o, name)

    def e_Subscript(self, n, env):
        o = self.eval(n.value, env)
        if isinstance(n.slice, ast.Slice):
            b = [self.eval(x, env) if x is not None else K(None) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if not all(isinstance(x, K) for x in b):
                raise Undecided("a slice")
            lo, hi, step = (x.v for x in b)
            if isinstance(o, Seq):
                return Seq(o.items[lo:hi:step], o.array, o.dtype)
            if isinstance(o, tuple):
                return ("part", o, lo, step, hi)
            return K(o.v[lo:hi:step])
        k = self.eval(n.slice, env)
        if isinstance(o, Dict) and isinstance(k, K):
            if k.v not in o.items:
                raise Raised("KeyError")
            return o.items[k.v]
        if isinstance(o, Dict):
            for key, v in o.items.items():
                if self.truth(self.equal(k, K(key))):
                    return v
            raise Raised("KeyError")
        if isinstance(k, K) and isinstance(k.v, int):
            if isinstance(o, Seq) and not -len(o.items) <= k.v < len(o.items):
                raise Raised("IndexError")
            return self.elem(o, k.v)
        if isinstance(o, tuple):
            return ("idx", o, k)
        raise Undecided(f"an element of {show(o)}")

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return K(not self.truth(v))
        if isinstance(n.op, ast.USub):
            return op("*", K(-1), v) if not isinstance(v, K) else K(-v.v)
        return v

    def e_BinOp(self, n, env):
        return self.binop(OPS.get(type(n.op)), self.eval(n.left, env), self.eval(n.right, env))

    def binop(self, o, a, b):
        if o is None:
            raise Undecided("an operator")
        if isinstance(a, Seq) and isinstance(b, Seq) and not a.array and not b.array and o == "+":
            return Seq(a.items + b.items)
        if isinstance(a, Seq) and not a.array and o == "*" and isinstance(b, K):
            return Seq(a.items * b.v)
        if isinstance(a, Seq) or isinstance(b, Seq):
            n = len((a if isinstance(a, Seq) else b).items)
            return Seq([op(o, self.each(a, k), self.each(b, k)) for k in range(n)], True)
        return op(o, a, b)

    def e_BoolOp(self, n, env):
        stop = isinstance(n.op, ast.Or)
        for x in n.values:
            v = self.eval(x, env)
            if self.truth(v) == stop:
                break
        return v

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Compare(self, n, env):
        a = self.eval(n.left, env)
        r = K(True)
        for o, x in zip(n.ops, n.comparators):
            b = self.eval(x, env)
            r = self.compare(o, a, b)
            if len(n.ops) > 1:
                if not self.truth(r):
                    return K(False)
                r = K(True)
            a = b
        return r

    def none(self, v):
        if isinstance(v, K):
            return K(v.v is None)
        if isinstance(v, tuple) and v[0] in ("sym", "call", "attr", "idx"):
            return ("none", v)
        return K(False)

    def equal(self, a, b):
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v == b.v)
        if isinstance(a, Seq) and isinstance(b, Seq) and len(a.items) == len(b.items):
            return K(all(self.truth(self.equal(x, y)) for x, y in zip(a.items, b.items)))
        if a == b:
            return K(True)
        if isinstance(a, K):
            a, b = b, a
        if not isinstance(a, tuple):
            raise Undecided("a comparison")
        return ("eq", a, b) if isinstance(b, K) or show(a) <= show(b) else ("eq", b, a)

    def compare(self, o, a, b):
        if isinstance(o, (ast.Is, ast.IsNot)):
            t = self.none(a) if b == K(None) else self.none(b) if a == K(None) else self.equal(a, b)
            return t if isinstance(o, ast.Is) else neg(t)
        if isinstance(o, (ast.Eq, ast.NotEq)):
            if K(None) in (a, b):
                t = self.none(b if a == K(None) else a)
            else:
                t = self.equal(a, b)
            return t if isinstance(o, ast.Eq) else neg(t)
        if isinstance(o, (ast.In, ast.NotIn)):
            if isinstance(b, Dict):
                b = Seq([K(k) for k in b.items])
            if isinstance(b, K) and isinstance(b.v, (tuple, frozenset)):
                b = Seq([K(x) for x in b.v])
            if isinstance(b, K) and isinstance(a, K):
                t = K(a.v in b.v)
            elif self.length(b) is None:
                t = ("in", a, b)
            else:
                t = K(any(self.truth(self.none(x if a == K(None) else a) if K(None) in (a, x) else self.equal(a, x))
                          for x in self.items(b)))
            return t if isinstance(o, ast.In) else neg(t)
        if isinstance(a, Seq) or isinstance(b, Seq) or (self.length(a) is not None and isinstance(a, tuple)):
            n = self.length(a) if self.length(a) is not None else self.length(b)
            return Seq([self.compare(o, self.each(a, k), self.each(b, k)) for k in range(n)], True)
        if isinstance(a, K) and isinstance(b, K):
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                 ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(o)]
            try:
                return K(f(a.v, b.v))
            except TypeError:
                raise Raised("TypeError")
        if isinstance(o, ast.Lt):
            return ("lt", a, b)
        if isinstance(o, ast.Gt):
            return ("lt", b, a)
        if isinstance(o, ast.LtE):
            return neg(("lt", b, a))
        return neg(("lt", a, b))

    def e_Lambda(self, n, env):
        return Fn(n, env, env.module)

    def comp(self, n, env):
        r = []
        env = Env({}, env, env.module)

        def go(gens):
            if not gens:
                r.append((self.eval(n.key, env), self.eval(n.value, env)) if isinstance(n, ast.DictComp)
                         else self.eval(n.elt, env))
                return
            for x in self.items(self.eval(gens[0].iter, env)):
                self.assign(gens[0].target, x, env)
                if all(self.truth(self.eval(c, env)) for c in gens[0].ifs):
                    go(gens[1:])
        go(n.generators)
        return r

    def e_ListComp(self, n, env):
        return Seq(self.comp(n, env))

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, n, env):
        return Dict({k.v: v for k, v in self.comp(n, env)})

    def e_Starred(self, n, env):
        return self.eval(n.value, env)

    def e_Call(self, n, env):
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                args += self.items(self.eval(x.value, env))
            else:
                args.append(self.eval(x, env))
        kwargs = []
        for k in n.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, Dict):
                    raise Undecided("keywords of unknown names")
                kwargs += list(v.items.items())
            else:
                kwargs.append((k.arg, v))
        f = self.eval(n.func, env)
        if isinstance(f, Fn):
            return self.call(f, args, kwargs)
        if isinstance(f, Cls):
            o = Obj(f)
            if "__init__" in f.methods:
                self.call(Fn(f.methods["__init__"], None, f.module, o), args, kwargs)
                return o
        r = self.builtin(f, args, dict(kwargs))
        if r is not None:
            return r
        t = ("call", f, tuple(freeze(x) for x in args), tuple((k, freeze(v)) for k, v in kwargs))
        if isinstance(f, tuple) and f[0] == "attr":
            self.effects.append(t)
        return t

    def whole(self, kwargs, args):
        d = kwargs.get("dtype", args[1] if len(args) > 1 else None)
        if d is None:
            return None
        s = d.v if isinstance(d, K) else d[-1] if isinstance(d, tuple) else ""
        return "int" if s in INTS else "float" if isinstance(s, str) and s.startswith("float") else None

    def builtin(self, f, args, kw):
        if not isinstance(f, tuple):
            return None
        if f[0] == "sym":
            name = f[1]
            if name == "print":
                return K(None)
            if name == "isinstance":
                return ("isinstance", args[0], freeze(args[1])) if isinstance(args[0], tuple) else \
                    ("isinstance", ("lit", type(getattr(args[0], "v", args[0])).__name__), freeze(args[1]))
            if name == "len":
                n = self.length(args[0])
                if n is not None:
                    return K(n)
                return ("len", args[0])
            if name == "int":
                return trunc(args[0])
            if name == "float":
                return args[0]
            if name in ("list", "tuple") and args:
                return Seq(self.items(args[0])) if self.length(args[0]) is not None else args[0]
            if name in ("list",):
                return Seq([])
            if name == "dict" and not args:
                return Dict(dict(kw))
            if name == "range" and all(isinstance(x, K) for x in args):
                return Seq([K(k) for k in range(*(x.v for x in args))])
            if name == "enumerate":
                return Seq([Seq([K(k), x]) for k, x in enumerate(self.items(args[0]))])
            if name == "reversed":
                return Seq(self.items(args[0])[::-1])
            if name == "zip":
                return Seq([Seq(x) for x in zip(*(self.items(a) for a in args))])
            if name == "map" and isinstance(args[0], (Fn, tuple)):
                rows = list(zip(*(self.items(a) for a in args[1:])))
                return Seq([self.call(args[0], r, []) if isinstance(args[0], Fn) else
                            self.builtin(args[0], list(r), {}) for r in rows])
            if name in ("any", "all"):
                return self.quantified(name, args[0])
            if name == "str" and args and isinstance(args[0], K):
                return K(str(args[0].v))
            if name == "super":
                return ("sym", "super")
            if name in ("abs",) and isinstance(args[0], K):
                return K(abs(args[0].v))
            if name in ("asarray", "array", "zeros"):
                return self.array(name, args, kw)
            if name == "setattr" and isinstance(args[0], Obj):
                args[0].fields[args[1].v] = args[2]
                return K(None)
            if name == "getattr" and isinstance(args[1], K):
                return self.attr(args[0], args[1].v)
            return None
        if f[0] == "attr":
            o, name = f[1], f[2]
            if o in (("sym", "numpy"), ("sym", "np")):
                return self.array(name, args, kw)
            if name in ("astype",):
                w = self.whole({"dtype": args[0] if args else kw.get("dtype")}, [])
                return as_type(o, w)
            if name in ("tolist", "copy", "flatten", "ravel", "item") and not args:
                return Seq(o.items, o.array, o.dtype) if isinstance(o, Seq) else o
            if name in ("any", "all") and not args:
                return self.quantified(name, o)
            if isinstance(o, Seq):
                if name == "append":
                    o.items.append(args[0])
                    return K(None)
                if name == "extend":
                    o.items += self.items(args[0])
                    return K(None)
            if isinstance(o, Dict):
                if name == "get":
                    return o.items.get(args[0].v, args[1] if len(args) > 1 else K(None)) \
                        if isinstance(args[0], K) else None
                if name == "items":
                    return Seq([Seq([K(k), v]) for k, v in o.items.items()])
                if name == "keys":
                    return Seq([K(k) for k in o.items])
                if name == "values":
                    return Seq(list(o.items.values()))
            if isinstance(o, K) and isinstance(o.v, str):
                if name in ("lower", "upper", "strip") and not args:
                    return K(getattr(o.v, name)())
                if name in ("format", "join"):
                    return ("text", o)
            if name in ("format",):
                return ("text", o)
        return None

    def quantified(self, name, v):
        if self.length(v) is None:
            return (name, freeze(v))
        f = any if name == "any" else all
        return K(f(self.truth(x) for x in self.items(v)))

    def array(self, name, args, kw):
        if name in IDENT:
            v, w = args[0], self.whole(kw, args)
            return as_type(Seq(v.items, True, v.dtype) if isinstance(v, Seq) else v, w)
        if name in ("zeros", "empty", "ones", "full") and args:
            n = args[0].items[0] if isinstance(args[0], Seq) and len(args[0].items) == 1 else args[0]
            if isinstance(n, K):
                fill = args[1] if name == "full" else K(1 if name == "ones" else 0)
                return Seq([fill] * n.v, True, self.whole(kw, args if name != "full" else []) or "float")
        if name in ("int64", "int32", "intp", "trunc", "fix") and args:
            return trunc(args[0]) if self.length(args[0]) is None else Seq([trunc(x) for x in self.items(args[0])], True)
        if name in ("float64",) and args:
            return args[0]
        if name in ("subtract", "divide", "true_divide", "add", "multiply"):
            o = {"subtract": "-", "divide": "/", "true_divide": "/", "add": "+", "multiply": "*"}[name]
            return self.binop(o, args[0], args[1])
        if name in ("any", "all"):
            return self.quantified(name, args[0])
        if name in ("concatenate", "hstack") and self.length(args[0]) is not None:
            return Seq([y for x in self.items(args[0]) for y in self.items(x)], True)
        if name in ("ndarray",):
            return None
        if name in ("size",) and self.length(args[0]) is not None:
            return K(self.length(args[0]))
        return None


class Env:
    def __init__(self, vars, up, module):
        self.vars, self.up, self.module = vars, up, module


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitOr: "|", ast.BitAnd: "&"}


def neg(t):
    if isinstance(t, K):
        return K(not t.v)
    return t[1] if t[0] == "not" else ("not", t)


def freeze(v):
    """A value as it is now."""
    if isinstance(v, Seq):
        items = tuple(trunc(freeze(x)) if v.dtype == "int" else freeze(x) for x in v.items)
        return ("seq", v.dtype, items)
    if isinstance(v, Dict):
        return ("dict",) + tuple((K(k), freeze(x)) for k, x in v.items.items())
    if isinstance(v, (Obj, Fn, Cls)):
        return ("sym", "self") if isinstance(v, Obj) else ("sym", getattr(v.node, "name", "lambda"))
    return v


def trunc(v):
    if isinstance(v, K):
        return K(int(v.v))
    if isinstance(v, tuple) and v[0] == "trunc":
        return v
    return ("trunc", freeze(v))


def as_type(v, w):
    if w != "int":
        return v if w is None or not isinstance(v, Seq) else Seq(v.items, True, "float")
    if isinstance(v, Seq):
        return Seq([trunc(x) for x in v.items], True, "int")
    return ("asint", v)


def op(o, a, b):
    if isinstance(a, K) and isinstance(b, K):
        try:
            return K({"+": lambda: a.v + b.v, "-": lambda: a.v - b.v, "*": lambda: a.v * b.v, "/": lambda: a.v / b.v,
                      "//": lambda: a.v // b.v, "%": lambda: a.v % b.v, "**": lambda: a.v ** b.v}[o]())
        except (TypeError, ZeroDivisionError, KeyError):
            pass
    return ("op", o, freeze(a), freeze(b))


class Outcome:
    def __init__(self, walk, kind, value):
        self.kind, self.value = kind, value
        self.effects, self.known, self.lines, self.fns = walk.effects, walk.known, walk.lines, walk.fns


def ways(run, facts=lambda t: None, lens=None, limit=4000):
    """Every way through run(walk): outcomes ("return", value) and ("raise", exception)."""
    todo, found = [[]], []
    while todo:
        script = todo.pop()
        w = Walk(facts, lens or {}, script)
        try:
            found.append(Outcome(w, "return", freeze_top(run(w))))
        except Raised as r:
            found.append(Outcome(w, "raise", r.kind))
        for k in range(len(script), len(w.taken)):
            todo.append(w.taken[:k] + [False])
        if len(found) > limit:
            raise Undecided("too many ways")
    return found


def freeze_top(v):
    return v if isinstance(v, Obj) else freeze(v)


# ---------------------------------------------------------------- arithmetic
def ratio(t):
    """A term as a fraction of polynomials over what it does not take apart."""
    if isinstance(t, K) and isinstance(t.v, (int, float)) and not isinstance(t.v, bool):
        return {(): Fraction(str(t.v))}, {(): Fraction(1)}
    if isinstance(t, tuple) and t[0] == "op" and t[1] in "+-*/":
        (a, b), (c, d) = ratio(t[2]), ratio(t[3])
        if t[1] == "*":
            return times(a, c), times(b, d)
        if t[1] == "/":
            return times(a, d), times(b, c)
        return plus(times(a, d), times(c, b), -1 if t[1] == "-" else 1), times(b, d)
    return {(show(t),): Fraction(1)}, {(): Fraction(1)}


def times(a, b):
    r = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + x * y
    return {k: v for k, v in r.items() if v}


def plus(a, b, sign):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + sign * v
    return {k: v for k, v in r.items() if v}


def same(a, b):
    """Equal as rational functions (rounding aside)."""
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "trunc":
        return same(a[1], b[1])
    (a, b), (c, d) = ratio(a), ratio(b)
    return times(a, d) == times(c, b)

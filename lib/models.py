"""What the library calls this crate makes mean, as operations on value terms.

Each model is keyed by the resolved callee's path; a call without a model stays opaque."""

import ast
import re

import terms
from terms import (ANY, anyk, implies, total_of, B, FALSE, T, TRUE, add, as_bool, cmp, div, eq, ew, f_abs, f_sqrt, fld,
                   idx, is_nan, is_num, is_variant, lift, mk, mk_bool, mk_case, mul, neg, num,
                   num_val, power, sub, subst, subterms, tint)
import vfg
from vfg import (filtered, concatmap, Dead, State, UNDEF, UNIT, arr_rank, fixed_len, is_arr, is_floatty, is_intty,
                 split_args, strip_ref)

M = {}
PREF = []


def model(*paths):
    def deco(f):
        for p in paths:
            M[p] = f
        return f
    return deco


def lookup(d):
    m = M.get(d["path"])
    if m is None:
        for p, f in PREF:
            if d["path"].startswith(p):
                return f
    return m


def some(v):
    return mk("adt", "std::option::Option", "Some", ("0",), (v,))


NONE = mk("adt", "std::option::Option", "None", (), ())


def ok(v):
    return mk("adt", "std::result::Result", "Ok", ("0",), (v,))


def err(v):
    return mk("adt", "std::result::Result", "Err", ("0",), (v,))


def option(v, g):
    return mk_case([(some(v), g), (NONE, B.NOT(g))])


# ---------------------------------------------------------------- transparent calls
@model("std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::to_owned",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::view",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::into_owned",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::to_vec",
       "ndarray::impl_1d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::to_vec",
       "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec",
       "std::boxed::Box::<T>::new", "std::boxed::Box::<T>::new_uninit",
       "std::convert::Into::into", "std::vec::Vec::<T, A>::as_slice",
       "std::iter::Iterator::copied", "std::iter::Iterator::cloned", "std::hint::must_use",
       "std::string::ToString::to_string", "std::string::String::as_str",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::as_slice_unwrap",
       "core::str::<impl str>::as_ref", "std::iter::Iterator::by_ref", "std::borrow::ToOwned::to_owned",
       "std::option::Option::<T>::as_ref", "std::option::Option::<&T>::copied",
       "std::option::Option::<&T>::cloned", "std::result::Result::<T, E>::as_ref",
       "core::slice::<impl [T]>::as_ref", "std::iter::IntoIterator::by_ref",
       "std::mem::MaybeUninit::<T>::assume_init", "std::iter::Iterator::fuse",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::reborrow",
       "std::option::Option::<T>::as_deref")
def transparent(an, args, tys, d, site, sp, dest):
    if not args:
        return mk("uninit")
    if d["path"] == "std::borrow::ToOwned::to_owned" or d["path"].endswith("::to_owned"):
        return clone(an, args, tys)
    return an.snap(args[0])


@model("std::ops::DerefMut::deref_mut", "std::convert::AsMut::as_mut",
       "std::boxed::Box::<T>::as_mut", "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::view_mut",
       "std::vec::Vec::<T, A>::as_mut_slice", "std::option::Option::<T>::as_mut")
def transparent_mut(an, args, tys, d, site, sp, dest):
    return args[0]


@model("std::boxed::box_assume_init_into_vec_unsafe")
def box_vec(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


OBJECT_TY = ("dyn grid::GridFunctions3D", "grid::vector_grid::VectorGrid",
             "grid::cartesian_grid::CartesianGrid3D", "grid::cylindrical_grid::CylindricalGrid3D")


def clone(an, args, tys, site=None):
    v = an.snap(args[0])
    if any(o in tys[0] for o in OBJECT_TY[:1]):
        return an.fresh(mk("clone", an.now(v)), site)
    return v


@model("std::clone::Clone::clone")
def m_clone(an, args, tys, d, site, sp, dest):
    return clone(an, args, tys, site)


@model("dyn_clone::clone_box", "dyn_clone::clone")
def m_cloneb(an, args, tys, d, site, sp, dest):
    return an.fresh(mk("clone", an.now(an.snap(args[0]))), site)


# ---------------------------------------------------------------- diverging and ignorable
def diverge(an, args, tys, d, site, sp, dest):
    msg = None
    for a in args:
        for x in subterms(a):
            if x.k == "str":
                msg = x.a[0]
    an.emit("panic", name=d["path"], sp=sp, extra=msg)
    raise Dead()


for _p in ("core::panicking::", "std::rt::", "std::process::"):
    PREF.append((_p, diverge))


@model("core::panicking::unimplemented_default_msg", "core::panicking::unreachable_default_msg")
def panic_msg(an, args, tys, d, site, sp, dest):
    an.emit("panic", name=d["path"], sp=sp, extra=d["path"].split("::")[-1])
    raise Dead()


def ignore(an, args, tys, d, site, sp, dest):
    return mk("text", *[an.snap(a) for a in args if isinstance(a, T)])


for _p in ("core::fmt::", "std::fmt::", "std::io::_print", "std::io::_eprint", "alloc::fmt::",
           "anyhow::", "std::string::String::"):
    PREF.append((_p, ignore))


@model("std::string::String::push_str", "std::string::String::push")
def push_text(an, args, tys, d, site, sp, dest):
    write_ref(an, args[0], joined(an.snap(args[0]), an.snap(args[1])), sp)
    return UNIT


@model("std::string::String::new", "std::string::String::with_capacity")
def new_text(an, args, tys, d, site, sp, dest):
    return terms.words(())


@model("anyhow::error::<impl anyhow::Error>::msg", "anyhow::__private::format_err",
       "anyhow::__private::must_use")
def anyhow_msg(an, args, tys, d, site, sp, dest):
    return mk("text")


@model("pyo3::ffi::PyErr_CheckSignals")
def check_signals(an, args, tys, d, site, sp, dest):
    an.emit("call", name="PyErr_CheckSignals", args=(), sp=sp, extra={"local": False})
    return mk("call", "PyErr_CheckSignals") if an.signals else num(0)


# ---------------------------------------------------------------- Python
# What a Python caller passes is named by the argument it is passed as; what it is handed back is the
# value that was wrapped.
PY = "pyo3::impl_::extract_argument::"


@model(PY + "FunctionDescription::extract_arguments_fastcall",
       PY + "FunctionDescription::extract_arguments_tuple_dict")
def py_arguments(an, args, tys, d, site, sp, dest):
    return ok(mk("call", "passed"))


def py_argument(an, slot, name, default, sp, optional=False):
    an.emit("call", name="pyarg", args=(slot, name), sp=sp, extra={"default": default, "local": False,
                                                                   "optional": optional})
    return ok(mk("in", name.a[0] if name.k == "str" else show(name)))


@model(PY + "extract_argument")
def py_extract(an, args, tys, d, site, sp, dest):
    return py_argument(an, an.snap(args[0]), an.snap(args[2]), None, sp)


@model(PY + "extract_argument_with_default")
def py_extract_default(an, args, tys, d, site, sp, dest):
    return py_argument(an, an.snap(args[0]), an.snap(args[2]), an.snap(args[3]), sp)


@model(PY + "extract_optional_argument")
def py_extract_optional(an, args, tys, d, site, sp, dest):
    return py_argument(an, an.snap(args[0]), an.snap(args[2]), an.snap(args[3]), sp, True)


@model(PY + "extract_pyclass_ref")
def py_self(an, args, tys, d, site, sp, dest):
    return ok(mk("in", "self"))


@model(PY + "extract_pyclass_ref_mut")
def py_self_mut(an, args, tys, d, site, sp, dest):
    an.st.env[("obj", "self")] = mk("in", "self")
    return ok(mk("mref", ("obj", "self"), ()))


@model("pyo3::impl_::wrap::OkWrap::wrap")
def py_wrap(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    return v if "Result<" in tys[0].split(",")[0] else ok(v)


@model("pyo3::Py::<T>::into_ptr", "pyo3::IntoPy::into_py", "pyo3::callback::convert")
def py_ptr(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


@model("numpy::IntoPyArray::into_pyarray", "functions::numpy::IntoPyArray::into_pyarray",
       "pyo3::ToPyObject::to_object")
def py_value(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


# ---------------------------------------------------------------- arrays of fixed length
def fixed_length(*texts):
    """The number of elements of the last array type of fixed length among texts."""
    for t in reversed(texts):
        m = re.fullmatch(r"&?(?:mut )?\[.*; (\d+)(?:_usize)?\]", t or "")
        if m:
            return int(m.group(1))
    return None


@model("std::array::<impl [T; N]>::map", "std::array::from_fn")
def array_of(an, args, tys, d, site, sp, dest):
    whole = d["path"].endswith("map")
    n = fixed_length(tys[0]) if whole else next((int(x) for x in d["args"] if re.fullmatch(r"\d+", x)), None)
    if n is None or n > 16:
        raise terms.Unsupported("an array of unknown length")
    f = args[1] if whole else args[0]
    v = an.snap(args[0]) if whole else None
    out = []
    for i in range(n):
        x = idx(v, (num(i),)) if whole else num(i)
        out.append(an.call_value(f, [x], [], site + (("item", i),), sp))
    return mk("array", tuple(out))


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def try_into(an, args, tys, d, site, sp, dest):
    n = fixed_length(*(d["args"] or []))
    v = an.snap(args[0])
    if n is None or n > 16:
        return an.opaque_call(d, args, tys, sp, site)
    g = terms.cmp("Eq", terms.dim_of(v, 0), num(n), True)
    return mk_case([(ok(mk("array", tuple(idx(v, (num(i),)) for i in range(n)))), g), (err(v), B.NOT(g))])


# ---------------------------------------------------------------- arithmetic
def elementwise(an, f, args, tys):
    arrs = [is_arr(t) for t in tys[:len(args)]]
    vals = [an.snap(a) for a in args]
    if any(arrs):
        body = f(*[idx(v, (ANY,)) if isarr else v for v, isarr in zip(vals, arrs)])
        i = max(range(len(arrs)), key=lambda i: (arrs[i], (arr_rank(tys[i]) or 0) if arrs[i] else 0))
        return ew(body, an.dims(vals[i], arr_rank(tys[i])))
    return f(*vals)


def joined(a, b):
    """One piece of text after another."""
    a, b = spelled(a), spelled(b)
    return terms.words(a.a[0] + b.a[0]) if a.k == b.k == "words" else mk("text")


def arith_model(op):
    def m(an, args, tys, d, site, sp, dest):
        ty = strip_ref(tys[0])
        if ty == "std::string::String":
            return joined(an.snap(args[0]), an.snap(args[1]))
        isf = not is_intty(ty)
        return elementwise(an, lambda a, b: an.arith(op, a, b, isf), args, tys)
    return m


for _op in ("Add", "Sub", "Mul", "Div", "Rem"):
    M[f"std::ops::{_op}::{_op.lower()}"] = arith_model(_op)


def assign_model(op):
    def m(an, args, tys, d, site, sp, dest):
        isf = not is_intty(tys[0])
        old = an.snap(args[0])
        if strip_ref(tys[0]) == "std::string::String":
            write_ref(an, args[0], joined(old, an.snap(args[1])), sp)
            return UNIT
        new = elementwise(an, lambda a, b: an.arith(op, a, b, isf), [old, args[1]], tys)
        write_ref(an, args[0], new, sp)
        return UNIT
    return m


for _op in ("Add", "Sub", "Mul", "Div"):
    M[f"std::ops::{_op}Assign::{_op.lower()}_assign"] = assign_model(_op)


def write_ref(an, r, val, sp, how="store"):
    if r.k == "mref":
        if not r.a[1] and r.a[0][0] != "obj":
            tgt = an.st.env.get(r.a[0], UNDEF)
            if tgt.k == "mref":
                return write_ref(an, tgt, val, sp, how)
            an.st.env[r.a[0]] = val
        else:
            an.store(r.a[0], r.a[1], val, sp, how)
        return
    if r.k == "case":
        c0 = an.st.cond
        for m, c in r.a[0]:
            if m.k == "mref":
                an.st.cond = B.AND(c0, c)
                old = an.load(*m.a)
                an.store(m.a[0], m.a[1], mk_case([(val, c), (old, B.NOT(c))]), sp, how)
        an.st.cond = c0
        return
    an.note("write through unknown reference")
    an.emit("store", obj=r, val=val, sp=sp)


@model("std::ops::Neg::neg")
def m_neg(an, args, tys, d, site, sp, dest):
    return elementwise(an, neg, args, tys)


@model("std::ops::Not::not")
def m_not(an, args, tys, d, site, sp, dest):
    return mk_bool(B.NOT(as_bool(an.snap(args[0]))))


def unary(f):
    def m(an, args, tys, d, site, sp, dest):
        return lift(f, an.snap(args[0]))
    return m


def fpath(*names):
    for n in names:
        yield f"core::f64::<impl f64>::{n}"
        yield f"std::f64::<impl f64>::{n}"
        yield f"core::f64::math::{n}"


for _p in fpath("abs"):
    M[_p] = unary(f_abs)
for _p in fpath("sqrt"):
    M[_p] = unary(f_sqrt)
for _n in ("floor", "ceil", "round", "sin", "cos", "tan", "exp", "ln", "atan", "acos", "asin",
           "trunc", "signum", "to_radians", "to_degrees"):
    for _p in fpath(_n):
        M[_p] = unary(lambda x, _n=_n: mk(_n, x))
for _p in fpath("is_nan"):
    M[_p] = lambda an, args, tys, d, site, sp, dest: mk_bool(is_nan(an.snap(args[0])))
for _p in fpath("is_finite"):
    M[_p] = lambda an, args, tys, d, site, sp, dest: mk_bool(
        B.AND(B.NOT(is_nan(an.snap(args[0]))), B.NOT(B.var("INF", an.snap(args[0])))))
for _p in fpath("is_infinite"):
    M[_p] = lambda an, args, tys, d, site, sp, dest: mk_bool(B.var("INF", an.snap(args[0])))
for _p in fpath("sin_cos"):
    M[_p] = lambda an, args, tys, d, site, sp, dest: mk(
        "tuple", (mk("sin", an.snap(args[0])), mk("cos", an.snap(args[0]))))


def m_powi(an, args, tys, d, site, sp, dest):
    n = tint(an.snap(args[1]))
    x = an.snap(args[0])
    if n is not None and 0 <= n <= 6:
        return power(x, n) if x.k != "case" else lift(lambda v: power(v, n), x)
    return mk("powi", x, an.snap(args[1]))


def m_powf(an, args, tys, d, site, sp, dest):
    e = an.snap(args[1])
    x = an.snap(args[0])
    if is_num(e):
        v = num_val(e)
        if v.denominator == 1 and 0 <= v <= 6:
            return power(x, int(v))
        if v == 0.5:
            return lift(f_sqrt, x)
    return mk("powf", x, e)


for _p in fpath("powi"):
    M[_p] = m_powi
for _p in fpath("powf"):
    M[_p] = m_powf
for _p in fpath("hypot"):
    M[_p] = lambda an, a, tys, d, site, sp, dest: f_sqrt(
        add(power(an.snap(a[0]), 2), power(an.snap(a[1]), 2)))
for _p in fpath("mul_add"):
    M[_p] = lambda an, a, tys, d, site, sp, dest: add(
        mul(an.snap(a[0]), an.snap(a[1])), an.snap(a[2]))
for _p in fpath("atan2"):
    M[_p] = lambda an, a, tys, d, site, sp, dest: mk("atan2", an.snap(a[0]), an.snap(a[1]))
for _p in fpath("recip"):
    M[_p] = lambda an, a, tys, d, site, sp, dest: div(num(1), an.snap(a[0]))


def minmax_term(k, a, b):
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return a if (num_val(a) < num_val(b)) == (k == "min") else b
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk(k, x, y)


for _k in ("max", "min"):
    def _mm(an, a, tys, d, site, sp, dest, _k=_k):
        x, y = an.snap(a[0]), an.snap(a[1])
        if any(t.k == "phi" for t in terms.loopy(x) | terms.loopy(y)):
            return minmax_term(_k, x, y)
        g = B.OR(cmp("Lt" if _k == "min" else "Gt", x, y, False), terms.is_nan(y))
        return mk_case([(x, g), (y, B.NOT(g))])
    def _ord(an, a, tys, d, site, sp, dest, _k=_k):
        x, y = an.snap(a[0]), an.snap(a[1])
        if any(t.k == "phi" for t in terms.loopy(x) | terms.loopy(y)):
            return minmax_term(_k, x, y)
        g = cmp("Lt" if _k == "min" else "Gt", x, y, True)
        return mk_case([(x, g), (y, B.NOT(g))])
    for _p in fpath(_k):
        M[_p] = _mm
    for _p in (f"std::cmp::Ord::{_k}", f"std::cmp::{_k}"):
        M[_p] = _ord


def _clamp(isint):
    def m(an, a, tys, d, site, sp, dest):
        x, lo, hi = (an.snap(t) for t in a)
        l, h = cmp("Lt", x, lo, isint), cmp("Gt", x, hi, isint)
        return mk_case([(lo, l), (hi, B.AND(h, B.NOT(l))), (x, B.AND(B.NOT(l), B.NOT(h)))])
    return m


M["std::cmp::Ord::clamp"] = _clamp(True)
for _p in fpath("clamp"):
    M[_p] = _clamp(False)


for _ty in ("usize", "i32", "i64", "u64", "u32", "isize"):
    def _sat(an, a, tys, d, site, sp, dest):
        x, y = an.snap(a[0]), an.snap(a[1])
        lt = cmp("Lt", x, y, True)
        return mk_case([(num(0), lt), (sub(x, y), B.NOT(lt))])
    M[f"core::num::<impl {_ty}>::saturating_sub"] = _sat

    def _csub(an, a, tys, d, site, sp, dest):
        x, y = an.snap(a[0]), an.snap(a[1])
        lt = cmp("Lt", x, y, True)
        return option(sub(x, y), B.NOT(lt))
    M[f"core::num::<impl {_ty}>::checked_sub"] = _csub
    def _wsub(an, a, tys, d, site, sp, dest, top=2 ** int(_ty[1:] if _ty[1:].isdigit() else 64),
              signed=_ty[0] == "i"):
        x, y = an.snap(a[0]), an.snap(a[1])
        if signed:
            return sub(x, y)
        lt = cmp("Lt", x, y, True)
        return mk_case([(add(sub(x, y), num(top)), lt), (sub(x, y), B.NOT(lt))])
    M[f"core::num::<impl {_ty}>::wrapping_sub"] = _wsub
    M[f"core::num::<impl {_ty}>::wrapping_add"] = \
        lambda an, a, tys, d, site, sp, dest: add(an.snap(a[0]), an.snap(a[1]))
    M[f"core::num::<impl {_ty}>::pow"] = m_powi
    M[f"core::num::<impl {_ty}>::abs_diff"] = lambda an, a, tys, d, site, sp, dest: f_abs(
        sub(an.snap(a[0]), an.snap(a[1])))


# ---------------------------------------------------------------- comparisons
def cmp_model(op):
    def m(an, args, tys, d, site, sp, dest):
        a, b = an.snap(args[0]), an.snap(args[1])
        ty = strip_ref(tys[0])
        if op in ("Eq", "Ne"):
            if is_floatty(ty) or is_intty(ty) and ty != "bool":
                return an.binop(op, a, b, ty)
            few = re.fullmatch(r"\[(\w+); (\d)(?:_usize|usize)?\]", ty)
            if few and (is_floatty(few[1]) or is_intty(few[1])):
                g = B.AND(*[cmp("Eq", idx(a, (num(k),)), idx(b, (num(k),)), not is_floatty(few[1]))
                            for k in range(int(few[2]))])
            else:
                g = eq(a, b)
            return mk_bool(g if op == "Eq" else B.NOT(g))
        return an.binop(op, a, b, ty)
    return m


for _n, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    M[f"std::cmp::PartialOrd::{_n}"] = cmp_model(_op)
M["std::cmp::PartialEq::eq"] = cmp_model("Eq")
M["std::cmp::PartialEq::ne"] = cmp_model("Ne")


def ordering(name):
    return mk("adt", "std::cmp::Ordering", name, (), ())


@model("std::cmp::PartialOrd::partial_cmp")
def partial_cmp(an, args, tys, d, site, sp, dest):
    a, b = an.snap(args[0]), an.snap(args[1])
    isint = is_intty(tys[0])
    lt, e, gt = (cmp(o, a, b, isint) for o in ("Lt", "Eq", "Gt"))
    return mk_case([(some(ordering("Less")), lt), (some(ordering("Equal")), e),
                    (some(ordering("Greater")), gt), (NONE, B.NOT(B.OR(lt, e, gt)))])


@model("std::cmp::Ord::cmp", "core::f64::<impl f64>::total_cmp")
def ord_cmp(an, args, tys, d, site, sp, dest):
    a, b = an.snap(args[0]), an.snap(args[1])
    lt, e = cmp("Lt", a, b, True), cmp("Eq", a, b, True)
    return mk_case([(ordering("Less"), lt), (ordering("Equal"), e),
                    (ordering("Greater"), B.NOT(B.OR(lt, e)))])


@model("std::ops::RangeInclusive::<Idx>::contains", "std::ops::Range::<Idx>::contains",
       "std::ops::RangeBounds::contains")
def range_contains(an, args, tys, d, site, sp, dest):
    r, x = an.snap(args[0]), an.snap(args[1])
    isint = is_intty(tys[1])
    lo, hi = fld(r, "", "start"), fld(r, "", "end")
    incl = "RangeInclusive" in tys[0]
    return mk_bool(B.AND(cmp("Ge", x, lo, isint), cmp("Le" if incl else "Lt", x, hi, isint)))


# ---------------------------------------------------------------- Option / Result
def payload(v, good):
    return fld(v, good, "0")


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect",
       "std::result::Result::<T, E>::unwrap", "std::result::Result::<T, E>::expect",
       "std::option::Option::<T>::unwrap_unchecked")
def unwrap(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if "Option" in d["path"] else "Ok"
    g = is_variant(v, good)
    if g != 1:
        c0 = an.st.cond
        if B.AND(c0, B.NOT(g)):
            an.emit("panic", name=d["path"], cond=B.AND(c0, B.NOT(g)), sp=sp, extra="unwrap")
        if B.AND(c0, g) == 0:
            raise Dead()
        if v.k in ("adt", "case"):
            an.st.cond = B.AND(c0, g)
    return payload(v, good)


@model("std::option::Option::<T>::unwrap_or", "std::result::Result::<T, E>::unwrap_or")
def unwrap_or(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if "Option" in d["path"] else "Ok"
    g = is_variant(v, good)
    return mk_case([(payload(v, good), g), (an.snap(args[1]), B.NOT(g))])


@model("std::option::Option::<T>::unwrap_or_default", "std::result::Result::<T, E>::unwrap_or_default")
def unwrap_or_default(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if "Option" in d["path"] else "Ok"
    g = is_variant(v, good)
    return mk_case([(payload(v, good), g), (num(0), B.NOT(g))])


def under(an, g, f):
    """Runs f with the path condition strengthened by g; joins the resulting state back.
    Returns (value, reached)."""
    st0 = an.st
    c = B.AND(st0.cond, g)
    if c == 0:
        return None
    an.st = State(dict(st0.env), c)
    try:
        v = f()
    except Dead:
        an.st = State(st0.env, B.AND(st0.cond, B.NOT(g)))
        if an.st.cond == 0:
            raise
        return None
    s1 = an.st
    rest = B.AND(st0.cond, B.NOT(g))
    if rest:
        an.st = an.join([s1, State(st0.env, rest)])
    else:
        an.st = s1
    return v


@model("std::option::Option::<T>::unwrap_or_else", "std::result::Result::<T, E>::unwrap_or_else")
def unwrap_or_else(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good, bad = ("Some", None) if "Option" in d["path"] else ("Ok", "Err")
    g = is_variant(v, good)
    fargs = [payload(v, bad)] if bad else []
    alt = under(an, B.NOT(g), lambda: an.call_value(args[1], fargs, [], site, sp)) if g != 1 else None
    if alt is None:
        return payload(v, good)
    return mk_case([(payload(v, good), g), (alt, B.NOT(g))])


def map_variant(good, keep):
    def m(an, args, tys, d, site, sp, dest):
        v = an.snap(args[0])
        g = is_variant(v, good)
        r = under(an, g, lambda: an.call_value(args[1], [payload(v, good)], [], site, sp))
        if r is None:
            return keep(v)
        w = some(r) if good == "Some" else ok(r)
        return mk_case([(w, g), (keep(v), B.NOT(g))])
    return m


M["std::option::Option::<T>::map"] = map_variant("Some", lambda v: NONE)
M["std::result::Result::<T, E>::map"] = map_variant("Ok", lambda v: err(fld(v, "Err", "0")))


@model("std::option::Option::<T>::and_then")
def and_then(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    g = is_variant(v, "Some")
    r = under(an, g, lambda: an.call_value(args[1], [payload(v, "Some")], [], site, sp))
    return NONE if r is None else mk_case([(r, g), (NONE, B.NOT(g))])


@model("std::option::Option::<T>::map_or", "std::result::Result::<T, E>::map_or",
       "std::option::Option::<T>::map_or_else")
def map_or(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if "Option" in d["path"] else "Ok"
    g = is_variant(v, good)
    r = under(an, g, lambda: an.call_value(args[2], [payload(v, good)], [], site, sp))
    if d["path"].endswith("map_or"):
        alt = an.snap(args[1])
    else:
        alt = under(an, B.NOT(g), lambda: an.call_value(args[1], [], [], site + ("e",), sp))
    return mk_case([(x, c) for x, c in ((r, g), (alt, B.NOT(g))) if x is not None])


@model("std::option::Option::<T>::is_some_and", "std::result::Result::<T, E>::is_ok_and")
def is_some_and(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if "Option" in d["path"] else "Ok"
    g = is_variant(v, good)
    r = under(an, g, lambda: an.call_value(args[1], [payload(v, good)], [], site, sp))
    return mk_bool(B.AND(g, as_bool(r)) if r is not None else 0)


@model("std::option::Option::<T>::ok_or", "std::option::Option::<T>::ok_or_else")
def ok_or(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    g = is_variant(v, "Some")
    return mk_case([(ok(payload(v, "Some")), g), (err(mk("text")), B.NOT(g))])


@model("std::result::Result::<T, E>::ok")
def m_ok(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    g = is_variant(v, "Ok")
    return option(payload(v, "Ok"), g)


@model("std::result::Result::<T, E>::map_err")
def m_map_err(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    g = is_variant(v, "Ok")
    return mk_case([(ok(payload(v, "Ok")), g), (err(mk("text")), B.NOT(g))])


for _n, _v, _neg in (("is_some", "Some", 0), ("is_none", "Some", 1)):
    M[f"std::option::Option::<T>::{_n}"] = \
        lambda an, a, tys, d, site, sp, dest, _v=_v, _neg=_neg: mk_bool(
            B.NOT(is_variant(an.snap(a[0]), _v)) if _neg else is_variant(an.snap(a[0]), _v))
for _n, _v, _neg in (("is_ok", "Ok", 0), ("is_err", "Ok", 1)):
    M[f"std::result::Result::<T, E>::{_n}"] = \
        lambda an, a, tys, d, site, sp, dest, _v=_v, _neg=_neg: mk_bool(
            B.NOT(is_variant(an.snap(a[0]), _v)) if _neg else is_variant(an.snap(a[0]), _v))


@model("std::ops::Try::branch")
def try_branch(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    good = "Some" if strip_ref(tys[0]).startswith("std::option") else "Ok"
    g = is_variant(v, good)
    cont = mk("adt", "std::ops::ControlFlow", "Continue", ("0",), (payload(v, good),))
    brk = mk("adt", "std::ops::ControlFlow", "Break", ("0",),
             (NONE if good == "Some" else err(fld(v, "Err", "0")),))
    return mk_case([(cont, g), (brk, B.NOT(g))])


@model("std::ops::FromResidual::from_residual")
def from_residual(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


@model("std::ops::Try::from_output")
def from_output(an, args, tys, d, site, sp, dest):
    return ok(an.snap(args[0]))


# ---------------------------------------------------------------- conversion and defaults
@model("std::convert::From::from")
def m_from(an, args, tys, d, site, sp, dest):
    to, frm = (d["args"] + ["", ""])[:2]
    v = an.snap(args[0])
    if to == "ndarray::SliceInfoElem":
        if "RangeFull" in frm:
            return mk("se", "all")
        if "RangeInclusive" in frm:
            return mk("se", "rng", fld(v, "", "start"), add(fld(v, "", "end"), num(1)))
        if "RangeFrom" in frm:
            return mk("se", "rng", fld(v, "", "start"), None)
        if "RangeTo" in frm:
            return mk("se", "rng", num(0), fld(v, "", "end"))
        if "Range<" in frm:
            return mk("se", "rng", fld(v, "", "start"), fld(v, "", "end"))
        return mk("se", "ix", v)
    if frm == "bool" and (is_floatty(to) or is_intty(to)):
        return mk_case([(num(1), as_bool(v)), (num(0), B.NOT(as_bool(v)))])
    return v


@model("std::default::Default::default")
def m_default(an, args, tys, d, site, sp, dest):
    ty = (d["args"] or [""])[0]
    if is_arr(ty):
        return mk("full", num(0), mk("const", "default"))
    if is_floatty(ty) or is_intty(ty):
        return FALSE if ty == "bool" else num(0)
    if ty.startswith("std::option::Option<"):
        return NONE
    if "Vec<" in ty:
        return mk("vec", mk("array", ()))
    return mk("const", "default " + ty)


@model("pyo3::impl_::wrap::SomeWrap::wrap")
def py_some(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    return v if v is NONE or strip_ref(tys[0]).startswith("std::option::Option<") else some(v)


@model("ndarray::SliceNextDim::next_in_dim", "ndarray::SliceNextDim::next_out_dim")
def slice_dim(an, args, tys, d, site, sp, dest):
    return UNIT


@model("ndarray::SliceInfo::<T, Din, Dout>::new_unchecked")
def slice_info(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


def slice_elems(an, info):
    if info.k != "array":
        return None
    out = []
    for e in info.a[0]:
        if e.k != "se":
            return None
        out.append(tuple(e.a))
    return tuple(out)


def view(base, elems):
    if base.k == "case":
        return mk_case([(view(v, elems), c) for v, c in base.a[0]])
    if all(e[0] == "ix" for e in elems):
        return idx(base, tuple(e[1] for e in elems))
    if all(e[0] == "all" for e in elems):
        return base
    n = len([e for e in elems if e[0] == "ix"])
    if all(e[0] == "ix" for e in elems[:n]) and all(e[0] == "all" for e in elems[n:]) and \
            base.k not in ("full", "ew", "elemupd", "viewupd", "phi", "array"):
        return idx(base, tuple(e[1] for e in elems[:n]))
    if base.k == "full":
        return mk("full", base.a[0], mk("shape", mk("view", mk("const", "x"), elems)))
    return mk("view", base, elems)


@model("ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::slice")
def m_slice(an, args, tys, d, site, sp, dest):
    el = slice_elems(an, an.snap(args[1]))
    if el is None:
        an.note("slice")
        return mk("call", "slice", an.snap(args[0]), an.snap(args[1]))
    return view(an.snap(args[0]), el)


@model("ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::slice_mut")
def m_slice_mut(an, args, tys, d, site, sp, dest):
    el = slice_elems(an, an.snap(args[1]))
    r = args[0]
    if el is None or r.k != "mref":
        an.note("slice_mut")
        return mk("call", "slice_mut", an.snap(args[0]), an.snap(args[1]))
    return mk("mref", r.a[0], r.a[1] + (("view", el),))


def axis_view(base, rank, ax, i):
    """The sub-array of `base` at position i of axis ax."""
    k = tint(ax)
    if k is not None and rank:
        el = tuple(("ix", i) if j == k else ("all",) for j in range(rank))
        return view(base, el)
    return mk("axview", base, ax, i)


def axis_of(v):
    return fld(v, "", "0")


@model("ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::index_axis",
       "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::index_axis_move")
def index_axis(an, args, tys, d, site, sp, dest):
    return axis_view(an.snap(args[0]), arr_rank(tys[0]), axis_of(an.snap(args[1])),
                     an.snap(args[2]))


for _n, _ax in (("row", 0), ("column", 1)):
    M[f"ndarray::impl_2d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 2]>>>::{_n}"] = \
        lambda an, a, tys, d, site, sp, dest, _ax=_ax: axis_view(
            an.snap(a[0]), 2, num(_ax), an.snap(a[1]))


for _n, _ax in (("row", 0), ("column", 1)):
    def _mut(an, a, tys, d, site, sp, dest, _ax=_ax):
        el = tuple(("ix", an.snap(a[1])) if j == _ax else ("all",) for j in range(2))
        return mk("mref", a[0].a[0], a[0].a[1] + (("view", el),)) if a[0].k == "mref" \
            else an.opaque_call(d, a, tys, sp, site)
    M[f"ndarray::impl_2d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 2]>>>::{_n}_mut"] = _mut


@model("ndarray::Axis::index")
def axis_index(an, args, tys, d, site, sp, dest):
    return axis_of(an.snap(args[0]))


# ---------------------------------------------------------------- indexing
def index_terms(an, v, ty):
    """Components of an index expression."""
    ty = strip_ref(ty)
    if ty.startswith("(") or ty.startswith("["):
        n = fixed_len(ty) if ty.startswith("[") else len(split_args("X<" + ty[1:-1] + ">"))
        if v.k in ("tuple", "array"):
            return tuple(v.a[0])
        if v.k == "case" and all(x.k in ("tuple", "array") for x, _ in v.a[0]):
            return tuple(mk_case([(x.a[0][i], c) for x, c in v.a[0]]) for i in range(n))
        if n:
            if ty.startswith("["):
                return tuple(idx(v, (num(i),)) for i in range(n))
            return tuple(fld(v, "", str(i)) for i in range(n))
    return (v,)


def range_elems(v, ty):
    ty = strip_ref(ty)
    if "RangeFull" in ty:
        return ("all",)
    if "RangeInclusive" in ty:
        return ("rng", fld(v, "", "start"), add(fld(v, "", "end"), num(1)))
    if "RangeFrom" in ty:
        return ("rng", fld(v, "", "start"), None)
    if "RangeTo" in ty:
        return ("rng", num(0), fld(v, "", "end"))
    if "Range<" in ty:
        return ("rng", fld(v, "", "start"), fld(v, "", "end"))
    return None


@model("std::ops::Index::index")
def m_index(an, args, tys, d, site, sp, dest):
    base, ix = an.snap(args[0]), an.snap(args[1])
    ity = (d["args"] + ["", ""])[1] or tys[1]
    r = range_elems(ix, ity)
    if r:
        return view(base, (r,))
    return idx(base, index_terms(an, ix, ity))


@model("std::ops::IndexMut::index_mut")
def m_index_mut(an, args, tys, d, site, sp, dest):
    ix = an.snap(args[1])
    ity = (d["args"] + ["", ""])[1] or tys[1]
    r = args[0]
    el = range_elems(ix, ity)

    def one(m):
        if m.k != "mref":
            return mk("call", "index_mut", an.snap(m), ix)
        if el:
            return mk("mref", m.a[0], m.a[1] + (("view", (el,)),))
        return mk("mref", m.a[0], an.addix(m.a[1], index_terms(an, ix, ity)))
    return lift(one, r)


@model("core::slice::<impl [T]>::get", "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::get")
def m_get(an, args, tys, d, site, sp, dest):
    base, ix = an.snap(args[0]), an.snap(args[1])
    ity = tys[1]
    comps = index_terms(an, ix, ity)
    g = 1
    for k, c in enumerate(comps):
        g = B.AND(g, cmp("Lt", c, an.length(base) if k == 0 else an.dim(base, k), True))
    return option(idx(base, comps), g)


@model("core::slice::<impl [T]>::first")
def m_first(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    return option(idx(v, (num(0),)), cmp("Gt", an.length(v), num(0), True))


@model("core::slice::<impl [T]>::last")
def m_last(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    n = an.length(v)
    return option(idx(v, (sub(n, num(1)),)), cmp("Gt", n, num(0), True))


@model("core::slice::<impl [T]>::contains")
def m_contains(an, args, tys, d, site, sp, dest):
    v, x = an.snap(args[0]), an.snap(args[1])
    isint = is_intty(tys[1])
    isf = is_floatty(tys[1])
    arr = v.a[0] if v.k == "vec" else v
    if arr.k == "array":
        g = 0
        for e in arr.a[0]:
            g = B.OR(g, cmp("Eq", x, e, isint) if isint or isf else eq(x, e))
        return mk_bool(g)
    return mk_bool(listed(an.length(v), x, v, isint))


def listed(n, x, v, isint):
    """Guard: one of the n elements of v is x."""
    i = mk("gv", ("listed", x.id, v.id))
    return terms.some_position(B.AND(cmp("Lt", i, n, True),
                                     cmp("Eq", idx(v, (i,)), x, isint)), i)[0]


@model("core::slice::<impl [T]>::partition_point")
def m_partition_point(an, args, tys, d, site, sp, dest):
    """The first element the predicate does not hold for (of a slice it splits in two)."""
    v, n = an.snap(args[0]), an.length(an.snap(args[0]))
    i = mk("gv", ("split", v.id))
    g = as_bool(an.call_value(args[1], [idx(v, (i,))], [], site + ("f",), sp))
    some_, first, _ = terms.some_position(B.AND(cmp("Lt", i, n, True), B.NOT(g)), i)
    return mk_case([(first, some_), (n, B.NOT(some_))])


# ---------------------------------------------------------------- arrays
ND = "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::"
NC = "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, D>>::"
NN = "ndarray::numeric::impl_numeric::<impl ndarray::ArrayBase<S, D>>::"


def shape_term(v, ty):
    """The extents of an array being built, as an array term."""
    ty = strip_ref(ty)
    if v.k in ("array", "shape"):
        return v
    if v.k == "tuple":
        return mk("array", v.a[0])
    if is_intty(ty) or "Dim<[usize; 1]>" in ty:
        return mk("array", (v,))
    r = arr_rank("x" + ty) or fixed_len(ty)
    if r is None and ty.startswith("("):
        r = len(split_args("X<" + ty[1:-1] + ">"))
        return mk("array", tuple(fld(v, "", str(k)) for k in range(r)))
    if r:
        return mk("array", tuple(idx(v, (num(k),)) for k in range(r)))
    return v


@model(NC + "zeros")
def m_zeros(an, args, tys, d, site, sp, dest):
    return mk("full", num(0), shape_term(an.snap(args[0]), tys[0]))


@model(NC + "default")
def m_adefault(an, args, tys, d, site, sp, dest):
    return mk("full", num(0), shape_term(an.snap(args[0]), tys[0]))


@model(NC + "ones")
def m_ones(an, args, tys, d, site, sp, dest):
    return mk("full", num(1), shape_term(an.snap(args[0]), tys[0]))


@model(NC + "from_elem")
def m_from_elem(an, args, tys, d, site, sp, dest):
    return mk("full", an.snap(args[1]), shape_term(an.snap(args[0]), tys[0]))


@model("std::vec::from_elem")
def v_from_elem(an, args, tys, d, site, sp, dest):
    return mk("full", an.snap(args[0]), shape_term(an.snap(args[1]), tys[1]))


@model(NC + "from_shape_fn")
def m_from_shape_fn(an, args, tys, d, site, sp, dest):
    shape = shape_term(an.snap(args[0]), tys[0])
    rank = arr_rank(" ".join(d["args"])) or (len(shape.a[0]) if shape.k in ("tuple", "array") else 1)
    lid = an.lid((an.fr.key, site, an.peel), an.fr.fn["id"])
    comps = tuple(mk("gv", lid, k) for k in range(rank))
    el = mk("tuple", comps) if rank > 1 else comps[0]
    dims = an.dims(mk("full", num(0), shape), rank)
    has = 1
    for c, n in zip(comps, dims):
        has = B.AND(has, cmp("Lt", c, n, True))
    an.loopstack.append(lid)
    try:
        body = under(an, has, lambda: an.snap(an.call_value(args[1], [el], [], site, sp)))
    finally:
        an.loopstack.pop()
    if body is None:
        return mk("full", num(0), shape)
    return ew(subst(body, {c: anyk(k) for k, c in enumerate(comps)}), dims)


@model(NC + "from_shape_vec")
def m_from_shape_vec(an, args, tys, d, site, sp, dest):
    data, shape = an.snap(args[1]), shape_term(an.snap(args[0]), tys[0])
    arr = data.a[0] if data.k == "vec" else data
    dims = [tint(x) for x in shape.a[0]] if shape.k in ("tuple", "array") else []
    if arr.k == "array" and dims and all(x is not None for x in dims):
        n = 1
        for x in dims:
            n *= x
        if n == len(arr.a[0]):
            vals = list(arr.a[0])
            for x in reversed(dims[1:]):
                vals = [mk("array", tuple(vals[i:i + x])) for i in range(0, len(vals), x)]
            return ok(mk("array", tuple(vals)))
    r = arr_rank(" ".join(d["args"])) or (len(shape.a[0]) if shape.k in ("array", "tuple") else None)
    if r:
        dd = an.dims(mk("full", num(0), shape), r)
        pos = mk("flatpos", dd, tuple(anyk(k) for k in range(r))) if r > 1 else anyk(0)
        return ok(ew(idx(arr, (pos,)), dd))
    return ok(mk("reshape", data, shape))


@model(NC + "from_vec", "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::from_vec",
       "ndarray::arr1", "ndarray::free_functions::arr1", "ndarray::free_functions::arr2",
       "ndarray::free_functions::aview1", "ndarray::free_functions::arr0")
def m_from_vec(an, args, tys, d, site, sp, dest):
    return an.snap(args[0])


@model("ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::linspace")
def m_linspace(an, args, tys, d, site, sp, dest):
    lo, hi, n = [an.snap(a) for a in args]
    return ew(add(lo, mul(anyk(0), div(sub(hi, lo), sub(n, num(1))))), (n,))


@model(ND + "len", "std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len",
       "std::iter::ExactSizeIterator::len")
def m_len(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    if v.k == "iter":
        return seq_len(an, v.a[0])
    r = arr_rank(tys[0]) if is_arr(tys[0]) else 1
    if r == 1:
        return an.length(v)
    return an.size(v, r) if r else mk("len", v)


@model(ND + "is_empty", "std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_is_empty(an, args, tys, d, site, sp, dest):
    return mk_bool(cmp("Eq", m_len(an, args, tys, d, site, sp, dest), num(0), True))


@model(ND + "shape", ND + "raw_dim", ND + "dim")
def m_shape(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    r = arr_rank(tys[0])
    if r:
        dims = tuple(an.dim(v, k) for k in range(r))
        if d["path"].endswith("dim") and not d["path"].endswith("raw_dim") and r == 1:
            return dims[0]
        return mk("tuple" if d["path"].endswith("::dim") else "array", dims)
    return mk("shape", v)


@model(ND + "nrows", "ndarray::impl_2d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 2]>>>::nrows")
def m_nrows(an, args, tys, d, site, sp, dest):
    return an.dim(an.snap(args[0]), 0)


@model(ND + "ncols", "ndarray::impl_2d::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 2]>>>::ncols")
def m_ncols(an, args, tys, d, site, sp, dest):
    return an.dim(an.snap(args[0]), 1)


@model(ND + "len_of")
def m_len_of(an, args, tys, d, site, sp, dest):
    k = tint(axis_of(an.snap(args[1])))
    v = an.snap(args[0])
    return an.dim(v, k) if k is not None else mk("call", "len_of", v, axis_of(an.snap(args[1])))


@model("ndarray::RemoveAxis::remove_axis")
def remove_axis(an, args, tys, d, site, sp, dest):
    v, ax = an.snap(args[0]), axis_of(an.snap(args[1]))
    k = tint(ax)
    if v.k in ("array", "tuple") and k is not None and k < len(v.a[0]):
        return mk("array", tuple(x for i, x in enumerate(v.a[0]) if i != k))
    return mk("rmaxis", v, ax)


@model(ND + "mapv", ND + "map", ND + "mapv_into")
def m_mapv(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    lid = an.lid((an.fr.key, site, an.peel), an.fr.fn["id"])
    an.loopstack.append(lid)
    try:
        body = an.call_value(args[1], [idx(v, (ANY,))], [], site, sp)
    finally:
        an.loopstack.pop()
    return ew(an.snap(body), an.dims(v, arr_rank(tys[0])))


@model(ND + "mapv_inplace", ND + "map_inplace", ND + "par_mapv_inplace")
def m_mapv_inplace(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    lid = an.lid((an.fr.key, site, an.peel), an.fr.fn["id"])
    an.loopstack.append(lid)
    try:
        if "map_inplace" in d["name"] and d["name"] != "mapv_inplace":
            an.st.env[("tmp", lid)] = idx(v, (ANY,))
            an.call_value(args[1], [mk("mref", ("tmp", lid), ())], [], site, sp)
            body = an.st.env.pop(("tmp", lid))
        else:
            body = an.call_value(args[1], [idx(v, (ANY,))], [], site, sp)
    finally:
        an.loopstack.pop()
    write_ref(an, args[0], ew(an.snap(body), an.dims(v, arr_rank(tys[0]))), sp)
    return UNIT


def zip_apply(an, parts, tys, f, site, sp, collect=False):
    """f on the corresponding elements of the arrays (producers) of a lock-step traversal; the
    elements of arrays given by mutable reference are written back."""
    lid = an.lid((an.fr.key, site, an.peel), an.fr.fn["id"])
    vals = [an.snap(p) for p in parts]
    an.loopstack.append(lid)
    try:
        call, tmp = [], []
        for i, (p, v, ty) in enumerate(zip(parts, vals, tys)):
            if p.k == "mref" and vfg.is_mut_ref(ty):
                key = ("tmp", lid, i)
                an.st.env[key] = idx(v, (ANY,))
                tmp.append((key, p, v, ty))
                call.append(mk("mref", key, ()))
            else:
                call.append(idx(v, (ANY,)))
        body = an.call_value(f, call, [], site, sp)
        out = [(p, an.st.env.pop(key), v, ty) for key, p, v, ty in tmp]
    finally:
        an.loopstack.pop()
    for p, b, v, ty in out:
        write_ref(an, p, ew(an.snap(b), an.dims(v, arr_rank(ty))), sp)
    if collect:
        return ew(an.snap(body), an.dims(vals[0], arr_rank(tys[0])))
    return UNIT


@model("ndarray::Zip::<(P,), D>::from")
def zip_from(an, args, tys, d, site, sp, dest):
    return mk("nzip", (args[0],), (tys[0],))


def zip_and(an, args, tys, d, site, sp, dest):
    z = args[0]
    if z.k != "nzip":
        return opaque(an, args, tys, d, sp)
    return mk("nzip", z.a[0] + (args[1],), z.a[1] + (tys[1],))


def zip_for_each(an, args, tys, d, site, sp, dest):
    z = args[0]
    if z.k != "nzip":
        return opaque(an, args, tys, d, sp)
    return zip_apply(an, z.a[0], z.a[1], args[1], site, sp, d["name"].endswith("map_collect"))


for _k in range(1, 7):
    _g = ", ".join(["P"] if _k == 1 else [f"P{_i}" for _i in range(1, _k + 1)]) + ("," if _k == 1 else "")
    for _gg in {_g, "P1," if _k == 1 else _g}:
        M[f"ndarray::Zip::<({_gg}), D>::and"] = zip_and
        for _n in ("for_each", "map_collect", "par_for_each", "par_map_collect", "apply"):
            M[f"ndarray::Zip::<({_gg}), D>::{_n}"] = zip_for_each


@model(ND + "zip_mut_with")
def zip_mut_with(an, args, tys, d, site, sp, dest):
    return zip_apply(an, args[:2], tys[:2], args[2], site, sp)


@model(ND + "fill", "core::slice::<impl [T]>::fill")
def m_fill(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    write_ref(an, args[0], mk("full", an.snap(args[1]), mk("shape", v)), sp)
    return UNIT


@model(ND + "assign")
def m_assign(an, args, tys, d, site, sp, dest):
    write_ref(an, args[0], an.snap(args[1]), sp)
    return UNIT


@model("std::mem::swap")
def m_swap(an, args, tys, d, site, sp, dest):
    a, b = an.snap(args[0]), an.snap(args[1])
    write_ref(an, args[0], b, sp)
    write_ref(an, args[1], a, sp)
    return UNIT


@model("std::mem::replace")
def m_replace(an, args, tys, d, site, sp, dest):
    a = an.snap(args[0])
    write_ref(an, args[0], an.snap(args[1]), sp)
    return a


@model("std::mem::take")
def m_take(an, args, tys, d, site, sp, dest):
    a = an.snap(args[0])
    write_ref(an, args[0], mk("vec", mk("array", ())) if "Vec<" in tys[0] else mk("const", "default"), sp)
    return a


def total(v):
    return mk("total", v)


@model(NN + "sum")
def m_asum(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    return lift(lambda x: array_total(an, x, arr_rank(tys[0])), v)


@model("ndarray::linalg::impl_linalg::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::dot")
def m_dot(an, args, tys, d, site, sp, dest):
    """The sum of the products of the values of two vectors."""
    if arr_rank(tys[0]) != 1 or arr_rank(tys[1]) != 1:
        return an.opaque_call(d, args, tys, sp, site)
    v = elementwise(an, lambda a, b: an.arith("Mul", a, b, True), args, tys)
    return lift(lambda x: array_total(an, x, 1), v)


def array_total(an, v, rank):
    if v.k == "vec":
        v = v.a[0]
    if v.k == "array" and rank == 1:
        r = num(0)
        for x in v.a[0]:
            r = add(r, x)
        return r
    if v.k == "filtered":
        lv, e, keep, n, cnt = v.a
        g = mk("gv", ("u", 0))
        m = {mk("bv", lv): g}
        return terms.summation(subst(e, m), B.AND(as_bool(subst(keep, m)), cmp("Lt", g, n, True)), g)
    if v.k == "flat":
        return total_of(v.a[0], v.a[1])
    dims = an.dims(v, rank)
    return total_of(v, dims) if dims else total(v)


@model(NN + "mean")
def m_amean(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    n = m_len(an, [v], tys, d, site, sp, dest)
    t = lift(lambda x: array_total(an, x, arr_rank(tys[0])), v)
    return option(div(t, n), B.NOT(cmp("Eq", n, num(0), True)))


def axis_total(an, v, r, ax):
    """(sums of v along axis ax, length of that axis) or None."""
    dims = an.dims(v, r) if r else None
    if dims is None:
        return None
    k = tint(ax)
    n = dims[k] if k is not None else mk("axlen", v, ax)
    g = mk("gv", ("axis", v.id))
    t = terms.summation(idx(axis_view(v, r, ax, g), (ANY,)), cmp("Lt", g, n, True), g)
    if k is not None:
        rest = tuple(x for i, x in enumerate(dims) if i != k)
    else:
        sh = mk("rmaxis", mk("array", dims), ax)
        rest = tuple(idx(sh, (num(i),)) for i in range(r - 1))
    return (terms.ew(t, rest) if rest else t), n


@model(NN + "sum_axis")
def m_sum_axis(an, args, tys, d, site, sp, dest):
    v, ax = an.snap(args[0]), axis_of(an.snap(args[1]))
    t = axis_total(an, v, arr_rank(tys[0]), ax)
    return mk("call", "sum_axis", v, ax) if t is None else t[0]


@model(NN + "mean_axis")
def m_mean_axis(an, args, tys, d, site, sp, dest):
    v, ax = an.snap(args[0]), axis_of(an.snap(args[1]))
    t = axis_total(an, v, arr_rank(tys[0]), ax)
    if t is None:
        return mk("call", "mean_axis", v, ax)
    t, n = t
    m = terms.ew(div(t.a[0], n), t.a[1]) if t.k == "ew" else div(t, n)
    return option(m, B.NOT(cmp("Eq", n, num(0), True)))


for _n in ("min_skipnan", "max_skipnan"):
    M["ndarray_stats::QuantileExt::" + _n] = \
        lambda an, a, tys, d, site, sp, dest, _n=_n: mk(_n, an.snap(a[0]))
for _n in ("argmin", "argmax", "min", "max", "argmin_skipnan", "argmax_skipnan"):
    M["ndarray_stats::QuantileExt::" + _n] = \
        lambda an, a, tys, d, site, sp, dest, _n=_n: mk("call", _n, an.snap(a[0]))


@model(ND + "as_slice", ND + "as_slice_memory_order")
def m_as_slice(an, args, tys, d, site, sp, dest):
    """Arrays are kept in row order."""
    return some(an.snap(args[0]))


# ---------------------------------------------------------------- vectors
@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def vec_new(an, args, tys, d, site, sp, dest):
    return mk("vec", mk("array", ()))


@model("std::vec::Vec::<T, A>::push")
def vec_push(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    x = an.snap(args[1])
    an.emit("push", obj=v, place=args[0].a if args[0].k == "mref" else None, val=x, sp=sp)
    if v.k == "vec" and v.a[0].k == "array":
        new = mk("vec", mk("array", v.a[0].a[0] + (x,)))
    else:
        new = mk("pushed", v, x)
    if v.k == "phi" and v in an.philike:
        new = mk("pushed", v, x)
    n = len(an.log)
    write_ref(an, args[0], new, sp)
    del an.log[n:]
    return UNIT


@model("std::vec::Vec::<T, A>::extend_from_slice")
def vec_extend_slice(an, args, tys, d, site, sp, dest):
    """A few values put at the end, one after the other."""
    x = an.snap(args[1])
    n = an.length(x)
    if not (is_num(n) and 0 <= num_val(n) <= 8):
        return an.opaque_call(d, args, tys, sp, site)
    for k in range(int(num_val(n))):
        vec_push(an, [args[0], idx(x, (num(k),))], tys, d, site, sp, dest)
    return UNIT


@model("std::vec::Vec::<T, A>::resize")
def vec_resize(an, args, tys, d, site, sp, dest):
    v, n, x = (an.snap(a) for a in args)
    if v.k == "phi" and v in an.philike and an.philike[v].k == "vec" and x is num(0) and \
            implies(an.st.cond, cmp("Ge", n, mk("dim", v, 0), True)):
        # a table of counts that grows on demand: as if its zeros had always been there
        # (reads past the end panic)
        an.zeroext.add(v)
        return UNIT
    grown = mk("full", x, mk("array", (n,))) if v.k == "vec" and v.a[0].k == "array" and not v.a[0].a[0] \
        else mk("resized", v, n, x)
    write_ref(an, args[0], grown, sp)
    return UNIT


@model("std::vec::Vec::<T, A>::clear")
def vec_clear(an, args, tys, d, site, sp, dest):
    write_ref(an, args[0], mk("vec", mk("array", ())), sp)
    return UNIT


# ---------------------------------------------------------------- any
@model("<(dyn std::any::Any + 'static)>::is")
def any_is(an, args, tys, d, site, sp, dest):
    return mk_bool(B.var("IS", mk("type", obj_of(an.snap(args[0]))), d["args"][0]))


def obj_of(v):
    if v.k == "call" and v.a[0] == "as_any":
        return v.a[1]
    return v


@model("<(dyn std::any::Any + 'static)>::downcast_ref")
def any_downcast(an, args, tys, d, site, sp, dest):
    o = obj_of(an.snap(args[0]))
    return option(mk("downcast", o, d["args"][0]), B.var("IS", mk("type", o), d["args"][0]))


# ---------------------------------------------------------------- iteration
def seq_len(an, s):
    k = s.k
    if k == "s_range":
        return sub(s.a[1], s.a[0])
    if k == "s_arr":
        return s.a[1] if s.a[1] is not None else an.length(s.a[0])
    if k == "s_flat":
        n = num(1)
        for x in s.a[3]:
            n = mul(n, x)
        return n
    if k == "s_axis":
        a = tint(s.a[2])
        return an.dim(s.a[0], a) if a is not None else mk("axlen", s.a[0], s.a[2])
    if k in ("s_map", "s_enum", "s_rev", "s_filter", "s_mut", "s_fmap"):
        return seq_len(an, s.a[0])
    if k == "s_zip":
        return minmax_term("min", seq_len(an, s.a[0]), seq_len(an, s.a[1]))
    if k == "s_skip":
        return sub(seq_len(an, s.a[0]), s.a[1])
    if k == "s_take":
        return minmax_term("min", seq_len(an, s.a[0]), s.a[1])
    if k == "s_chain":
        return add(seq_len(an, s.a[0]), seq_len(an, s.a[1]))
    return mk("len", s)


def seq_has(an, s, pos):
    """Guard: position pos exists."""
    if s.k == "s_zip":
        return B.AND(seq_has(an, s.a[0], pos), seq_has(an, s.a[1], pos))
    if s.k in ("s_map", "s_enum", "s_filter", "s_mut", "s_fmap"):
        return seq_has(an, s.a[0], pos)
    if s.k == "s_take":
        return B.AND(seq_has(an, s.a[0], pos), cmp("Lt", pos, s.a[1], True))
    if s.k == "s_skip":
        return seq_has(an, s.a[0], add(pos, s.a[1]))
    if s.k == "s_step":
        return seq_has(an, s.a[0], mul(pos, s.a[1]))
    return cmp("Lt", pos, seq_len(an, s), True)


def flat_index(dims, pos):
    return tuple(terms.uix(dims, pos, k) for k in range(len(dims)))


def s_flat(an, v, rank, flag):
    return mk("s_flat", v, rank, flag, an.dims(v, rank))


def seq_at(an, s, pos, site, sp):
    """(element, keep guard) at position pos; evaluates closures."""
    k = s.k
    if k == "s_range":
        return add(s.a[0], pos), 1
    if k == "s_arr":
        return idx(s.a[0], (pos,)), 1
    if k == "s_flat":
        ix = flat_index(s.a[3], pos)
        v = idx(s.a[0], ix)
        return (mk("tuple", (mk("tuple", ix), v)) if s.a[2] else v), 1
    if k == "s_iiter1":
        return mk("tuple", (pos, idx(s.a[0], (pos,)))), 1
    if k == "s_axis":
        return axis_view(s.a[0], s.a[1], s.a[2], pos), 1
    if k == "s_enum":
        v, g = seq_at(an, s.a[0], pos, site + ("e",), sp)
        return mk("tuple", (pos, v)), g
    if k == "s_zip":
        v, g = seq_at(an, s.a[0], pos, site + ("l",), sp)
        w, h = seq_at(an, s.a[1], pos, site + ("r",), sp)
        return mk("tuple", (v, w)), B.AND(g, h)
    if k == "s_map":
        v, g = seq_at(an, s.a[0], pos, site + ("m",), sp)
        return guarded(an, g, lambda: an.call_value(s.a[1], [v], [], site + ("f",), sp)), g
    if k == "s_filter":
        v, g = seq_at(an, s.a[0], pos, site + ("m",), sp)
        keep = guarded(an, g, lambda: an.call_value(s.a[1], [v], [], site + ("f",), sp))
        return v, B.AND(g, as_bool(keep))
    if k == "s_fmap":
        v, g = seq_at(an, s.a[0], pos, site + ("m",), sp)
        r = guarded(an, g, lambda: an.call_value(s.a[1], [v], [], site + ("f",), sp))
        return fld(r, "Some", "0"), B.AND(g, is_variant(r, "Some"))
    if k == "s_mut":
        r = s.a[1]
        if r.k == "mref":
            inner = s.a[0]
            if inner.k == "s_arr":
                return mk("mref", r.a[0], an.addix(r.a[1], (pos,))), 1
            if inner.k == "s_flat":
                ix = flat_index(inner.a[3], pos)
                m = mk("mref", r.a[0], an.addix(r.a[1], ix))
                return (mk("tuple", (mk("tuple", ix), m)) if inner.a[2] else m), 1
            if inner.k == "s_axis":
                ax = tint(inner.a[2])
                if ax is not None:
                    el = tuple(("ix", pos) if j == ax else ("all",) for j in range(inner.a[1]))
                    return mk("mref", r.a[0], r.a[1] + (("view", el),)), 1
        an.note("iter_mut")
        return mk("call", "iter_mut", an.snap(r), pos), 1
    if k == "s_rev":
        n = seq_len(an, s.a[0])
        return seq_at(an, s.a[0], sub(sub(n, num(1)), pos), site, sp)
    if k == "s_skip":
        return seq_at(an, s.a[0], add(pos, s.a[1]), site, sp)
    if k == "s_step":
        return seq_at(an, s.a[0], mul(pos, s.a[1]), site, sp)
    if k == "s_take":
        return seq_at(an, s.a[0], pos, site, sp)
    if k == "s_chain":
        n = seq_len(an, s.a[0])
        v, g = seq_at(an, s.a[0], pos, site + ("l",), sp)
        w, h = seq_at(an, s.a[1], sub(pos, n), site + ("r",), sp)
        c = cmp("Lt", pos, n, True)
        return mk_case([(v, c), (w, B.NOT(c))]), B.ite(c, g, h)
    return idx(s, (pos,)), 1


def guarded(an, g, f):
    if g == 1:
        return f()
    r = under(an, g, f)
    return UNDEF if r is None else r


def as_seq(an, v, ty):
    """Sequence term for a value that is iterated by value or shared reference."""
    v = an.snap(v)
    if v.k == "iter":
        return v
    if v.k == "adt" and v.a[0] == "std::ops::Range":
        return mk("iter", mk("s_range", v.a[3][0], v.a[3][1]), num(0))
    if v.k == "rinc":
        return mk("iter", mk("s_range", v.a[0], add(v.a[1], num(1))), num(0))
    if v.k == "adt" and v.a[0] == "std::ops::RangeFrom":
        return mk("iter", mk("s_range", v.a[3][0], mk("const", "inf")), num(0))
    rank = arr_rank(ty) if is_arr(ty) else 1
    n = fixed_len(ty)
    if rank and rank > 1:
        return mk("iter", s_flat(an, v, rank, 0), num(0))
    if v.k == "case":
        pass
    return mk("iter", mk("s_arr", v, num(n) if n is not None else None), num(0))


@model("std::ops::RangeInclusive::<Idx>::new")
def range_incl(an, args, tys, d, site, sp, dest):
    a, b = an.snap(args[0]), an.snap(args[1])
    return mk("adt", "std::ops::RangeInclusive", "RangeInclusive", ("start", "end"), (a, b))


@model("std::iter::IntoIterator::into_iter")
def into_iter(an, args, tys, d, site, sp, dest):
    v = args[0]
    if v.k == "mref":
        ty = tys[0]
        if vfg.is_mut_ref(ty):
            cur = an.snap(v)
            if cur.k == "iter":
                return v
            return iter_mut(an, args, tys, d, site, sp, dest)
    v = an.snap(v)
    if v.k == "adt" and v.a[0] == "std::ops::RangeInclusive":
        return mk("iter", mk("s_range", v.a[3][0], add(v.a[3][1], num(1))), num(0))
    if v.k == "case" and all(x.k == "iter" or (x.k == "adt" and "Range" in x.a[0])
                             for x, _ in v.a[0]):
        parts = [(as_seq(an, x, tys[0]), c) for x, c in v.a[0]]
        if all(x.k == "adt" and x.a[0] == "std::ops::Range" for x, _ in v.a[0]):
            lo = mk_case([(x.a[3][0], c) for x, c in v.a[0]])
            hi = mk_case([(x.a[3][1], c) for x, c in v.a[0]])
            return mk("iter", mk("s_range", lo, hi), num(0))
        return mk_case(parts)
    return as_seq(an, v, tys[0])


@model("core::slice::<impl [T]>::iter", ND + "iter", ND + "into_iter",
       "std::vec::Vec::<T, A>::iter", "std::iter::Iterator::into_iter")
def m_iter(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    n = None
    if v.k == "array":
        n = len(v.a[0])
    ty = tys[0]
    if n is None:
        n = fixed_len(ty)
    if n is None and v.k == "fixed":
        n = v.a[1]
    return as_seq(an, v, ty)


@model("core::slice::<impl [T]>::iter_mut", ND + "iter_mut")
def iter_mut(an, args, tys, d, site, sp, dest):
    r = args[0]
    v = an.snap(r)
    rank = arr_rank(tys[0]) if is_arr(tys[0]) else 1
    inner = s_flat(an, v, rank, 0) if rank and rank > 1 else \
        mk("s_arr", mk("shape", v) if False else v, num(fixed_len(tys[0])) if fixed_len(tys[0]) is not None else None)
    return mk("iter", mk("s_mut", inner, r), num(0))


@model(ND + "indexed_iter")
def indexed_iter(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    rank = arr_rank(tys[0])
    if rank == 1:
        return mk("iter", mk("s_enum", mk("s_arr", v, None)), num(0))
    return mk("iter", s_flat(an, v, rank, 1), num(0))


@model(ND + "indexed_iter_mut")
def indexed_iter_mut(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    rank = arr_rank(tys[0])
    if rank == 1:
        return mk("iter", mk("s_enum", mk("s_mut", mk("s_arr", v, None), args[0])), num(0))
    return mk("iter", mk("s_mut", s_flat(an, v, rank, 1), args[0]), num(0))


@model(ND + "axis_iter", ND + "outer_iter", "ndarray::impl_2d::rows", ND + "rows")
def axis_iter(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    rank = arr_rank(tys[0])
    ax = axis_of(an.snap(args[1])) if len(args) > 1 else num(0)
    if rank == 1 and tint(ax) == 0:
        return mk("iter", mk("s_arr", v, None), num(0))
    return mk("iter", mk("s_axis", v, rank, ax), num(0))


@model(ND + "columns")
def m_columns(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    if arr_rank(tys[0]) != 2:
        an.note("columns of an array that is not a matrix")
        return mk("call", "columns", v)
    return mk("iter", mk("s_axis", v, 2, num(1)), num(0))


@model("ndarray::impl_owned_array::<impl ndarray::ArrayBase<ndarray::OwnedRepr<A>, D>>::"
       "into_raw_vec")
def m_raw_vec(an, args, tys, d, site, sp, dest):
    """Arrays are kept in row order; a view's storage is not its elements."""
    v, rank = an.snap(args[0]), arr_rank(tys[0])
    if rank == 1 and v.k != "view":
        return v
    if not rank or v.k == "view":
        return mk("call", d["path"], v)
    dims = an.dims(v, rank)
    n = num(1)
    for k in dims:
        n = mul(n, k)
    return terms.ew(idx(v, flat_index(dims, mk("anyk", terms.ANY, 0))), (n,))


@model(ND + "axis_iter_mut", ND + "outer_iter_mut")
def axis_iter_mut(an, args, tys, d, site, sp, dest):
    v = an.snap(args[0])
    ax = axis_of(an.snap(args[1])) if len(args) > 1 else num(0)
    return mk("iter", mk("s_mut", mk("s_axis", v, arr_rank(tys[0]), ax), args[0]), num(0))


def adapter(k, nargs=0):
    def m(an, args, tys, d, site, sp, dest):
        v = an.snap(args[0])
        if v.k != "iter":
            v = as_seq(an, v, tys[0])
        if v.k != "iter":
            an.note("adapter " + k)
            return mk("call", k, v)
        s, pos = v.a
        if not (is_num(pos) and num_val(pos) == 0):
            s = mk("s_skip", s, pos)
        extra = []
        for i in range(nargs):
            x = args[1 + i]
            extra.append(x if x.k in ("closure", "fn") else an.snap(x))
        return mk("iter", mk(k, s, *extra), num(0))
    return m


for _n, _k, _a in (("map", "s_map", 1), ("enumerate", "s_enum", 0), ("filter", "s_filter", 1),
                   ("rev", "s_rev", 0), ("skip", "s_skip", 1), ("take", "s_take", 1),
                   ("step_by", "s_step", 1), ("filter_map", "s_fmap", 1)):
    M["std::iter::Iterator::" + _n] = adapter(_k, _a)


@model("std::iter::Iterator::zip", "std::iter::Iterator::chain", "std::iter::zip")
def m_zip(an, args, tys, d, site, sp, dest):
    out = []
    for i in (0, 1):
        v = args[i]
        if v.k == "mref" and vfg.is_mut_ref(tys[i]) and an.snap(v).k != "iter":
            v = iter_mut(an, [v], [tys[i]], d, site, sp, dest)
        else:
            v = an.snap(v)
            if v.k != "iter":
                v = into_iter(an, [v], [tys[i]], d, site, sp, dest)
        if v.k != "iter":
            an.note("zip")
            return mk("call", "zip", *[an.snap(a) for a in args])
        out.append(v.a[0] if is_num(v.a[1]) and num_val(v.a[1]) == 0 else mk("s_skip", *v.a))
    k = "s_chain" if d["path"].endswith("chain") else "s_zip"
    return mk("iter", mk(k, *out), num(0))


@model("std::iter::Iterator::next")
def m_next(an, args, tys, d, site, sp, dest):
    r = args[0]
    v = an.snap(r)
    if v.k == "adt" and v.a[0] in ("std::ops::Range", "std::ops::RangeInclusive"):
        v = into_iter(an, [v], ["x"], d, site, sp, dest)
    if v.k != "iter":
        an.note("next on " + v.k)
        an.emit("call", name="next", obj=v, args=(), sp=sp, extra={"local": False})
        write_ref(an, r, mk("mut", "next", v), sp)
        return mk("call", "next", v)
    s, pos = v.a
    has = seq_has(an, s, pos)
    c0 = an.st.cond
    if has == 0 or B.AND(c0, has) == 0:
        return NONE
    out = {}

    def go():
        out["r"] = seq_at(an, s, pos, site, sp)
        return out["r"][0]
    elem = under(an, has, go)
    if elem is None:
        return NONE
    keep = out["r"][1]
    write_ref(an, r, mk("iter", s, add(pos, num(1))), sp)
    if keep != 1:
        skip = B.AND(an.st.cond, has, B.NOT(keep))
        if skip and an.skips:
            an.skips[-1].append(State(dict(an.st.env), skip))
        an.st.cond = B.AND(an.st.cond, B.OR(B.NOT(has), keep))
    return option(elem, has)


def iterate(an, it, site, sp, step):
    """Runs step(elem) for every kept element; step returns a stop guard (or None).
    Returns [(tag, state)] with tags 'done' and 'stop'."""
    s, pos0 = it.a
    lid = an.lid((an.fr.key, site + ("it",), an.peel), an.fr.fn["id"])
    root = ("it", lid)
    an.st.env[root] = pos0

    def body(st):
        pos = st.env[root]
        has = seq_has(an, s, pos)
        dec = True if has in (0, 1) else None
        if has not in (0, 1):
            t = B.AND(st.cond, has)
            dec = True if t == 0 or t == st.cond else None
        exits, backs = [], []
        nc = B.AND(st.cond, B.NOT(has))
        if nc:
            exits.append(("done", State(dict(st.env), nc)))
        c = B.AND(st.cond, has)
        if c:
            an.st = State(dict(st.env), c)
            try:
                elem, keep = seq_at(an, s, pos, site, sp)
                an.st.env[root] = add(pos, num(1))
                if keep != 1:
                    sk = B.AND(an.st.cond, B.NOT(keep))
                    if sk:
                        backs.append(State(dict(an.st.env), sk))
                    an.st = State(dict(an.st.env), B.AND(an.st.cond, keep))
                if an.st.cond:
                    stop = step(elem)
                    cc = an.st.cond
                    if stop:
                        if B.AND(cc, stop):
                            exits.append(("stop", State(dict(an.st.env), B.AND(cc, stop))))
                        cc = B.AND(cc, B.NOT(stop))
                    if cc:
                        backs.append(State(dict(an.st.env), cc))
            except Dead:
                pass
        return backs, exits, dec
    return lid, an.run_loop(lid, an.st, body)


def get_iter(an, args, tys, d, site, sp):
    v = an.snap(args[0])
    if v.k != "iter":
        v = into_iter(an, [v], [tys[0]], d, site, sp, None)
    return v if v.k == "iter" else None


def finish(an, exits):
    if not exits:
        raise Dead()
    an.st = an.join([s for _, s in exits])


def m_fold_like(an, args, tys, d, site, sp, init, step):
    """step(acc, elem) -> (new acc, stop guard)."""
    it = get_iter(an, args, tys, d, site, sp)
    if it is None:
        return None
    lid0 = an.lid((an.fr.key, site + ("acc",), an.peel), an.fr.fn["id"])
    root = ("acc", lid0)
    an.st.env[root] = init

    def one(elem):
        v, stop = step(an.st.env[root], elem)
        an.st.env[root] = v
        return stop
    lid, exits = iterate(an, it, site, sp, one)
    finish(an, exits)
    return an.st.env.pop(root)


def opaque(an, args, tys, d, sp):
    an.note(d["path"])
    return mk("call", d["name"], *[an.snap(a) for a in args])


@model("std::iter::Iterator::fold")
def m_fold(an, args, tys, d, site, sp, dest):
    f = args[2]
    r = m_fold_like(an, args, tys, d, site, sp, an.snap(args[1]),
                    lambda acc, e: (an.call_value(f, [acc, e], [], site + ("f",), sp), None))
    return opaque(an, args, tys, d, sp) if r is None else r


@model("std::iter::Iterator::sum")
def m_sum(an, args, tys, d, site, sp, dest):
    r = m_fold_like(an, args, tys, d, site, sp, num(0), lambda acc, e: (add(acc, e), None))
    return opaque(an, args, tys, d, sp) if r is None else r


@model("std::iter::Iterator::product")
def m_product(an, args, tys, d, site, sp, dest):
    r = m_fold_like(an, args, tys, d, site, sp, num(1), lambda acc, e: (mul(acc, e), None))
    return opaque(an, args, tys, d, sp) if r is None else r


@model("std::iter::Iterator::count")
def m_count(an, args, tys, d, site, sp, dest):
    r = m_fold_like(an, args, tys, d, site, sp, num(0), lambda acc, e: (add(acc, num(1)), None))
    return opaque(an, args, tys, d, sp) if r is None else r


@model("std::iter::Iterator::for_each", ND + "for_each")
def m_for_each(an, args, tys, d, site, sp, dest):
    f = args[1]
    it = get_iter(an, args, tys, d, site, sp)
    if it is None:
        return opaque(an, args, tys, d, sp)

    def one(e):
        an.call_value(f, [e], [], site + ("f",), sp)
        return None
    lid, exits = iterate(an, it, site, sp, one)
    finish(an, exits)
    return UNIT


def quantifier(stop_when):
    def m(an, args, tys, d, site, sp, dest):
        f = args[1]
        it = get_iter(an, args, tys, d, site, sp)
        if it is None:
            return opaque(an, args, tys, d, sp)

        def one(e):
            g = as_bool(an.call_value(f, [e], [], site + ("f",), sp))
            return g if stop_when else B.NOT(g)
        lid, exits = iterate(an, it, site, sp, one)
        if not exits:
            raise Dead()
        g = B.OR(*[s.cond for t, s in exits if t == "stop"])
        care = B.OR(*[s.cond for _, s in exits])
        finish(an, exits)
        g = B.restrict(g, care)
        return mk_bool(g if stop_when else B.NOT(g))
    return m


M["std::iter::Iterator::all"] = quantifier(False)
M["std::iter::Iterator::any"] = quantifier(True)


@model("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def m_find(an, args, tys, d, site, sp, dest):
    f = args[1]
    it = get_iter(an, args, tys, d, site, sp)
    if it is None:
        return opaque(an, args, tys, d, sp)
    lid0 = an.lid((an.fr.key, site + ("acc",), an.peel), an.fr.fn["id"])
    root, rp = ("acc", lid0), ("accp", lid0)
    an.st.env[root] = UNDEF
    an.st.env[rp] = num(0)
    ispos, ismap = d["name"] == "position", d["name"] == "find_map"

    def one(e):
        r = an.call_value(f, [e], [], site + ("f",), sp)
        g = is_variant(r, "Some") if ismap else as_bool(r)
        p = an.st.env[rp]
        an.st.env[root] = p if ispos else fld(r, "Some", "0") if ismap else e
        an.st.env[rp] = add(p, num(1))
        return g
    lid, exits = iterate(an, it, site, sp, one)
    if not exits:
        raise Dead()
    parts = []
    for t, s in exits:
        parts.append((some(s.env.get(root, UNDEF)) if t == "stop" else NONE, s.cond))
    finish(an, exits)
    an.st.env.pop(root, None)
    an.st.env.pop(rp, None)
    return an.case(parts)


@model("std::iter::Iterator::rposition", "std::iter::DoubleEndedIterator::rfind")
def m_rfind(an, args, tys, d, site, sp, dest):
    it = get_iter(an, args, tys, d, site, sp)
    if it is None or it.k != "iter" or it.a[1] is not num(0) \
            or it.a[0].k not in ("s_arr", "s_range", "s_map", "s_enum", "s_flat", "s_zip"):
        return opaque(an, args, tys, d, sp)
    s = it.a[0]
    lid = an.lid((an.fr.key, site + ("it",), an.peel), an.fr.fn["id"])
    var = mk("gv", lid)
    has = seq_has(an, s, var)
    box = {}

    def go():
        e, keep = seq_at(an, s, var, site, sp)
        box["e"] = an.snap(e)
        return mk_bool(B.AND(keep, as_bool(an.call_value(args[1], [e], [], site + ("f",), sp))))
    an.loopstack.append(lid)
    r = under(an, has, go)
    an.loopstack.pop()
    if r is None:
        return NONE
    g = B.AND(has, B.restrict(as_bool(r), has))
    ex, _, last = terms.some_position(g, var)
    v = last if d["name"] == "rposition" else subst(box["e"], {var: last})
    return an.case([(some(v), B.AND(an.st.cond, ex)), (NONE, B.AND(an.st.cond, B.NOT(ex)))])


@model("std::iter::Iterator::collect", "std::iter::FromIterator::from_iter",
       "ndarray::impl_constructors::<impl ndarray::ArrayBase<S, ndarray::Dim<[usize; 1]>>>::from_iter",
       NC + "from_iter")
def m_collect(an, args, tys, d, site, sp, dest):
    it = get_iter(an, args, tys, d, site, sp)
    if it is None:
        return opaque(an, args, tys, d, sp)
    s, pos = it.a
    n = seq_len(an, s)
    k = tint(n)
    if k is not None and k <= 16:
        out = []
        for i in range(k):
            old = an.peel
            an.peel = an.peel + (("c", i),)
            e, keep = seq_at(an, s, num(i), site, sp)
            an.peel = old
            if keep != 1:
                out = None
                break
            out.append(an.snap(e))
        if out is not None:
            return mk("array", tuple(out))
    if s.k == "s_arr" and is_num(pos):
        return s.a[0]
    if s.k == "s_flat" and s.a[2] == 0 and is_num(pos):
        return mk("flat", s.a[0], s.a[3])
    lid = an.lid((an.fr.key, site + ("it",), an.peel), an.fr.fn["id"])
    var = mk("gv", lid)
    an.loopstack.append(lid)
    has = seq_has(an, s, var)
    box = {}

    def go():
        box["r"] = seq_at(an, s, var, site, sp)
        return box["r"][0]
    e = under(an, has, go)
    an.loopstack.pop()
    if e is None:
        return mk("vec", mk("array", ()))
    keep = box["r"][1]
    if keep != 1:
        return filtered(an.snap(e), B.restrict(keep, has), n, var)
    return ew(subst(an.snap(e), {var: anyk(0)}), (n,))


@model("std::iter::Iterator::nth")
def m_nth(an, args, tys, d, site, sp, dest):
    it = an.snap(args[0])
    n = an.snap(args[1])
    if it.k == "iter" and it.a[0].k not in ("s_filter",):
        s, pos = it.a
        p = add(pos, n)
        v, g = seq_at(an, s, p, site, sp)
        if g == 1:
            write_ref(an, args[0], mk("iter", s, add(p, num(1))), sp)
            return option(v, seq_has(an, s, p))
    if it.k == "iter" and it.a[0].k == "s_filter":
        s, pos = it.a
        lid = an.lid((an.fr.key, site + ("nth",), an.peel), an.fr.fn["id"])
        var = mk("gv", lid)
        e, keep = seq_at(an, s, var, site, sp)
        return mk("call", "nth", filtered(an.snap(e), keep, seq_len(an, s), var), n)
    return opaque(an, args, tys, d, sp)


@model("itertools::Itertools::sorted_by", "itertools::Itertools::sorted_by_key")
def m_sorted(an, args, tys, d, site, sp, dest):
    it = get_iter(an, args, tys, d, site, sp)
    if it is None:
        return opaque(an, args, tys, d, sp)
    base = it.a[0].a[0] if it.a[0].k in ("s_flat", "s_arr") else it.a[0]
    a, b = mk("cmpa"), mk("cmpb")
    r = an.call_value(args[1], [a, b], [], site, sp)
    return mk("iter", mk("s_arr", mk("sorted", base, r), None), num(0))


@model("std::iter::Iterator::max_by", "std::iter::Iterator::min_by", "std::iter::Iterator::last",
       "std::iter::Iterator::max", "std::iter::Iterator::min")
def m_maxby(an, args, tys, d, site, sp, dest):
    return mk("call", d["name"], an.snap(args[0]))


# ---------------------------------------------------------------- text and HDF5 files
def template(b):
    """Pieces of a compiled format string: literals, and numbers of arguments (with how they are shown if not plainly)."""
    out, i, nxt = [], 0, 0
    while i < len(b) and b[i]:
        n = b[i]
        i += 1
        if n < 0x80:
            out.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode())
            i += 2 + n
        else:
            # flags, width, precision, which argument
            size = 4 * (n & 1) + 2 * bool(n & 2) + 2 * bool(n & 4)
            how, i = b[i:i + size], i + size
            if n & 0x30:                    # a width or precision that is itself an argument
                return None
            if n & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append((nxt, how.hex()) if size else nxt)
            nxt += 1
    return out


def spelled(t):
    """What a piece of text says: ("words", literal and displayed values in turn)."""
    out = []

    def go(t):
        if t.k == "str":
            out.append(t.a[0])
        elif t.k == "words":
            for x in t.a[0]:
                out.append(x)
        elif t.k == "text" and len(t.a) == 1:
            return go(t.a[0])
        elif t.k == "text" and len(t.a) == 2 and t.a[0].k == "const" and t.a[1].k == "array":
            try:
                ps = template(ast.literal_eval(t.a[0].a[0]))
            except (SyntaxError, ValueError, IndexError):
                ps = None
            if ps is None:
                return False
            for x in ps:
                if isinstance(x, str):
                    out.append(x)
                elif isinstance(x, tuple):
                    k, how = x
                    if k >= len(t.a[1].a[0]):
                        return False
                    v = t.a[1].a[0][k]
                    while v.k == "text" and len(v.a) == 1:
                        v = v.a[0]
                    if v.k in ("text", "const"):
                        return False
                    out.append(mk("shown", v, how))
                elif x >= len(t.a[1].a[0]) or not go(t.a[1].a[0][x]):
                    return False
        elif t.k in ("text", "const"):
            return False
        else:
            out.append(t)
        return True

    if not go(t):
        return t
    return terms.words(out)


@model("hdf5::Group::group")
def m_h5group(an, args, tys, d, site, sp, dest):
    """A group or content that is missing ends the run in every reader (see the assumptions)."""
    return ok(terms.per_case("hdf5.group", an.snap(args[0]), spelled(an.snap(args[1]))))


@model("hdf5::Group::dataset", "hdf5::Location::attr")
def m_h5dataset(an, args, tys, d, site, sp, dest):
    return terms.per_case("hdf5." + d["path"].split("::")[-1], an.snap(args[0]),
                          spelled(an.snap(args[1])))


@model("hdf5::Container::read_scalar", "hdf5::Container::read_1d", "hdf5::Container::read_2d",
       "hdf5::Container::read_raw", "hdf5::Container::read", "hdf5::Container::read_dyn")
def m_h5read(an, args, tys, d, site, sp, dest):
    return ok(terms.per_case("hdf5.read", an.snap(args[0])))


NM = "ndarray::impl_methods::<impl ndarray::ArrayBase<S, D>>::"


@model(NM + "into_shape", NM + "into_shape_with_order", NM + "to_shape")
def m_into_shape(an, args, tys, d, site, sp, dest):
    """A table given the number of rows it has already keeps its shape, or the run ends."""
    v, new, rank = an.snap(args[0]), an.snap(args[1]), arr_rank(tys[0])
    if rank == 2 and new.k in ("tuple", "array") and len(new.a[0]) == 2 and \
            cmp("Ne", an.dims(v, 2)[0], new.a[0][0], True) == 0:
        return ok(v)
    if rank == 1 and new.k in ("tuple", "array") and len(new.a[0]) == 2 and \
            new.a[0][0] is num(1):
        n = new.a[0][1]
        fits = cmp("Eq", an.dims(v, 1)[0], n, True)
        row = ew(idx(v, (terms.anyk(1),)), (num(1), n))
        return mk_case([(ok(row), fits), (err(mk("text")), B.NOT(fits))])
    return opaque(an, args, tys, d, sp)

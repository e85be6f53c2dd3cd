"""Models of std / third-party operations the value numbering understands.
Everything absent from this table is uninterpreted."""
import re
from term import *
import term as TM


def override(ev, item, args, st):
    """workspace items replaced by a model: derived Clone / PartialEq"""
    if item.name == "clone" and (item.trait or "").endswith("clone::Clone") and len(args) == 1:
        return ev.deref_val(args[0], st)
    return None


def _i():
    import interp
    return interp


UN = {"exp": "exp", "ln": "ln", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin", "acos": "acos",
      "atan": "atan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh", "asinh": "asinh", "acosh": "acosh",
      "atanh": "atanh", "erf": "erf", "erfc": "erfc", "abs": "abs", "floor": "floor", "ceil": "ceil",
      "round": "round", "trunc": "ftrunc", "erfcx": "erfcx", "signum": "signum",
      "is_nan": "is_nan", "is_finite": "is_finite", "is_infinite": "is_infinite", "norm": "cnorm",
      "fract": "fract", "is_sign_negative": "is_sign_negative", "is_sign_positive": "is_sign_positive"}


def fmath(name, a):
    x = a[0]
    if name in ("is_nan",):
        return app("is_nan", x)
    if name in ("is_finite", "is_infinite", "is_normal", "is_subnormal"):
        return app(name, x)
    if name == "is_sign_negative":
        return cmp("lt", x, ZERO)
    if name == "is_sign_positive":
        return cmp("ge", x, ZERO)
    if name in ("min", "max") and len(a) == 2:
        return fn(name, *sorted(a, key=lambda t: t.id))
    if name == "sqrt":
        return sqrt(x)
    if name == "cbrt":
        return fn("cbrt", x)
    if name in ("powi", "powf", "pow", "powu"):
        return powt(x, a[1])
    if name == "exp2":
        return powt(TWO, x)
    if name == "exp_m1":
        return sub(exp(x), ONE)
    if name == "ln_1p":
        return ln(add(x, ONE))
    if name == "log10":
        return div(ln(x), ln(num(10)))
    if name == "log2":
        return div(ln(x), ln(TWO))
    if name == "log":
        return div(ln(x), ln(a[1]))
    if name == "recip":
        return div(ONE, x)
    if name == "mul_add":
        return add(mul(x, a[1]), a[2])
    if name == "hypot":
        return sqrt(add(mul(x, x), mul(a[1], a[1])))
    if name == "atan2":
        return fn("atan2", x, a[1])
    if name == "to_radians":
        return div(mul(x, fn("pi")), num(180))
    if name == "to_degrees":
        return div(mul(x, num(180)), fn("pi"))
    if name == "sin_cos":
        return agg("tuple", 0, fn("sin", x), fn("cos", x))
    if name == "copysign":
        return mul(fn("abs", x), fn("signum", a[1]))
    if name == "clamp":
        return ite(cmp("lt", x, a[1]), a[1], ite(cmp("lt", a[2], x), a[2], x))
    if name == "rem_euclid":
        return fn("rem_euclid", x, a[1])
    if name == "midpoint":
        return div(add(x, a[1]), num(2))
    if name == "fract":
        return sub(x, fn("trunc", x))
    if name == "div_euclid":
        return fn("div_euclid", x, a[1])
    if name == "total_cmp":
        return _i().ordering(x, a[1])
    if name in UN:
        return fn(UN[name], x)
    return None


FLOATPATH = re.compile(r"<impl (f64|f32)>::(\w+)$")
INTPATH = re.compile(r"<impl ([ui](?:8|16|32|64|128|size))>::(\w+)$")


def iter_seq(ev, t, st):
    """view an iterable value as (vector, position) or None"""
    I = _i()
    if t.op == "iter":
        return t.a[0], t.a[1]
    if t.op == "agg" and t.a[0] == I.RANGE:
        a, b = t.a[2], t.a[3]
        return range_seq(a, sub(b, a)), ZERO
    if t.op == "agg" and t.a[0].endswith("RangeInclusive"):
        a, b = t.a[2], t.a[3]
        return range_seq(a, add(sub(b, a), ONE)), ZERO
    if t.op == "agg" and t.a[0].endswith("RangeFrom"):
        a = t.a[2]
        return seq(mk("const", "inf"), lamf(lambda j: add(a, j))), ZERO
    return None


def range_seq(a, n):
    return seq(n, lamf(lambda j: add(a, j) if a is not ZERO else j))


def as_iter(ev, t, st, elemref=False):
    """IntoIterator / iterator value -> iter term"""
    I = _i()
    if elemref and t.op in ("var", "fld", "idx", "app"):
        t = mk("ref", mk("cell", t))
        if ev.read_ref(t, st).op not in ("var", "fld", "idx", "app", "seq", "agg", "vpush", "withidx", "concat"):
            t = t.a[0].a[0]
    if t.op == "ref":
        v = ev.read_ref(t, st)
        if v.op == "iter":
            return v
        if elemref:
            n = length(v)
            cell, path = t.a[0], t.a[1:]
            s = seq(n, lamf(lambda j: mk("ref", cell, *(tuple(path) + (mk("pi", j),)))))
            return mk("iter", s, ZERO)
        t = v
    r = iter_seq(ev, t, st)
    if r is not None:
        return mk("iter", r[0], r[1])
    if t.op == "ite":
        a, b = as_iter(ev, t.a[1], st, elemref), as_iter(ev, t.a[2], st, elemref)
        if a.a[1] is b.a[1]:
            return mk("iter", ite(t.a[0], a.a[0], b.a[0]), a.a[1])
    if t.op == "agg" and t.a[0] == I.OPTION:
        return mk("iter", mk("agg", "array", 0, *t.a[2:]), ZERO)
    return mk("iter", t, ZERO)


def rest(it):
    """remaining elements of an iter as a vector"""
    s, k = it.a
    if k is ZERO:
        return s
    return slice_from(s, k)


def slice_from(s, k):
    n = sub(length(s), k)
    return seq(n, lamf(lambda j: proj_index(s, add(j, k))))


def slice_range(v, lo, hi):
    if lo is ZERO:
        if hi is length(v):
            return v
        return seq(hi, lamf(lambda j: proj_index(v, j)))
    return seq(sub(hi, lo), lamf(lambda j: proj_index(v, add(j, lo))))


def elems(v):
    """python list of the elements when the length is a small constant"""
    n = length(v)
    if isnum(n) and n.a[0] <= 64:
        return [proj_index(v, num(k)) for k in range(int(n.a[0]))]
    return None


def pure_apply(ev, f, args, st, guard):
    """apply a closure; its memory effects must be confined to its own frame
    (otherwise None)"""
    I = _i()
    before = dict(st.m)
    r, s2 = ev.call_closure(f, args, st.copy(), guard)
    for k, v in before.items():
        if s2.m.get(k) is not v:
            return None
    for k in s2.m:
        if isinstance(k, T) and k not in before:
            return None
    return r


def map_seq(ev, v, f, st, guard, wrap=None):
    x = fresh("e")
    mark = len(ev.assumes)
    r = pure_apply(ev, f, [proj_index(v, x)], st, guard)
    if r is None:
        return None
    ev.fix_assumes(mark, {x}, lambda t, n: subst(t, {x: n}), length(v))
    return seq(length(v), lam(r, x))


def fold_loop(ev, v, k0, init_cells, stepf, st, guard):
    """run `stepf(j, state) -> state` for j in 0..len(v) through the loop
    recurrence solver"""
    I = _i()
    kc = ("fold", ev.nframe, len(ev.assumes), fresh("f").a[1])
    st.m[kc] = ZERO
    n = length(v)

    def body(s):
        k = s.m[kc]
        c = cmp("lt", k, n)
        ex = s.copy()
        s2 = stepf(k, s)
        s2.m[kc] = add(k, ONE)
        return ((c,), s2), [("x", (not_(c),), ex)]
    outs = ev.solve_loop(st, body)
    key, g, s = outs[0]
    del s.m[kc]
    return s


def opt_map(o, f, other=None):
    """apply python f to the payload of an Option term"""
    I = _i()
    if o.op == "ite":
        return ite(o.a[0], opt_map(o.a[1], f, other), opt_map(o.a[2], f, other))
    if o.op == "agg":
        return f(o.a[2]) if o.a[1] == 1 else (other if other is not None else o)
    d = cmp("eq", mk("discr", o, 2), ZERO)
    return ite(d, other if other is not None else I.NONE, f(fld(o, 1, 0, I.OPTION, 1)))


def res_map(r, fok, ferr):
    I = _i()
    if r.op == "ite":
        return ite(r.a[0], res_map(r.a[1], fok, ferr), res_map(r.a[2], fok, ferr))
    if r.op == "agg":
        return fok(r.a[2]) if r.a[1] == 0 else ferr(r.a[2])
    d = cmp("eq", mk("discr", r, 2), ZERO)
    return ite(d, fok(fld(r, 0, 0, I.RESULT, 1)), ferr(fld(r, 1, 0, I.RESULT, 1)))


def is_some(o):
    if o.op == "ite":
        return ite(o.a[0], is_some(o.a[1]), is_some(o.a[2]))
    if o.op == "agg":
        return boolt(o.a[1] == 1)
    return not_(cmp("eq", mk("discr", o, 2), ZERO))


def is_ok(o):
    if o.op == "ite":
        return ite(o.a[0], is_ok(o.a[1]), is_ok(o.a[2]))
    if o.op == "agg":
        return boolt(o.a[1] == 0)
    return cmp("eq", mk("discr", o, 2), ZERO)


def ty_kind(s):
    s = s.lstrip("&").strip()
    s = re.sub(r"^'\w+ ", "", s)
    s = re.sub(r"^mut ", "", s)
    if re.match(r"^(f64|f32)$", s):
        return "float"
    if re.match(r"^[iu](8|16|32|64|128|size)$", s):
        return "int"
    if s.startswith("num_complex::Complex"):
        return "complex"
    if s.startswith("nalgebra::"):
        return "matrix"
    if s.startswith("ndarray::"):
        return "ndarray"
    if s.startswith("time::"):
        return "time"
    if re.match(r"^[A-Z]\w*$", s) or re.match(r"^<[A-Z]\w* as .*>::\w+$", s):
        return "param"
    return s


def self_kind(ev, rec, crate, tyenv):
    ts = rec.get("targs", [])
    if rec.get("trait") and ts:
        return ty_kind(ev.tystr(crate.types[ts[0]], tyenv))
    if "self_ty" in rec:
        return ty_kind(ev.tystr(crate.types[rec["self_ty"]], tyenv))
    return "?"


def arg_kind(ev, rec, crate, tyenv, n):
    ts = rec.get("targs", [])
    if len(ts) > n:
        return ty_kind(ev.tystr(crate.types[ts[n]], tyenv))
    return "?"


ARITH = {"add": add, "sub": sub, "mul": mul, "div": div}
JDN = lambda d: fn("jdn", d)


def date_of(x):
    """day number of a date term"""
    if x.op == "app" and x.a[0] == "date_add":
        return add(date_of(x.a[1]), x.a[2])
    return JDN(x)


def apply(ev, rec, crate, tr, name, path, args, st, tyenv, guard):
    I = _i()
    R = lambda t: (t, st)
    tr = (tr or "")
    trn = tr.split("::")[-1]
    D = lambda t: ev.deref_val(t, st)
    D1 = lambda t: ev.read_ref(t, st)
    n = len(args)

    # ---- float / complex scalar functions
    m = FLOATPATH.search(path)
    if m or path.startswith("num_complex::Complex::") or "errorfunctions" in path or "num_traits::float" in path \
            or "num_traits::real" in path or trn in ("Float", "RealErrorFunctions", "FloatConst", "ComplexFloat"):
        a = [D(x) for x in args]
        if a:
            if path.startswith("num_complex::Complex::") and name == "new":
                return R(add(a[0], mul(fn("I"), a[1])))
            r = fmath(name, a)
            if r is not None:
                return R(r)
        if name == "i":
            return R(fn("I"))
        if path.startswith("num_complex::Complex::"):
            return R(fn("c" + name, *a))
        if name in ("infinity", "max_value"):
            return R(mk("const", "inf"))
        if name == "PI":
            return R(fn("pi"))
    m = INTPATH.search(path)
    if m and n >= 1:
        a = [D(x) for x in args]
        if name in ("pow",):
            return R(powt(a[0], a[1]))
        if name in ("wrapping_add", "saturating_add") and n == 2:
            return R(add(*a)) if name == "wrapping_add" else R(fn(name, *a))
        if name in ("wrapping_sub", "wrapping_mul"):
            return R(sub(*a) if name == "wrapping_sub" else mul(*a))
        uns = re.search(r"<impl u\w+>", path) is not None
        if name == "checked_sub" and uns and n == 2:
            return R(ite(cmp("le", a[1], a[0]), I.some(sub(*a)), I.NONE))
        if name in ("checked_add", "checked_sub", "checked_mul"):
            return R(app(name, *a))
        if name == "saturating_sub" and uns and n == 2:
            return R(ite(cmp("lt", a[1], a[0]), sub(*a), ZERO))
        if name == "abs_diff" and n == 2:
            return R(ite(cmp("lt", a[1], a[0]), sub(*a), sub(a[1], a[0])))
        if name == "div_ceil" and n == 2:
            return R(fn("ceildiv", *a))
        if name == "midpoint" and n == 2 and uns:
            return R(I.idiv(add(*a), num(2)))
        if name in ("abs", "signum"):
            return R(fn(name, *a))
        if name in ("rem_euclid", "div_euclid", "saturating_sub", "abs_diff", "is_power_of_two", "trailing_zeros",
                    "reverse_bits", "count_ones", "leading_zeros", "isqrt", "ilog2"):
            return R(fn(name, *a))
        if name in ("min", "max"):
            return R(fn(name, *sorted(a, key=lambda t: t.id)))
    if path in ("core::num::<impl usize>::pow",):
        return R(powt(D(args[0]), D(args[1])))

    if name == "clamp" and n == 3 and (trn == "Ord" or "Ord for" in path):
        k = self_kind(ev, rec, crate, tyenv)
        mm = re.search(r"Ord for (\w+)>", path)
        if k == "int" or mm and ty_kind(mm.group(1)) == "int":
            a = [D(x) for x in args]
            return R(ite(cmp("lt", a[0], a[1]), a[1], ite(cmp("lt", a[2], a[0]), a[2], a[0])))
    if path.startswith("core::bool::<impl bool>::") and n == 2:
        c = D(args[0])
        if name == "then_some":
            return R(ite(c, I.some(args[1]), I.NONE))
        if name == "then":
            s2 = st.copy()
            v, s2 = ev.call_closure(args[1], [], s2, guard + (c,))
            return ite(c, I.some(v), I.NONE), I.merge2(c, s2, st)
    # ---- arithmetic traits
    if trn in ("Add", "Sub", "Mul", "Div", "Rem", "Neg") and tr.startswith("core::ops::arith"):
        k = self_kind(ev, rec, crate, tyenv)
        k2 = arg_kind(ev, rec, crate, tyenv, 1)
        a = [D(x) for x in args]
        if trn == "Neg":
            if k in ("float", "int", "complex", "param", "matrix"):
                return R(neg(a[0]))
        else:
            scal = ("float", "int", "complex", "param")
            if k in scal and (k2 in scal or k2 == "?"):
                if trn == "Div" and k == "int":
                    return R(I.idiv(*a))
                if trn == "Rem":
                    return R(I.irem(*a) if k == "int" else fn("fmod", *a))
                return R(ARITH[name](*a))
            if k == "matrix" or k2 == "matrix":
                if trn in ("Add", "Sub"):
                    return R(app("mat" + name, *a))
                if trn == "Mul":
                    if k in scal:
                        return R(app("matscale", a[1], a[0]))
                    if k2 in scal:
                        return R(app("matscale", a[0], a[1]))
                    return R(app("matmul", *a))
                if trn == "Div" and k2 in scal:
                    return R(app("matscale", a[0], div(ONE, a[1])))
            ts = rec.get("targs", [])
            s0 = ev.tystr(crate.types[ts[0]], tyenv) if ts else path
            s1 = ev.tystr(crate.types[ts[1]], tyenv) if len(ts) > 1 else ""
            if "time::date::Date" in s0 + path:
                if trn == "Sub" and ("Date" in s1 or "date::Date as core::ops::arith::Sub>" in path):
                    return R(sub(date_of(a[0]), date_of(a[1])))
                if trn in ("Add", "Sub") and "uration" in s1 + path:
                    return R(date_plus(a[0], a[1] if trn == "Add" else neg(a[1])))
            if "Duration" in s0 and trn in ("Add", "Sub"):
                return R(ARITH[name](*a))
            if "Duration" in s0 and trn in ("Mul", "Div"):
                return R(ARITH[name](*a))
            if "DateTime" in s0 and trn == "Sub" and "DateTime" in s1:
                return R(app("dt_sub", *a))
    if trn in ("AddAssign", "SubAssign", "MulAssign", "DivAssign", "RemAssign"):
        k = self_kind(ev, rec, crate, tyenv)
        cur = ev.deref(args[0], st)
        y = D(args[1])
        op = name[:3]
        s0 = path + (ev.tystr(crate.types[rec["targs"][0]], tyenv) if rec.get("targs") else "")
        if k in ("float", "complex", "param", "int") and op in ARITH:
            v = I.idiv(cur, y) if (k == "int" and op == "div") else ARITH[op](cur, y)
            ev.write_ref(args[0], v, st)
            return R(UNIT)
        if "time::date::Date" in s0:
            ev.write_ref(args[0], date_plus(cur, y if op == "add" else neg(y)), st)
            return R(UNIT)
        if k == "matrix" and op in ("add", "sub"):
            ev.write_ref(args[0], app("mat" + op, cur, y), st)
            return R(UNIT)
    # ---- comparisons
    if trn in ("PartialEq", "PartialOrd", "Ord") and n == 2:
        a, b = D(args[0]), D(args[1])
        ks = path + (ev.tystr(crate.types[rec["targs"][0]], tyenv) if rec.get("targs") else "")
        isdate = "time::date::Date" in ks or "time::primitive_date_time" in ks
        if name in ("eq", "ne"):
            r = val_eq(a, b)
            return R(r if name == "eq" else not_(r))
        if "time::date::Date" in ks:
            a, b = date_of(a), date_of(b)
        if name in ("lt", "le", "gt", "ge"):
            return R(cmp(name, a, b))
        if name == "partial_cmp":
            return R(I.some(I.ordering(a, b)))
        if name == "cmp":
            return R(I.ordering(a, b))
        if name in ("max", "min"):
            return R(fn(name, *sorted((a, b), key=lambda t: t.id)))
    if path.startswith("core::cmp::Ordering::"):
        a = [D(x) for x in args]
        if name == "reverse":
            def rv(o):
                if o.op == "ite":
                    return ite(o.a[0], rv(o.a[1]), rv(o.a[2]))
                if o.op == "agg":
                    return mk("agg", I.ORDERING, 2 - o.a[1])
                return app("reverse", o)
            return R(rv(a[0]))
        if name in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne"):
            d = discr(a[0], 3)
            e = lambda k: cmp("eq", d, num(k))
            t = {"is_lt": e(0), "is_eq": e(1), "is_gt": e(2), "is_le": not_(e(2)), "is_ge": not_(e(0)),
                 "is_ne": not_(e(1))}[name]
            return R(t)
        if name == "then":
            return R(app("then", *a))
    if path in ("core::cmp::max", "core::cmp::min"):
        return R(fn(name, *sorted([D(x) for x in args], key=lambda t: t.id)))
    if path == "core::ptr::eq":
        a, b = args
        return R(mk("app", "ptr_eq", *sorted((a, b), key=lambda t: t.id)) if a is not b else TRUE)

    if path.startswith("core::array::<impl [T; N]>") and name == "map":
        v = D(args[0])
        if v.op == "agg" and v.a[0] == "array":
            out = []
            for x in v.a[2:]:
                y, st = ev.call_closure(args[1], [x], st, guard)
                out.append(y)
            return mk("agg", "array", 0, *out), st
        m = map_seq(ev, v, args[1], st, guard)
        if m is not None:
            return R(m)

    if path == "core::array::from_fn":
        mm = re.search(r"; (\d+)(?:_?usize)?\]$", getattr(ev.dest_ty, "s", None) or str(ev.dest_ty or ""))
        N = int(mm.group(1)) if mm else None
        if N is not None and N <= 64:
            out = []
            for q in range(N):
                y, st = ev.call_closure(args[0], [num(q)], st, guard)
                out.append(y)
            return mk("agg", "array", 0, *out), st

    # ---- identity-like
    if trn == "Clone" and name == "clone" or name in ("cloned", "copied") and "option" in path:
        return R(D(args[0]) if trn == "Clone" else args[0])
    if name in ("deref", "as_ref", "borrow", "as_slice", "as_str", "to_owned", "to_vec", "as_deref", "as_vec",
                "into_boxed_slice", "as_mut_slice", "deref_mut", "as_mut", "borrow_mut", "lock", "as_slice_mut") and n == 1:
        if "option" in path and name in ("as_mut",):
            return None
        if name in ("deref_mut", "as_mut", "borrow_mut", "as_mut_slice"):
            if name == "deref_mut" and ("RefMut" in path or "Guard" in path) and args[0].op == "ref" \
                    and D1(args[0]).op == "ref":
                return R(D1(args[0]))
            return R(args[0])
        if "DateTime" not in path:
            return R(args[0] if args[0].op == "ref" and name == "borrow" else D(args[0]))
    if path.startswith("alloc::boxed::Box") and name == "new" or re.match(r"alloc::(rcs::)?(rc|arc|sync)::\w+::", path) and name == "new" \
            or path.startswith("core::cell::") and name == "new" or path == "core::hint::must_use" \
            or path.startswith("core::hint::black_box"):
        return R(args[0])
    if path.startswith("core::cell::RefCell") and name in ("into_inner",):
        return R(D(args[0]))
    if trn in ("Into", "From") and name in ("into", "from") and n == 1:
        r = conv(ev, rec, crate, path, args, st, tyenv, guard)
        if r is not None:
            return r
    if trn in ("TryFrom", "TryInto") and name in ("try_from", "try_into") and n == 1:
        r = try_conv(ev, rec, crate, args, st, tyenv)
        if r is not None:
            return R(r)
    if trn == "ToString" and name == "to_string":
        ts = rec.get("targs", [])
        s = ev.tystr(crate.types[ts[0]], tyenv) if ts else ""
        if s.lstrip("&") in ("str", "String", "alloc::string::String"):
            return R(D(args[0]))
        return R(app("to_string", D(args[0])))
    if trn == "Default" and name == "default":
        ts = rec.get("targs", [])
        s = ev.tystr(crate.types[ts[0]], tyenv) if ts else path
        if ty_kind(s) in ("float", "int"):
            return R(ZERO)
        if s == "bool":
            return R(FALSE)
        if s.startswith("core::option::Option"):
            return R(I.NONE)
        if s.startswith("alloc::vec::Vec"):
            return R(I.EMPTY)
    if trn == "Zero" and name == "zero":
        return R(ZERO)
    if trn == "One" and name == "one":
        return R(ONE)
    if trn == "Zero" and name == "is_zero":
        return R(cmp("eq", D(args[0]), ZERO))
    if trn in ("FromPrimitive", "ToPrimitive") and n == 1 or trn == "NumCast" and n == 1:
        x = D(args[0])
        tgt = re.sub(r"^(from|to)_", "", name)
        if trn == "ToPrimitive" and tgt not in ("f64", "f32"):
            k = self_kind(ev, rec, crate, tyenv)
            if k != "int":
                x = fn("trunc", x)
        return R(I.some(x))

    # ---- closures
    if trn in ("Fn", "FnMut", "FnOnce") and name in ("call", "call_mut", "call_once"):
        tup = args[1]
        fs = tup.a[2:] if tup.op == "agg" else [fld(tup, 0, i, "tuple", 0) for i in range(1)]
        f = args[0]
        r, s = ev.call_closure(f, list(fs), st, guard)
        return r, s

    # ---- Option / Result
    if path.startswith("core::option::Option::"):
        ts = rec.get("targs", [])
        r = option(ev, name, args, st, guard, D, I, ev.tystr(crate.types[ts[0]], tyenv) if ts else "")
        if r is not None:
            return r
    if path.startswith("core::result::Result::"):
        r = result(ev, name, args, st, guard, D, I)
        if r is not None:
            return r
    if trn == "Try" and name == "branch":
        x = args[0]
        cont = lambda v: mk("agg", I.CFLOW, 0, v)
        brk = lambda v: mk("agg", I.CFLOW, 1, v)
        if "Option" in path or "option::Option" in self_ty_s(ev, rec, crate, tyenv):
            return R(opt_map(x, cont, brk(I.NONE)))
        return R(res_map(x, cont, lambda e: brk(I.err(e))))
    if trn == "Try" and name == "from_output":
        if "option::Option" in self_ty_s(ev, rec, crate, tyenv):
            return R(I.some(args[0]))
        return R(I.ok(args[0]))
    if trn == "FromResidual" and name == "from_residual":
        x = args[0]
        if "Option" in path.split(" as ")[0]:
            return R(I.NONE)
        e = fld(x, 1, 0, I.RESULT, 1)
        return R(I.err(mk("app", "errfrom", e)))

    # ---- iterators & collections
    r = collections(ev, rec, crate, tr, trn, name, path, args, st, tyenv, guard, D, I)
    if r is not None:
        return r
    r = timecrate(ev, rec, crate, name, path, args, st, D, I)
    if r is not None:
        return r
    if path.startswith("core::mem::") and name == "swap":
        a, b = ev.deref(args[0], st), ev.deref(args[1], st)
        ev.write_ref(args[0], b, st)
        ev.write_ref(args[1], a, st)
        return R(UNIT)
    if path.startswith("core::mem::") and name == "replace":
        a = ev.deref(args[0], st)
        ev.write_ref(args[0], args[1], st)
        return R(a)
    if path.startswith("core::mem::") and name == "take":
        a = ev.deref(args[0], st)
        ts = rec.get("targs", [])
        ev.write_ref(args[0], default_of(ev.tystr(crate.types[ts[0]], tyenv) if ts else "") , st)
        return R(a)
    if name == "box_assume_init_into_vec_unsafe":
        return R(D(args[0]))
    if name == "drop" and path.startswith("core::mem"):
        return R(UNIT)
    if path.startswith("statrs::") or path.startswith("errorfunctions::") or "statrs::" in path:
        if name in ("gamma_li", "gamma_ui", "gamma_lr", "gamma_ur", "beta_reg"):
            for x in ([D(x) for x in args[:2]]):
                c = cmp("lt", ZERO, x)
                if c is not TRUE:
                    ev.assumes.append((guard, c, "panic:%s of a positive argument" % name, path))
        return R(fn(statrs_name(path, name), *[D(x) for x in args]))
    if path.startswith("num_traits::pow::Pow") or trn == "Pow":
        return R(powt(D(args[0]), D(args[1])))
    if path.startswith("ndarray::") or "ndarray::" in path or path.startswith("ndrustfft::"):
        r = ndarr(ev, name, path, args, st, guard, D)
        if r is not None:
            return r
    if path.startswith("nalgebra::") or "nalgebra::" in path:
        r = nalg(ev, name, path, args, st, guard, D, I)
        if r is not None:
            return r
    return None


def default_of(s):
    I = _i()
    if ty_kind(s) in ("float", "int"):
        return ZERO
    if s == "bool":
        return FALSE
    if s.startswith("core::option::Option"):
        return I.NONE
    if s.startswith("alloc::vec::Vec") or "VecDeque" in s:
        return I.EMPTY
    if re.match(r"^(std|alloc)::collections::\w+(::\w+)?::\w*(Map|Set)", s):
        return mk("emptymap")
    return app("default")


def statrs_name(path, name):
    return name


def self_ty_s(ev, rec, crate, tyenv):
    ts = rec.get("targs", [])
    if ts:
        return ev.tystr(crate.types[ts[0]], tyenv)
    return ""


def val_eq(a, b):
    if a.op == "ite":
        return ite(a.a[0], val_eq(a.a[1], b), val_eq(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], val_eq(a, b.a[1]), val_eq(a, b.a[2]))
    # an opaque enum against a fieldless variant: compare discriminants
    for x, y in ((a, b), (b, a)):
        if y.op == "agg" and len(y.a) == 2 and x.op != "agg" and y.a[0] not in ("tuple", "array"):
            return cmp("eq", mk("discr", x, NV(y.a[0])), num(y.a[1]))
    return cmp("eq", a, b)


def NV(did):
    I = _i()
    if did in I.NVAR:
        return I.NVAR[did]
    import facts
    F = facts._F
    a = F.adts.get(did) if F else None
    return len(a["variants"]) if a else 0


def date_plus(d, days):
    if d.op == "app" and d.a[0] == "date_add":
        n = add(d.a[2], days)
        return d.a[1] if n is ZERO else mk("app", "date_add", d.a[1], n)
    if isnum(days) and days.a[0] == 0:
        return d
    return mk("app", "date_add", d, days)


def try_conv(ev, rec, crate, args, st, tyenv):
    """a checked conversion between integers; what does not fit 32 bits is out of
    any quantity meant here, as it is for the unchecked one"""
    I = _i()
    ts = [ev.tystr(crate.types[t], tyenv) for t in rec.get("targs", [])]
    if len(ts) != 2:
        return None
    src, dst = ts if rec["name"] == "try_into" else ts[::-1]
    if src not in I.INTBITS or dst not in I.INTBITS:
        return None
    x = ev.deref_val(args[0], st)
    c = TRUE
    if dst[0] == "u" and src[0] == "i":
        c = cmp("le", ZERO, x)
    b = I.INTBITS[dst] - (dst[0] == "i")
    if b < I.INTBITS[src] - (src[0] == "i") and b < 31:
        c = TM.and_(c, cmp("le", x, num(2 ** b - 1)))
        if dst[0] == "i" and src[0] == "i":
            c = TM.and_(c, cmp("le", num(-2 ** b), x))
    return ite(c, I.ok(x), I.err(mk("app", "TryFromIntError", x)))


def conv(ev, rec, crate, path, args, st, tyenv, guard):
    I = _i()
    x = args[0]
    ts = [ev.tystr(crate.types[t], tyenv) for t in rec.get("targs", [])]
    if rec["name"] == "into" and len(ts) == 2:
        src, dst = ts
    elif rec["name"] == "from" and len(ts) == 2:
        dst, src = ts
    else:
        return None
    if norm(src) == norm(dst):
        return x, st
    ks, kd = ty_kind(src), ty_kind(dst)
    if ks in ("float", "int") and kd in ("float", "int"):
        return ev.deref_val(x, st), st
    if ks == "bool" and kd == "int":
        return ite(ev.deref_val(x, st), ONE, ZERO), st
    if ks in ("float", "int") and kd == "complex":
        return ev.deref_val(x, st), st
    if dst.startswith("core::option::Option") and norm(src) == norm(re.match(r"core::option::Option<(.*)>$", dst).group(1)):
        return I.some(x), st
    if ks == "param" or kd == "param":
        return mk("app", "into", ev.snap(ev.deref_val(x, st), st)), st
    if "String" in dst and src.endswith("str"):
        return ev.deref_val(x, st), st
    # a workspace From impl
    for did, lst in ev.F.trait_impls.items():
        if did.endswith("convert::From::from"):
            for sty, it, im in lst:
                ta = [it.crate.types[i].s for i in im.get("trait_args", [])]
                if norm(sty.s) == norm(dst) and ta and norm(ta[-1]) == norm(src):
                    r, s = ev.call_item(it, args, st, {}, guard)
                    return r, s
        if did.endswith("convert::Into::into"):
            for sty, it, im in lst:
                ta = [it.crate.types[i].s for i in im.get("trait_args", [])]
                if norm(sty.s) == norm(src) and ta and norm(ta[-1]) == norm(dst):
                    r, s = ev.call_item(it, args, st, {}, guard)
                    return r, s
    if dst.startswith("alloc::vec::Vec") or dst.startswith("alloc::collections") or dst.startswith("alloc::boxed"):
        return ev.deref_val(x, st), st
    return mk("app", "into:" + norm(dst), ev.snap(ev.deref_val(x, st), st)), st


def norm(s):
    return _i().norm_ty(s)


def option(ev, name, args, st, guard, D, I, ty=""):
    R = lambda t: (t, st)
    if name in ("as_mut",):
        v = D(args[0])
        r = args[0]
        cell, path = ev.target(r)
        inner = mk("ref", cell, *(tuple(path) + (mk("pf", 1, 0, I.OPTION, 1),)))
        return R(ite(is_some(v), I.some(inner), I.NONE))
    o = D(args[0]) if args else None
    if name == "unwrap" or name == "expect":
        ev.assumes.append((guard, is_some(o), "panic:unwrap", "unwrap")) if is_some(o) is not TRUE else None
        return R(fld(o, 1, 0, I.OPTION, 1))
    if name == "unwrap_unchecked":
        return R(fld(o, 1, 0, I.OPTION, 1))
    if name in ("is_some", "is_none"):
        return R(is_some(o) if name == "is_some" else not_(is_some(o)))
    if name in ("as_ref", "as_deref", "cloned", "copied", "as_deref_mut"):
        return R(o)
    if name == "unwrap_or":
        return R(opt_map(o, lambda v: v, args[1]))
    if name == "unwrap_or_default":
        return R(opt_map(o, lambda v: v, default_of(ty)))
    if name == "zip":
        o2 = D(args[1])
        return R(ite(and_(is_some(o), is_some(o2)), I.some(mk("agg", "tuple", 0, fld(o, 1, 0, I.OPTION, 1), fld(o2, 1, 0, I.OPTION, 1))), I.NONE))
    if name == "xor":
        o2 = D(args[1])
        return R(ite(is_some(o), ite(is_some(o2), I.NONE, o), o2))
    if name in ("unwrap_or_else", "map", "and_then", "map_or", "map_or_else", "ok_or", "ok_or_else", "or", "or_else",
                "filter", "is_some_and", "is_none_or"):
        def ap(f, xs):
            r = pure_apply(ev, f, xs, st, guard)
            if r is None:
                raise I.GiveUp("effectful closure")
            return r
        some = is_some(o)
        pay = lambda: fld(o, 1, 0, I.OPTION, 1)
        if name == "unwrap_or_else":
            if some is TRUE:
                return R(pay())
            try:
                alt = ap(args[1], [])
            except I.Diverges:
                ev.assumes.append((guard, some, "panic:unwrap_or_else", "unwrap_or_else"))
                return R(pay())
            return R(ite(some, pay(), alt))
        if name == "map":
            return R(ite(some, I.some(ap(args[1], [pay()])), I.NONE) if some is not FALSE else I.NONE)
        if name == "and_then":
            return R(ite(some, ap(args[1], [pay()]), I.NONE) if some is not FALSE else I.NONE)
        if name == "map_or":
            return R(ite(some, ap(args[2], [pay()]), args[1]) if some is not FALSE else args[1])
        if name == "map_or_else":
            return R(ite(some, ap(args[2], [pay()]), ap(args[1], [])))
        if name == "ok_or":
            return R(ite(some, I.ok(pay()), I.err(args[1])))
        if name == "ok_or_else":
            return R(ite(some, I.ok(pay()), I.err(ap(args[1], []))))
        if name == "or":
            return R(ite(some, o, args[1]))
        if name == "or_else":
            return R(ite(some, o, ap(args[1], [])))
        if name == "filter":
            return R(ite(some, ite(ap(args[1], [pay()]), I.some(pay()), I.NONE), I.NONE) if some is not FALSE else I.NONE)
        if name == "is_some_and":
            return R(and_(some, ap(args[1], [pay()])))
        if name == "is_none_or":
            return R(or_(not_(some), ap(args[1], [pay()])))
    if name == "take":
        ev.write_ref(args[0], I.NONE, st)
        return R(o)
    if name == "replace":
        ev.write_ref(args[0], I.some(args[1]), st)
        return R(o)
    if name in ("insert", "get_or_insert"):
        ev.write_ref(args[0], I.some(args[1]) if name == "insert" else ite(is_some(o), o, I.some(args[1])), st)
        cell, path = ev.target(args[0])
        return R(mk("ref", cell, *(tuple(path) + (mk("pf", 1, 0, I.OPTION, 1),))))
    return None


def result(ev, name, args, st, guard, D, I):
    R = lambda t: (t, st)
    r = D(args[0])
    okc = is_ok(r)
    pay = lambda: fld(r, 0, 0, I.RESULT, 1)
    er = lambda: fld(r, 1, 0, I.RESULT, 1)

    def ap(f, xs):
        q = pure_apply(ev, f, xs, st, guard)
        if q is None:
            raise I.GiveUp("effectful closure")
        return q
    if name in ("unwrap", "expect"):
        if okc is not TRUE:
            ev.assumes.append((guard, okc, "panic:unwrap", "unwrap"))
        return R(pay())
    if name in ("is_ok", "is_err"):
        return R(okc if name == "is_ok" else not_(okc))
    if name == "ok":
        return R(ite(okc, I.some(pay()), I.NONE))
    if name == "err":
        return R(ite(okc, I.NONE, I.some(er())))
    if name == "unwrap_or":
        return R(ite(okc, pay(), args[1]))
    if name == "map":
        return R(ite(okc, I.ok(ap(args[1], [pay()])), I.err(er())))
    if name == "map_err":
        return R(ite(okc, I.ok(pay()), I.err(mk("app", "map_err", er()))))
    if name == "and_then":
        return R(ite(okc, ap(args[1], [pay()]), I.err(er())))
    if name == "unwrap_or_else":
        try:
            alt = ap(args[1], [er()]) if okc is not TRUE else UNDEF
        except I.Diverges:
            ev.assumes.append((guard, okc, "panic:unwrap_or_else", "unwrap_or_else"))
            return R(pay())
        return R(ite(okc, pay(), alt))
    if name in ("as_ref", "as_mut"):
        return R(r)
    return None


ITERTR = ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "ParallelIterator",
          "IndexedParallelIterator", "IntoParallelIterator", "IntoParallelRefIterator", "IntoParallelRefMutIterator",
          "Itertools", "Extend", "FromIterator", "Sum", "Product")
VECLIKE = re.compile(r"^(alloc::vec::Vec|alloc::slice::|core::slice::|core::array::|alloc::collections::vec_deque::VecDeque|<alloc::vec::Vec|<alloc::collections::vec_deque)")
MAPLIKE = re.compile(r"^<?(alloc::collections::btree::map|std::collections::hash::map|alloc::collections::btree::set|std::collections::hash::set)")


def collections(ev, rec, crate, tr, trn, name, path, args, st, tyenv, guard, D, I):
    R = lambda t: (t, st)
    if trn in ("Index", "IndexMut") and name in ("index", "index_mut") and len(args) == 2:
        i = D(args[1])
        ts = rec.get("targs", [])
        sty = ev.tystr(crate.types[ts[0]], tyenv).lstrip("&") if ts and isinstance(ts[0], int) else ""
        if sty.startswith(("alloc::vec::Vec", "std::vec::Vec", "[")):
            c = in_bounds(D(args[0]), i)
            if c is not TRUE:
                ev.assumes.append((guard, c, "+bounds", path))
        if name == "index":
            v = D(args[0])
            return R(index_any(v, i))
        return R(index_mut(ev, args[0], i, st))
    if trn == "RangeBounds" or path.startswith("core::ops::range::Range"):
        if name == "contains":
            r, x = D(args[0]), D(args[1])
            if r.op == "agg":
                k = r.a[0].split("::")[-1]
                o = lambda q: q
                if any("time::date::Date" in ev.tystr(crate.types[i], tyenv) for i in rec.get("targs") or []):
                    o = date_of
                lo = lambda: cmp("le", o(r.a[2]), o(x))
                if k == "Range":
                    return R(and_(lo(), cmp("lt", o(x), o(r.a[3]))))
                if k == "RangeInclusive":
                    return R(and_(lo(), cmp("le", o(x), o(r.a[3]))))
                if k == "RangeFrom":
                    return R(lo())
                if k == "RangeTo":
                    return R(cmp("lt", o(x), o(r.a[2])))
                if k == "RangeToInclusive":
                    return R(cmp("le", o(x), o(r.a[2])))
        if name == "new" and "RangeInclusive" in path:
            return R(mk("agg", "core::ops::range::RangeInclusive", 0, args[0], args[1], FALSE))
        if name in ("start", "end") and "RangeInclusive" in path:
            return R(fld(D(args[0]), 0, 0 if name == "start" else 1, "core::ops::range::RangeInclusive", 3))
        if name == "is_empty":
            r = D(args[0])
            if r.op == "agg":
                return R(not_(cmp("lt" if r.a[0].endswith("Range") else "le", r.a[2], r.a[3])))
    if trn in ITERTR or path.startswith("core::iter::") or path.startswith("rayon::") or "itertools" in path:
        r = iterators(ev, rec, crate, trn, name, path, args, st, tyenv, guard, D, I)
        if r is not None:
            return r
    if MAPLIKE.match(path):
        kty = ev.tystr(crate.types[rec["targs"][0]], tyenv) if rec.get("targs") else ""
        vty = ev.tystr(crate.types[rec["targs"][1]], tyenv) if len(rec.get("targs") or []) > 1 and isinstance(rec["targs"][1], int) else ""
        return maps(ev, name, path, args, st, guard, D, I, kty, vty)
    if VECLIKE.match(path) or path == "alloc::vec::from_elem":
        return vecs(ev, name, path, args, st, guard, D, I)
    return None


def in_bounds(v, i):
    n = length(v)
    if i.op == "agg" and i.a[0].startswith("core::ops::range::"):
        k = i.a[0].split("::")[-1]
        if k == "Range":
            return and_(cmp("le", i.a[2], i.a[3]), cmp("le", i.a[3], n))
        if k == "RangeInclusive":
            return and_(cmp("le", i.a[2], add(i.a[3], ONE)), cmp("lt", i.a[3], n))
        if k in ("RangeFrom", "RangeTo"):
            return cmp("le", i.a[2], n)
        if k == "RangeToInclusive":
            return cmp("lt", i.a[2], n)
        return TRUE
    return cmp("lt", i, n)


def index_any(v, i):
    if i.op == "agg" and i.a[0].startswith("core::ops::range::"):
        k = i.a[0].split("::")[-1]
        if k == "Range":
            return slice_range(v, i.a[2], i.a[3])
        if k == "RangeFrom":
            return slice_range(v, i.a[2], length(v))
        if k == "RangeTo":
            return slice_range(v, ZERO, i.a[2])
        if k == "RangeFull":
            return v
        if k == "RangeInclusive":
            return slice_range(v, i.a[2], add(i.a[3], ONE))
        if k == "RangeToInclusive":
            return slice_range(v, ZERO, add(i.a[2], ONE))
    return proj_index(v, i)


def index_mut(ev, r, i, st):
    if i.op == "agg" and i.a[0].startswith("core::ops::range::"):
        raise _i().GiveUp("mutable slice")
    if r.op == "ite" and r.hasref:
        return ite(r.a[0], index_mut(ev, r.a[1], i, st), index_mut(ev, r.a[2], i, st))
    cell, path = ev.target(r)
    return mk("ref", cell, *(tuple(path) + (mk("pi", i),)))


def elem_f(ev, v, st):
    return lambda j: proj_index(v, j)


def iterators(ev, rec, crate, trn, name, path, args, st, tyenv, guard, D, I):
    R = lambda t: (t, st)
    if path == "core::iter::adapters::zip::zip" or path.endswith("iter::zip"):
        name = "zip"
    if path == "core::iter::sources::once::once":
        return R(mk("iter", mk("agg", "array", 0, args[0]), ZERO))
    if path.startswith("core::iter::sources::repeat"):
        if name == "repeat":
            return R(mk("iter", seq(mk("const", "inf"), lamf(lambda j: args[0])), ZERO))
        if name == "repeat_n":
            return R(mk("iter", seq(args[1], lamf(lambda j: args[0])), ZERO))
        return None
    if path.startswith("core::iter::sources::"):
        return None
    x = args[0]
    if name in ("into_iter", "into_par_iter", "par_iter", "par_iter_mut", "iter", "iter_mut"):
        selfs = self_ty_s(ev, rec, crate, tyenv)
        mut = name in ("par_iter_mut", "iter_mut") or (name == "into_iter" and x.op == "ref" and selfs.startswith("&mut"))
        if name == "into_iter" and ("HashMap" in selfs or "BTreeMap" in selfs):
            return R(map_iter(ev, x, D(x), "iter_mut" if mut else "iter", st))
        return R(as_iter(ev, x, st, elemref=mut))
    if name in ("next", "next_back"):
        cur = ev.deref(x, st)
        it = as_iter(ev, cur, st)
        if name == "next":
            s, k = it.a
            ev.write_ref(x, mk("iter", s, add(k, ONE)), st)
            return R(ite(cmp("lt", k, length(s)), I.some(proj_index(s, k)), I.NONE))
        v = rest(it)
        n = length(v)
        ev.write_ref(x, mk("iter", seq(sub(n, ONE), lamf(lambda j: proj_index(v, j))), ZERO), st)
        return R(ite(cmp("lt", ZERO, n), I.some(proj_index(v, sub(n, ONE))), I.NONE))
    if name in ("by_ref",):
        return R(x)
    if name in ("from_iter",):
        return R(rest(as_iter(ev, x, st)))
    byref = x.op == "ref"
    it = as_iter(ev, x, st) if not byref else as_iter(ev, D(x), st)
    v = rest(it)
    if v.op in ("fx", "fxf"):
        if name not in ("collect", "collect_vec", "sum", "product", "for_each", "count", "last", "fold", "into_iter", "max", "min"):
            raise I.GiveUp("effectful map")
        if name == "into_iter":
            return R(it)
        base, f = v.a[:2]
        acc = ("fxacc", ev.nframe, fresh("a").a[1])
        st.m[acc] = I.EMPTY

        def drive(j, s):
            r, s2 = ev.call_closure(f, list(v.a[2:]) + [proj_index(base, j)], s, guard)
            if v.op == "fxf":
                kept = fld(r, 1, 0, I.OPTION, 1) if is_some(r) is not FALSE else None
                s2.m[acc] = ite(is_some(r), vpush(s2.m[acc], kept), s2.m[acc]) if kept is not None else s2.m[acc]
                return s2
            if len(v.a) > 2:
                # scan: only when it never stops early
                if is_some(r) is not TRUE:
                    raise I.GiveUp("scan that may stop")
                r = fld(r, 1, 0, "core::option::Option", 1)
            s2.m[acc] = vpush(s2.m[acc], r)
            return s2
        st = fold_loop(ev, base, ZERO, None, drive, st, guard)
        v = st.m.pop(acc)
    n = length(v)
    mkit = lambda s: R(mk("iter", s, ZERO))
    if v.op == "filtered" and name in ("cloned", "copied", "into_iter", "fuse", "map", "filter", "count", "sum", "product", "any", "all", "fold",
                                       "find", "by_ref"):
        r = on_filtered(ev, name, v, args, st, guard, I, rec, crate, tyenv)
        if r is not None:
            return r
    if name == "peek":
        s0, k0 = it.a
        return R(ite(cmp("lt", k0, length(s0)), I.some(proj_index(s0, k0)), I.NONE))
    if name in ("cloned", "copied", "into_iter", "fuse", "peekable", "inspect"):
        if name == "inspect":
            return None
        return mkit(derefs(ev, v, st))
    if name in ("collect", "collect_vec", "collect_into_vec"):
        ts = rec.get("targs", [])
        dst = ev.tystr(crate.types[ts[-1]], tyenv) if ts else ""
        if "HashMap" in dst or "BTreeMap" in dst or "Set" in dst or "String" in dst or dst.startswith("core::result") \
                or dst.startswith("core::option"):
            return R(app("collect:" + norm(dst), v))
        return R(v)
    if name in ("enumerate",):
        return mkit(seq(n, lamf(lambda j: mk("agg", "tuple", 0, j, proj_index(v, j)))))
    if name in ("map",):
        s = map_seq(ev, v, args[1], st, guard)
        if s is None:
            # effects happen when the adapter is driven
            return mkit(mk("fx", v, args[1]))
        return mkit(s)
    if name == "scan" and len(args) == 3:
        cell = ("scan", ev.nframe, fresh("a").a[1])
        st.m[cell] = args[1]
        return mkit(mk("fx", v, args[2], mk("ref", cell)))
    if name in ("zip", "zip_eq"):
        w = rest(as_iter(ev, args[1], st))
        m = length(w)
        if m.op == "const":
            nn = n
        elif n.op == "const":
            nn = m
        else:
            nn = n if n is m else fn("min", *sorted((n, m), key=lambda t: t.id))
        return mkit(seq(nn, lamf(lambda j: mk("agg", "tuple", 0, proj_index(v, j), proj_index(w, j)))))
    if name == "rev":
        return mkit(seq(n, lamf(lambda j: proj_index(v, sub(sub(n, ONE), j)))))
    if name == "skip":
        return mkit(slice_from(v, args[1]) if args[1] is not ZERO else v)
    if name == "take":
        k = args[1]
        nn = k if (n.op == "const" or n is k) else fn("min", *sorted((n, k), key=lambda t: t.id))
        if isnum(n) and isnum(k):
            nn = num(min(n.a[0], k.a[0]))
        return mkit(seq(nn, lamf(lambda j: proj_index(v, j))))
    if name == "step_by":
        k = args[1]
        return mkit(seq(fn("ceildiv", n, k), lamf(lambda j: proj_index(v, mul(j, k)))))
    if name == "chain":
        w = rest(as_iter(ev, args[1], st))
        return mkit(I.vconcat(v, w))
    if name in ("count", "len"):
        return R(n)
    if name in ("sum", "product") or trn in ("Sum", "Product"):
        prim = True
        ts = rec.get("targs", [])
        if ts:
            ss = [ty_kind(ev.tystr(crate.types[t], tyenv)) for t in ts[-1:]]
            prim = ss[0] in ("float", "int", "complex", "param")
        v = derefs(ev, v, st)
        if not prim:
            return R(app(name, v))
        return R(total(name, v))
    if name in ("any", "all"):
        s = map_seq(ev, v, args[1], st, guard)
        if s is None:
            raise I.GiveUp("effectful any")
        if name == "any":
            return R(I.exists(n, lamf(lambda j: proj_index(s, j))))
        return R(not_(I.exists(n, lamf(lambda j: not_(proj_index(s, j))))))
    if name in ("position", "find", "find_map", "rposition"):
        s = map_seq(ev, v, args[1], st, guard)
        if s is None:
            raise I.GiveUp("effectful find")
        if name == "find_map":
            l = lamf(lambda j: is_some(proj_index(s, j)))
            f = TM.first(n, l)
            return R(ite(I.exists(n, l), proj_index(s, f), I.NONE))
        l = lamf(lambda j: proj_index(s, j))
        f = TM.first(n, l)
        if name == "rposition":
            return R(app("rposition", s))
        return R(ite(I.exists(n, l), I.some(f if name == "position" else proj_index(v, f)), I.NONE))
    if name in ("filter", "filter_map", "take_while", "skip_while", "flat_map", "map_while"):
        s = map_seq(ev, v, args[1], st, guard)
        if s is None and name == "filter_map":
            return mkit(mk("fxf", v, args[1]))
        if s is None:
            raise I.GiveUp("effectful filter")
        if name == "filter_map":
            return mkit(mk("filtered", seq(n, lamf(lambda j: is_some(proj_index(s, j)))),
                           seq(n, lamf(lambda j: fld(proj_index(s, j), 1, 0, I.OPTION, 1)))))
        if name == "filter":
            return mkit(mk("filtered", s, v))
        if name in ("take_while", "skip_while"):
            stop = TM.first(n, lamf(lambda j: not_(proj_index(s, j))))
            return mkit(slice_range(v, ZERO, stop) if name == "take_while" else slice_from(v, stop))
        if name == "map_while":
            stop = TM.first(n, lamf(lambda j: not_(is_some(proj_index(s, j)))))
            return mkit(seq(stop, lamf(lambda j: fld(proj_index(s, j), 1, 0, I.OPTION, 1))))
        if name == "flat_map":
            return mkit(mk("app", "flat", s))
        return mkit(mk("app", name, v, s))
    if name in ("fold", "try_fold"):
        if name == "try_fold":
            return None
        acc = ("facc", ev.nframe, fresh("a").a[1])
        st.m[acc] = args[1]
        f = args[2]

        def step(j, s):
            r, s2 = ev.call_closure(f, [s.m[acc], proj_index(v, j)], s, guard)
            s2.m[acc] = r
            return s2
        s = fold_loop(ev, v, ZERO, None, step, st, guard)
        r = s.m.pop(acc)
        return r, s
    if name == "reduce":
        f = args[1]
        acc = ("facc", ev.nframe, fresh("a").a[1])
        st.m[acc] = proj_index(v, ZERO)
        w = slice_from(v, ONE)

        def step(j, s):
            r, s2 = ev.call_closure(f, [s.m[acc], proj_index(w, j)], s, guard)
            s2.m[acc] = r
            return s2
        s = fold_loop(ev, w, ZERO, None, step, st, guard)
        r = s.m.pop(acc)
        return ite(cmp("lt", ZERO, n), I.some(r), I.NONE), s
    if name == "for_each":
        f = args[1]

        def step(j, s):
            r, s2 = ev.call_closure(f, [proj_index(v, j)], s, guard)
            return s2
        s = fold_loop(ev, v, ZERO, None, step, st, guard)
        return UNIT, s
    if name == "scan":
        return R(mk("iter", mk("app", "scan", v, ev.snap(args[1], st), ev.snap(args[2], st)), ZERO))
    if name in ("max_by_key", "min_by_key"):
        z = var("key?")
        if args[1].op not in ("app", "var") and pure_apply(ev, args[1], [z], st, guard) is z:
            e = extremum(ev, name[:3], v, [], st, guard, n)
            if e is not None:
                return e, st
    if name in ("max_by", "min_by", "max", "min"):
        e = extremum(ev, name, v, args[1:], st, guard, n)
        if e is not None:
            return e, st
    if name in ("max_by", "min_by", "max_by_key", "min_by_key", "max", "min", "sorted", "sorted_by"):
        return R(app(name, v, *[ev.snap(a, st) for a in args[1:]]))
    if name == "last":
        return R(ite(cmp("lt", ZERO, n), I.some(proj_index(v, sub(n, ONE))), I.NONE))
    if name == "nth":
        return R(ite(cmp("lt", args[1], n), I.some(proj_index(v, args[1])), I.NONE))
    if name == "unzip":
        return R(mk("agg", "tuple", 0,
                    seq(n, lamf(lambda j: fld(proj_index(v, j), 0, 0, "tuple", 2))),
                    seq(n, lamf(lambda j: fld(proj_index(v, j), 0, 1, "tuple", 2)))))
    if name == "extend":
        base = ev.deref(x, st)
        w = rest(as_iter(ev, args[1], st))
        ev.write_ref(x, I.vconcat(base, w), st)
        return R(UNIT)
    return None


def total(name, v):
    """sum / product of the elements"""
    I = _i()
    op, o = (add, I.sumt) if name == "sum" else (mul, I.prodt)
    if v.op == "concat":
        return op(total(name, v.a[0]), total(name, v.a[1]))
    if v.op in ("vpush", "vinsert"):
        return op(total(name, v.a[0]), v.a[-1])
    if v.op == "filtered":
        m, w = v.a
        e = ZERO if name == "sum" else ONE
        return o(length(m), lamf(lambda j: ite(proj_index(m, j), proj_index(w, j), e)))
    if v.op == "app" and v.a[0] == "flat":
        w = v.a[1]
        return o(length(w), lamf(lambda j: total(name, proj_index(w, j))))
    return o(length(v), lamf(lambda j: proj_index(v, j)))


def on_filtered(ev, name, v, args, st, guard, I, rec, crate, tyenv):
    """iterator adapters over the elements of w for which the mask m holds"""
    R = lambda t: (t, st)
    m, w = v.a
    n = length(m)
    mkit = lambda s: R(mk("iter", s, ZERO))
    keep = lambda j: proj_index(m, j)
    if name in ("cloned", "copied", "into_iter", "fuse"):
        return mkit(mk("filtered", m, derefs(ev, w, st)))
    if name in ("map", "filter", "any", "all", "find"):
        s = map_seq(ev, w, args[1], st, guard)
        if s is None:
            return None
        if name == "map":
            return mkit(mk("filtered", m, s))
        both = seq(n, lamf(lambda j: and_(keep(j), proj_index(s, j))))
        if name == "filter":
            return mkit(mk("filtered", both, w))
        if name == "any":
            return R(I.exists(n, lamf(lambda j: proj_index(both, j))))
        if name == "all":
            return R(not_(I.exists(n, lamf(lambda j: and_(keep(j), not_(proj_index(s, j)))))))
        l = lamf(lambda j: proj_index(both, j))
        return R(ite(I.exists(n, l), I.some(proj_index(w, TM.first(n, l))), I.NONE))
    if name == "count":
        return R(I.sumt(n, lamf(lambda j: ite(keep(j), ONE, ZERO))))
    if name in ("sum", "product"):
        ts = rec.get("targs", [])
        if ts and ty_kind(ev.tystr(crate.types[ts[-1]], tyenv)) not in ("float", "int", "complex", "param"):
            return None
        return R(total(name, mk("filtered", m, derefs(ev, w, st))))
    if name == "fold":
        acc = ("facc", ev.nframe, fresh("a").a[1])
        st.m[acc] = args[1]

        def step(j, s):
            s1 = s.copy()
            r, s1 = ev.call_closure(args[2], [s1.m[acc], proj_index(w, j)], s1, guard + (keep(j),))
            s1.m[acc] = r
            return I.merge2(keep(j), s1, s)
        s = fold_loop(ev, w, ZERO, None, step, st, guard)
        return s.m.pop(acc), s
    return None


def extremum(ev, name, v, rest_args, st, guard, n):
    """iterator max/min of scalars under the natural order (or its reverse)"""
    I = _i()
    up = name.startswith("max")
    w = derefs(ev, v, st)
    if rest_args:
        x, y = fresh("x"), fresh("y")
        try:
            o, _ = ev.call_closure(rest_args[0], [x, y], st.copy(), guard)
        except I.GiveUp:
            return None
        if o is I.ordering(y, x):
            up = not up
        elif o is not I.ordering(x, y):
            return None
    m = mk("SMAX" if up else "SMIN", n, lamf(lambda j: proj_index(w, j)))
    return ite(cmp("lt", ZERO, n), I.some(m), I.NONE)


def derefs(ev, v, st):
    if not v.hasref:
        return v
    return seq(length(v), lamf(lambda j: ev.deref_val(proj_index(v, j), st)))


def vecs(ev, name, path, args, st, guard, D, I):
    R = lambda t: (t, st)
    if name == "with_capacity":
        return R(mk("seq", ZERO, lamf(lambda j: mk("app", "capacity", args[-1]))))
    if name == "new":
        return R(I.EMPTY)
    if name == "capacity":
        # exact for element types of non-zero size (RawVec allocates what is asked)
        v = D(args[0])
        if v.op == "seq" and v.a[0] is ZERO and v.a[1].a[1].op == "app" and v.a[1].a[1].a[0] == "capacity":
            return R(v.a[1].a[1].a[1])
        return None
    if name == "from_elem":
        x, n = args
        return R(seq(n, lamf(lambda j: x)))
    x = args[0]
    if name == "push" or name == "push_back":
        v = ev.deref(x, st)
        ev.write_ref(x, vpush(v, args[1]), st)
        return R(UNIT)
    if name == "len":
        return R(length(D(x)))
    if name == "is_empty":
        return R(cmp("eq", length(D(x)), ZERO))
    if name in ("iter", "into_iter", "par_iter"):
        return R(as_iter(ev, D(x), st))
    if name in ("iter_mut",):
        return R(as_iter(ev, x, st, elemref=True))
    if name in ("index", "index_mut"):
        return None
    if name in ("first", "last", "front", "back"):
        v = D(x)
        n = length(v)
        i = ZERO if name in ("first", "front") else sub(n, ONE)
        return R(ite(cmp("lt", ZERO, n), I.some(proj_index(v, i)), I.NONE))
    if name == "get":
        v, i = D(x), D(args[1])
        if i.op == "agg":
            return None
        return R(ite(cmp("lt", i, length(v)), I.some(proj_index(v, i)), I.NONE))
    if name in ("get_mut", "last_mut", "first_mut", "front_mut", "back_mut"):
        v = D(x)
        n = length(v)
        i = D(args[1]) if name == "get_mut" else (ZERO if name.startswith("f") else sub(n, ONE))
        return R(ite(cmp("lt", i, n), I.some(index_mut(ev, x, i, st)), I.NONE))
    if name == "get_unchecked":
        return R(proj_index(D(x), D(args[1])))
    if name == "pop" or name == "pop_back":
        v = ev.deref(x, st)
        n = length(v)
        if v.op == "vpush":
            ev.write_ref(x, v.a[0], st)
            return R(I.some(v.a[1]))
        ev.write_ref(x, mk("vpop", v), st)
        return R(ite(cmp("lt", ZERO, n), I.some(proj_index(v, sub(n, ONE))), I.NONE))
    if name == "pop_front":
        v = ev.deref(x, st)
        n = length(v)
        ev.write_ref(x, ite(cmp("lt", ZERO, n), seq(sub(n, ONE), lamf(lambda j: proj_index(v, add(j, ONE)))), v), st)
        return R(ite(cmp("lt", ZERO, n), I.some(proj_index(v, ZERO)), I.NONE))
    if name == "push_front":
        v = ev.deref(x, st)
        ev.write_ref(x, mk("vinsert", v, ZERO, args[1]), st)
        return R(UNIT)
    if name == "remove" and len(args) == 2:
        v, i = ev.deref(x, st), D(args[1])
        n = length(v)
        w = seq(sub(n, ONE), lamf(lambda j: ite(cmp("lt", j, i), proj_index(v, j), proj_index(v, add(j, ONE)))))
        if "vec_deque" in path:
            ev.write_ref(x, ite(cmp("lt", i, n), w, v), st)
            return R(ite(cmp("lt", i, n), I.some(proj_index(v, i)), I.NONE))
        ev.write_ref(x, w, st)
        return R(proj_index(v, i))
    if name == "clear":
        ev.write_ref(x, I.EMPTY, st)
        return R(UNIT)
    if name == "insert":
        v = ev.deref(x, st)
        ev.write_ref(x, mk("vinsert", v, D(args[1]), args[2]), st)
        return R(UNIT)
    if name in ("to_vec", "clone", "as_slice", "into_vec", "to_owned", "as_mut_slice", "deref", "deref_mut", "into_boxed_slice"):
        return R(D(x) if name not in ("as_mut_slice", "deref_mut") else x)
    if name == "windows":
        v, w = D(x), D(args[1])
        n = add(sub(length(v), w), ONE)
        return R(mk("iter", seq(n, lamf(lambda j: win(v, j, w))), ZERO))
    if name == "contains":
        v, e = D(x), D(args[1])
        return R(I.exists(length(v), lamf(lambda j: val_eq(proj_index(v, j), e))))
    if name in ("sort_by", "sort", "sort_unstable", "sort_unstable_by", "sort_by_key", "sort_by_cached_key"):
        v = ev.deref(x, st)
        key = sort_key(ev, args[1:], st, guard, name)
        ev.write_ref(x, sorted_(v, key), st)
        return R(UNIT)
    if name == "reverse":
        v = ev.deref(x, st)
        n = length(v)
        ev.write_ref(x, seq(n, lamf(lambda j: proj_index(v, sub(sub(n, ONE), j)))), st)
        return R(UNIT)
    if name == "swap":
        v = ev.deref(x, st)
        i, j = args[1], args[2]
        a, b = proj_index(v, i), proj_index(v, j)
        ev.write_ref(x, I.with_index(I.with_index(v, i, b), j, a), st)
        return R(UNIT)
    if name == "partition_point":
        v = D(x)
        s = map_seq(ev, v, args[1], st, guard)
        if s is None:
            return None
        n = length(v)
        return R(TM.first(n, lamf(lambda j: not_(proj_index(s, j)))))
    if name == "binary_search_by" or name == "binary_search":
        v = D(x)
        n = length(v)
        if name == "binary_search":
            e = D(args[1])
            order = seq(n, lamf(lambda j: I.ordering(proj_index(v, j), e)))
        else:
            order = map_seq(ev, v, args[1], st, guard)
            if order is None:
                return None
        at = TM.first(n, lamf(lambda j: cmp("eq", discr(proj_index(order, j), 3), ONE)))
        ins = TM.first(n, lamf(lambda j: cmp("eq", discr(proj_index(order, j), 3), num(2))))
        return R(ite(cmp("lt", at, n), I.ok(at), I.err(ins)))
    if name == "extend_from_slice" or name == "append":
        base = ev.deref(x, st)
        ev.write_ref(x, I.vconcat(base, D(args[1])), st)
        return R(UNIT)
    if name == "truncate":
        v = ev.deref(x, st)
        n = length(v)
        ev.write_ref(x, ite(cmp("lt", args[1], n), slice_range(v, ZERO, args[1]), v), st)
        return R(UNIT)
    if name == "resize":
        v = ev.deref(x, st)
        n = length(v)
        if sub(args[1], n) is ONE:
            ev.write_ref(x, vpush(v, args[2]), st)
        else:
            ev.write_ref(x, ite(cmp("lt", args[1], n), slice_range(v, ZERO, args[1]),
                                I.vconcat(v, seq(sub(args[1], n), lamf(lambda j: args[2])))), st)
        return R(UNIT)
    if name in ("swap_remove", "swap_remove_back", "swap_remove_front"):
        v, i = ev.deref(x, st), D(args[1])
        n = length(v)
        if name == "swap_remove_front":
            w = seq(sub(n, ONE), lamf(lambda j: ite(cmp("eq", add(j, ONE), i), proj_index(v, ZERO), proj_index(v, add(j, ONE)))))
        else:
            w = seq(sub(n, ONE), lamf(lambda j: ite(cmp("eq", j, i), proj_index(v, sub(n, ONE)), proj_index(v, j))))
        if name == "swap_remove":
            ev.write_ref(x, w, st)
            return R(proj_index(v, i))
        ev.write_ref(x, ite(cmp("lt", i, n), w, v), st)
        return R(ite(cmp("lt", i, n), I.some(proj_index(v, i)), I.NONE))
    if name in ("rotate_left", "rotate_right") and len(args) == 2:
        v = ev.deref(x, st)
        n = length(v)
        k = D(args[1])
        if name == "rotate_right":
            f = lambda j: ite(cmp("lt", j, k), proj_index(v, sub(add(j, n), k)), proj_index(v, sub(j, k)))
        else:
            f = lambda j: ite(cmp("lt", add(j, k), n), proj_index(v, add(j, k)), proj_index(v, sub(add(j, k), n)))
        ev.write_ref(x, seq(n, lamf(f)), st)
        return R(UNIT)
    if name in ("dedup", "dedup_by_key"):
        v = ev.deref(x, st)
        n = length(v)
        w = v
        if name == "dedup_by_key":
            w = map_seq(ev, v, args[1], st, guard)
            if w is None:
                return None
        new = lambda j: or_(cmp("eq", j, ZERO), not_(val_eq(proj_index(w, j), proj_index(w, sub(j, ONE)))))
        ev.write_ref(x, mk("filtered", seq(n, lamf(new)), v), st)
        return R(UNIT)
    if name == "retain":
        v = ev.deref(x, st)
        s = map_seq(ev, v, args[1], st, guard)
        if s is None:
            return None
        ev.write_ref(x, mk("filtered", s, v), st)
        return R(UNIT)
    if name == "drain":
        v, r = ev.deref(x, st), D(args[1])
        if r.op != "agg":
            return None
        k = r.a[0].split("::")[-1]
        n = length(v)
        lo = r.a[2] if k in ("Range", "RangeFrom", "RangeInclusive") else ZERO
        hi = {"Range": lambda: r.a[3], "RangeInclusive": lambda: add(r.a[3], ONE), "RangeTo": lambda: r.a[2],
              "RangeToInclusive": lambda: add(r.a[2], ONE)}.get(k, lambda: n)()
        head = slice_range(v, ZERO, lo) if lo is not ZERO else I.EMPTY
        tail = slice_from(v, hi) if hi is not n else I.EMPTY
        ev.write_ref(x, I.vconcat(head, tail), st)
        return R(mk("iter", slice_range(v, lo, hi), ZERO))
    if name in ("split_first", "split_last"):
        v = D(x)
        n = length(v)
        e, w = (proj_index(v, ZERO), slice_from(v, ONE)) if name == "split_first" else (proj_index(v, sub(n, ONE)), slice_range(v, ZERO, sub(n, ONE)))
        return R(ite(cmp("lt", ZERO, n), I.some(mk("agg", "tuple", 0, e, w)), I.NONE))
    if name == "split_at":
        v, k = D(x), D(args[1])
        return R(mk("agg", "tuple", 0, slice_range(v, ZERO, k), slice_from(v, k)))
    if name == "chunks_exact":
        v, w = D(x), D(args[1])
        return R(mk("iter", seq(I.idiv(length(v), w), lamf(lambda j: win(v, mul(j, w), w))), ZERO))
    if name == "concat" and len(args) == 1:
        v = D(x)
        if v.op == "agg" and v.a[0] == "array":
            r = I.EMPTY
            for y in v.a[2:]:
                r = I.vconcat(r, D(y))
            return R(r)
        return None
    if name == "fill":
        v = ev.deref(x, st)
        ev.write_ref(x, seq(length(v), lamf(lambda j: args[1])), st)
        return R(UNIT)
    if name == "eq":
        return R(cmp("eq", D(x), D(args[1])))
    return None


def win(v, j, w):
    if isnum(w) and w.a[0] <= 8:
        return mk("agg", "array", 0, *[proj_index(v, add(j, num(k))) for k in range(int(w.a[0]))])
    return slice_range(v, j, add(j, w))


def vpush(v, x):
    if v.op == "seq" and v.a[0] is ZERO:
        return mk("agg", "array", 0, x)
    if v.op == "agg" and v.a[0] == "array":
        return mk("agg", "array", 0, *(v.a[2:] + (x,)))
    return mk("vpush", v, x)


def sort_key(ev, fs, st, guard, name):
    """canonical description of the order a sort uses"""
    if not fs:
        return mk("const", "natural")
    a, b = fresh("l"), fresh("r")
    if name.endswith("key"):
        r = pure_apply(ev, fs[0], [a], st, guard)
        return lam(r, a) if r is not None else mk("const", "opaque")
    r = pure_apply(ev, fs[0], [a, b], st, guard)
    if r is None:
        return mk("const", "opaque")
    return lam(lam(r, b), a)


def maps(ev, name, path, args, st, guard, D, I, kty="", vty=""):
    R = lambda t: (t, st)
    if name in ("new", "with_capacity", "default") and "::entry" not in path:
        return R(mk("emptymap"))
    if not args:
        return None
    x = args[0]
    if "::entry::" in path or "::Entry::" in path:
        e = x
        if not (e.op == "agg" and e.a[0] == "mapentry"):
            return None
        r, k = e.a[2:]
        m = D(r)
        h = haskey(m, k)
        if name in ("or_insert", "or_insert_with", "or_default"):
            s2 = st.copy()
            if name == "or_default":
                v = default_of(vty)
                if v.op == "app":
                    return None
            elif name == "or_insert":
                v = args[1]
            else:
                v, s2 = ev.call_closure(args[1], [], s2, guard + (not_(h),))
            ev.write_ref(r, mk("mapset", m, k, v), s2)
            return index_mut(ev, r, k, st), I.merge2(h, st, s2)
        if name == "and_modify":
            s2 = st.copy()
            _, s2 = ev.call_closure(args[1], [index_mut(ev, r, k, s2)], s2, guard + (h,))
            return e, I.merge2(h, s2, st)
        if name == "key":
            return R(k)
        return None
    m = D(x)
    tree = "btree" in path
    has = lambda k: haskey(m, k)
    if name == "entry":
        return R(mk("agg", "mapentry", 0, x, args[1]))
    if name == "insert" and len(args) == 3:
        k, v = D(args[1]), args[2]
        old = ite(has(k), I.some(proj_index(m, k)), I.NONE)
        ev.write_ref(x, mk("mapset", m, k, v), st)
        return R(old)
    if name == "get":
        k = D(args[1])
        return R(ite(has(k), I.some(mapget(m, k)), I.NONE))
    if name == "get_mut":
        k = D(args[1])
        return R(ite(has(k), I.some(index_mut(ev, x, k, st)), I.NONE))
    if name == "contains_key":
        return R(has(D(args[1])))
    if name == "remove" and len(args) == 2:
        k = D(args[1])
        ev.write_ref(x, mk("mapdel", m, k), st)
        return R(ite(has(k), I.some(mapget(m, k)), I.NONE))
    if name == "len":
        return R(maplen(m))
    if name == "is_empty":
        return R(cmp("eq", maplen(m), ZERO))
    if name == "clear":
        ev.write_ref(x, mk("emptymap"), st)
        return R(UNIT)
    if name in ("keys", "into_keys", "values", "into_values", "iter", "into_iter", "values_mut", "iter_mut") and "::set" not in path:
        return R(map_iter(ev, x, m, name, st))
    if tree:
        n = maplen(m)
        key = lambda j: nthkey(m, j)
        pair = lambda j: mk("agg", "tuple", 0, key(j), proj_index(m, key(j)))
        some = lambda t: R(ite(cmp("lt", ZERO, n), I.some(t), I.NONE))
        end = lambda: ZERO if "first" in name else sub(n, ONE)
        if name in ("first_key_value", "last_key_value"):
            return some(pair(end()))
        if name in ("pop_first", "pop_last"):
            k = key(end())
            r = pair(end())
            ev.write_ref(x, ite(cmp("lt", ZERO, n), mk("mapdel", m, k), m), st)
            return some(r)
    if name in ("iter",):
        return R(mk("iter", app("entries", m), ZERO))
    if name == "contains":
        return R(has(D(args[1])))
    if name == "range" and tree:
        b = D(args[1])
        ty = str(b.a[0]).split("::")[-1] if b.op == "agg" else ""
        n = maplen(m)
        key = lambda j: nthkey(m, j)
        ordkey = date_of if "time::date::Date" in kty else lambda k: k
        pick = lambda c: TM.first(n, lamf(lambda j: not_(c(ordkey(key(j))))))
        lo, hi = ZERO, n
        if ty in ("RangeFrom", "Range", "RangeInclusive"):
            lo = pick(lambda k: cmp("lt", k, ordkey(b.a[2])))
        if ty in ("RangeTo", "RangeToInclusive"):
            hi = pick(lambda k: cmp("lt" if ty == "RangeTo" else "le", k, ordkey(b.a[2])))
        elif ty in ("Range", "RangeInclusive"):
            hi = pick(lambda k: cmp("lt" if ty == "Range" else "le", k, ordkey(b.a[3])))
        elif ty not in ("RangeFrom", "RangeFull"):
            return None
        sel = lambda j: key(j if lo is ZERO else add(lo, j))
        return R(mk("iter", seq(hi if lo is ZERO else sub(hi, lo), lamf(lambda j: mk("agg", "tuple", 0, sel(j), proj_index(m, sel(j))))), ZERO))
    if name == "clone":
        return R(m)
    return None


def sorted_(v, key):
    """stable sort; pairs listed in the key order of a map are sorted already"""
    if v.op == "seq" and v.a[1].op == "lam":
        x = var("j?")
        e = TM.apply(v.a[1], x)
        if e.op == "agg" and e.a[0] == "tuple" and e.a[2].op == "app" and e.a[2].a[0] == "nthkey" and e.a[2].a[2] is x:
            for f in (lambda p: TM.fld(p, 0, 0, "tuple", len(e.a) - 2), lambda p: JDN(TM.fld(p, 0, 0, "tuple", len(e.a) - 2))):
                if key is ascending(f):
                    return v
    return mk("sorted", v, key)


def ascending(f):
    I = _i()
    o = lambda k: mk("agg", I.ORDERING, k)
    return lamf(lambda p: lamf(lambda q: ite(cmp("lt", f(p), f(q)), o(0), ite(cmp("eq", f(p), f(q)), o(1), o(2)))))


def map_iter(ev, x, m, kind, st):
    """iteration over a map: position j visits the j-th key of its order (the
    key order of a tree map, some fixed order of a hash map)"""
    n = maplen(m)
    key = lambda j: nthkey(m, j)
    f = {"keys": key,
         "values": lambda j: proj_index(m, key(j)),
         "iter": lambda j: mk("agg", "tuple", 0, key(j), proj_index(m, key(j))),
         "values_mut": lambda j: index_mut(ev, x, key(j), st),
         "iter_mut": lambda j: mk("agg", "tuple", 0, key(j), index_mut(ev, x, key(j), st))}[kind.replace("into_", "")]
    return mk("iter", seq(n, lamf(f)), ZERO)


def maplen(m):
    if m.op == "emptymap":
        return ZERO
    if m.op in ("withidx", "mapvals"):
        return maplen(m.a[0])
    if m.op == "ite":
        return ite(m.a[0], maplen(m.a[1]), maplen(m.a[2]))
    if m.op == "mapset":
        return ite(haskey(m.a[0], m.a[1]), maplen(m.a[0]), add(maplen(m.a[0]), ONE))
    if m.op == "mapdel":
        return ite(haskey(m.a[0], m.a[1]), sub(maplen(m.a[0]), ONE), maplen(m.a[0]))
    return app("maplen", m)


def nthkey(m, j):
    """the j-th smallest key"""
    if m.op in ("withidx", "mapvals"):
        return nthkey(m.a[0], j)
    if m.op == "ite":
        return ite(m.a[0], nthkey(m.a[1], j), nthkey(m.a[2], j))
    return app("nthkey", m, j)


def haskey(m, k):
    if m.op == "mapset":
        return or_(cmp("eq", m.a[1], k), haskey(m.a[0], k))
    if m.op == "emptymap":
        return FALSE
    if m.op == "mapdel":
        return and_(not_(cmp("eq", m.a[1], k)), haskey(m.a[0], k))
    if m.op in ("withidx", "mapvals"):
        return haskey(m.a[0], k)
    if m.op == "ite":
        return ite(m.a[0], haskey(m.a[1], k), haskey(m.a[2], k))
    if k.op == "app" and k.a[0] == "nthkey" and k.a[1] is m:
        return and_(cmp("le", ZERO, k.a[2]), cmp("lt", k.a[2], maplen(m)))
    return app("haskey", m, k)


def _app(op, *a):
    if op == "haskey":
        return haskey(*a)
    if op == "maplen":
        return maplen(*a)
    if op == "nthkey":
        return nthkey(*a)
    return mk("app", op, *a)


TM._hooks["app"] = _app


def mapget(m, k):
    return proj_index(m, k)


def month_len(m, y):
    """days in a month; m a Month term, y a year term"""
    d = discr(m, 12)
    feb = ite(leap(y), num(29), num(28))
    if isnum(d):
        k = int(d.a[0])
        return feb if k == 1 else num(30 if k in (3, 5, 8, 10) else 31)
    c30 = FALSE
    for k in (3, 5, 8, 10):
        c30 = or_(c30, cmp("eq", d, num(k)))
    return ite(cmp("eq", d, num(1)), feb, ite(c30, num(30), num(31)))


def leap(y):
    """Gregorian rule"""
    r = lambda k: cmp("eq", fn("rem_euclid", y, num(k)), ZERO)
    if isnum(y):
        v = int(y.a[0])
        return boolt(v % 4 == 0 and (v % 100 != 0 or v % 400 == 0))
    return fn("leap", y)


def date_part(name, d):
    if d.op == "ite":
        return ite(d.a[0], date_part(name, d.a[1]), date_part(name, d.a[2]))
    if d.op == "app" and d.a[0] == "mkdate":
        if name in ("year", "month", "day"):
            return d.a[{"year": 1, "month": 2, "day": 3}[name]]
    return fn("date_" + name, d)


def mkdate(y, m, d):
    """y-m-d; the date itself when the parts are those of one date"""
    if all(x.op == "fn" and x.a[0] == "date_" + n for x, n in ((y, "year"), (m, "month"), (d, "day"))):
        if y.a[1] is m.a[1] and m.a[1] is d.a[1]:
            return y.a[1]
    return mk("app", "mkdate", y, m, d)


def valid_date(y, m, d):
    """1 <= d <= days in the month (years are taken to be in range)"""
    if d is month_len(m, y):
        return TRUE
    if d.op == "ite":
        return ite(d.a[0], valid_date(y, m, d.a[1]), valid_date(y, m, d.a[2]))
    if isnum(d) and 1 <= d.a[0] <= 28:
        return TRUE
    if d.op == "fn" and d.a[0] == "date_day" and m is fn("date_month", d.a[1]) and y is fn("date_year", d.a[1]):
        return TRUE
    return and_(cmp("le", ONE, d), cmp("le", d, month_len(m, y)))


def wd_after(d, w, back=False):
    """the next (previous) occurrence of weekday w, strictly after (before) d"""
    a, b = discr(date_part("weekday", d), 7), discr(w, 7)
    k = add(fn("rem_euclid", add(sub(a, b) if back else sub(b, a), num(-1)), num(7)), ONE)
    return date_plus(d, neg(k) if back else k)


def timecrate(ev, rec, crate, name, path, args, st, D, I):
    R = lambda t: (t, st)
    if "time::" not in path and "time_core::" not in path:
        return None
    a = [D(x) for x in args]
    if "time_core::util" in path or "time::util" in path:
        if name == "is_leap_year":
            return R(leap(a[0]))
        if name == "days_in_year":
            return R(ite(leap(a[0]), num(366), num(365)))
        if name == "days_in_month":
            return R(month_len(a[0], a[1]))
        if name == "days_in_year_month":
            return R(month_len(a[1], a[0]))
    if "date::Date" in path and "time::date::Date" in path.replace("::<", "<"):
        if name in ("to_julian_day",):
            return R(date_of(a[0]))
        if name == "next_day":
            return R(I.some(date_plus(a[0], ONE)))
        if name == "previous_day":
            return R(I.some(date_plus(a[0], num(-1))))
        if name in ("year", "day", "weekday", "month", "ordinal", "iso_week"):
            return R(date_part(name, a[0]))
        if name in ("saturating_add", "saturating_sub"):
            return R(date_plus(a[0], a[1] if name.endswith("add") else neg(a[1])))
        if name in ("checked_add", "checked_sub"):
            return R(I.some(date_plus(a[0], a[1] if name.endswith("add") else neg(a[1]))))
        if name == "from_calendar_date":
            ok = valid_date(*a)
            return R(ite(ok, I.ok(mkdate(*a)), I.err(app("component_range", *a))))
        if name in ("replace_day", "replace_month", "replace_year"):
            p = [date_part(k, a[0]) for k in ("year", "month", "day")]
            p[{"replace_year": 0, "replace_month": 1, "replace_day": 2}[name]] = a[1]
            return R(ite(valid_date(*p), I.ok(mkdate(*p)), I.err(app("component_range", *p))))
        if name == "to_calendar_date":
            return R(agg("tuple", 0, *[date_part(k, a[0]) for k in ("year", "month", "day")]))
        if name in ("next_occurrence", "prev_occurrence"):
            return R(wd_after(a[0], a[1], name[0] == "p"))
    if "uration" in path:
        if name == "days":
            return R(a[0])
        if name in ("whole_days",):
            return R(a[0])
        if name in ("abs", "unsigned_abs"):
            return R(fn("abs", a[0]))
        if name == "weeks":
            return R(mul(num(7), a[0]))
        if name in ("whole_weeks",):
            return R(I.idiv(a[0], num(7)))
        if name == "as_seconds_f64":
            return R(mul(num(86400), a[0]))
        if name == "whole_seconds":
            return R(mul(num(86400), a[0]))
        if name == "is_negative":
            return R(cmp("lt", a[0], ZERO))
        if name == "is_positive":
            return R(cmp("lt", ZERO, a[0]))
        if name == "is_zero":
            return R(cmp("eq", a[0], ZERO))
    if "month::Month" in path:
        if name == "length":
            return R(month_len(a[0], a[1]))
        if name in ("next", "previous"):
            return R(app("month_" + name, a[0]))
    if "weekday::Weekday" in path and name in ("number_days_from_monday", "number_from_monday"):
        return R(add(discr(a[0], 7), num(0 if name[7] == "d" else 1)))
    return R(fn("time:" + name, *a)) if not any(x.op == "ref" for x in args) else None


def nalg(ev, name, path, args, st, guard, D, I):
    R = lambda t: (t, st)
    if name == "map" and len(args) == 2:
        x = fresh("e")
        r = pure_apply(ev, args[1], [x], st, guard)
        if r is None:
            return None
        return R(mk("app", "matmap", D(args[0]), lam(r, x)))
    if name in ("clone",):
        return R(D(args[0]))
    if name == "neg":
        return R(neg(D(args[0])))
    if name == "zeros" and len(args) == 1:
        return R(seq(D(args[0]), lamf(lambda j: ZERO)))
    if name in ("from_vec", "from_usize") and len(args) == 1:
        return R(D(args[0]))
    return None


def ndarr(ev, name, path, args, st, guard, D):
    """one-dimensional arrays of the ndarray crate"""
    R = lambda t: (t, st)
    if name == "linspace" and len(args) == 3:
        a, b, n = [D(x) for x in args]
        return R(seq(n, lamf(lambda j: add(a, div(mul(sub(b, a), j), sub(n, ONE))))))
    if name in ("view", "to_vec", "to_owned", "iter") and len(args) == 1:
        v = D(args[0])
        return R(mk("iter", v, ZERO) if name == "iter" else v)
    if name == "len" and len(args) == 1:
        return R(length(D(args[0])))
    if name == "zeros" and len(args) == 1:
        return R(seq(D(args[0]), lamf(lambda j: ZERO)))
    if name in ("par_mapv_inplace", "mapv_inplace", "mapv") and len(args) == 2:
        m = map_seq(ev, D(args[0]), args[1], st, guard)
        if m is None:
            return None
        if name == "mapv":
            return R(m)
        ev.write_ref(args[0], m, st)
        return R(UNIT)
    if name == "concatenate" and len(args) == 2:
        parts = D(args[1])
        if parts.op == "agg" and parts.a[0] == "array":
            xs = [ev.deref_val(x, st) for x in parts.a[2:]]
            r = xs[0]
            for y in xs[1:]:
                r = concat_seq(r, y)
            return R(_i().ok(r))
    if name == "slice" and len(args) == 2:
        return slice_nd(D(args[0]), D(args[1]), R)
    if name == "mul" and len(args) == 2:
        a, b = D(args[0]), D(args[1])
        return R(seq(length(a), lamf(lambda j: mul(proj_index(a, j), proj_index(b, j)))))
    if name in ("ndfft_par", "ndfft") and len(args) == 4:
        a, b, h = D(args[0]), D(args[1]), D(args[2])
        ns = [length(a), length(b)]
        if h.op == "app" and str(h.a[0]).endswith("FftHandler::new"):
            ns.append(h.a[1])
        for k in ns[1:]:
            if k is not ns[0]:
                ev.assumes.append((guard, cmp("eq", ns[0], k), "panic:transform sizes", path))
        ev.write_ref(args[1], app("dft", a), st)
        return R(UNIT)
    if name == "random_using" and len(args) == 3:
        g = D(args[2])
        ev.write_ref(args[2], app("after draws", D(args[0]), D(args[1]), g), st)
        n, d = D(args[0]), D(args[1])
        return R(seq(n, lamf(lambda j: proj_index(app("draws", d, g), j))))
    return None


def concat_seq(a, b):
    n = length(a)
    return seq(add(n, length(b)), lamf(lambda j: ite(cmp("lt", j, n), proj_index(a, j), proj_index(b, sub(j, n)))))


def slice_nd(v, info, R):
    """s![..], s![..;-1], s![a..b] with constant negative ends counted from the end"""
    if info.op != "app" or not str(info.a[0]).endswith("SliceInfo::new_unchecked"):
        return None
    arr = info.a[1]
    if arr.op != "agg" or len(arr.a) != 3:
        return None
    e = arr.a[2]
    if e.op != "app" or not str(e.a[0]).startswith("into:SliceInfoElem"):
        return None
    e = e.a[1]
    step = ONE
    if e.op == "app" and str(e.a[0]).endswith("Slice::step_by"):
        e, step = e.a[1], e.a[2]
    if e.op == "app" and str(e.a[0]).startswith("into:Slice"):
        e = e.a[1]
    n = length(v)
    if e.op != "agg":
        return None
    end = lambda x: add(n, x) if isnum(x) and x.a[0] < 0 else x
    if e.a[0].endswith("RangeFull"):
        lo, hi = ZERO, n
    elif e.a[0].endswith("::Range"):
        lo, hi = end(e.a[2]), end(e.a[3])
    elif e.a[0].endswith("RangeFrom"):
        lo, hi = end(e.a[2]), n
    elif e.a[0].endswith("RangeTo"):
        lo, hi = ZERO, end(e.a[2])
    else:
        return None
    if step is ONE:
        return R(seq(sub(hi, lo), lamf(lambda j: proj_index(v, add(lo, j)))))
    if isnum(step) and step.a[0] == -1:
        return R(seq(sub(hi, lo), lamf(lambda j: proj_index(v, sub(sub(hi, ONE), j)))))
    return None

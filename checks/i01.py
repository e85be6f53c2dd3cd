"""Interpolators: construction sorts the nodes keeping the pairs, a query returns
the node value at a node, the defining formula of the bracketing interval between
nodes and an error outside; B-splines follow the Cox-de Boor recursion with the
last non-empty knot span closed."""
from spec import *
import term as TM
import random

FLOOR = 20
CR = "RustQuant_math"
a, b, c, x, i = V("a b c x i")
RES = "core::result::Result"


def run(C):
    C.part("linear", pointwise, "LinearInterpolator")
    C.part("exponential", pointwise, "ExponentialInterpolator")
    C.part("b-spline", bspline)


def ok(t):
    return cmp("eq", discr(t, 2), num(0))


def val(t):
    return fld(t, 0, 0, RES, 1)


def by(f):
    """ascending order of the key f"""
    o = lambda k: mk("agg", "core::cmp::Ordering", k)
    return lamf(lambda p: lamf(lambda q: ite(cmp("lt", f(p), f(q)), o(0), ite(cmp("eq", f(p), f(q)), o(1), o(2)))))


def sampler(xs, ys, x):
    def f(t, seed):
        r = random.Random(seed)
        n = 2 + seed % 4
        v = sorted(r.sample(range(1, 40), n))
        if t is xs:
            return [TMV(k) for k in v]
        if t is ys:
            return [TMV(r.randint(1, 30)) for _ in v]
        if t is x:
            q = r.randint(0, 3)
            return TMV(r.choice(v) if q == 0 else r.randint(v[0] * 2, v[-1] * 2) / 2 if q < 3 else r.randint(-5, 45))
        return None
    return f


def TMV(k):
    import mpmath
    return mpmath.mpf(k)


def knots(kn):
    """ascending knots with repeated ends, the point often a knot"""
    def f(t, seed):
        r = random.Random(seed)
        v = sorted(r.sample(range(1, 20), 3))
        v = [v[0]] * r.randint(0, 2) + v + [v[-1]] * r.randint(0, 2)
        j = r.randint(0, len(v) - 2)
        if t is kn:
            return [TMV(k) for k in v]
        if t is x:
            return TMV(r.choice(v) if r.random() < 0.6 else r.randint(0, 42) / 2)
        return j if t is i else 0 if t is c else None
    return f


def pointwise(C, ty):
    S = C.S
    g = lambda t, f: S.get(t, ty, f, CR)
    n = ty[:3].lower()
    it = C.method(ty, "new", None, CR)
    r = C.ev(it, [a, b])
    if r:
        same = [eq(LEN(a), LEN(b))]
        C.eq(n + " new: accepts exactly equal lengths", ok(r.ret), eq(LEN(a), LEN(b)), it)
        s = mk("sorted", SEQ(LEN(a), lambda j: tup(a[j], b[j])), by(lambda p: fld(p, 0, 0, "tuple", 2)))
        for f, k in (("xs", 0), ("ys", 1)):
            v = g(val(r.ret), f)
            C.eq("%s new: %s length" % (n, f), LEN(v), LEN(a), it, same)
            inr = [cmp("le", num(0), i), cmp("lt", i, LEN(a))]
            C.eq("%s new: %s in ascending order of the nodes" % (n, f), v[i], fld(s[i], 0, k, "tuple", 2), it, same + inr)
    xs, ys = g(a, "xs"), g(a, "ys")
    L = LEN(xs)
    full = [cmp("lt", num(0), L)]
    it = C.method(ty, "range", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq(n + " range: first", fld(r.ret, 0, 0, "tuple", 2), xs[0], it, full)
        C.eq(n + " range: last", fld(r.ret, 0, 1, "tuple", 2), xs[L - 1], it, full)
    it = C.method(ty, "add_point", None, CR)
    p = tup(x, c)
    r = C.ev(it, [a, p], state={a: a})
    if r:
        at = TM.first(L, lamf(lambda j: cmp("le", x, xs[j])))
        C.eq(n + " add: node in order", g(r.final(a), "xs"), mk("vinsert", xs, at, x), it, rule="state")
        C.eq(n + " add: value beside its node", g(r.final(a), "ys"), mk("vinsert", ys, at, c), it, rule="state")
    it = C.method(ty, "interpolate", None, CR)
    r = C.ev(it, [a, x])
    if r:
        sm = sampler(xs, ys, x)
        out = Or(x < xs[0], x > xs[L - 1])
        C.eq(n + ": refuses exactly outside the nodes", If(ok(r.ret), 1, 0), If(out, 0, 1), it, full, sampler=sm)
        hit = TM.first(L, lamf(lambda j: eq(xs[j], x)))
        inside = [cmp("le", xs[0], x), cmp("le", x, xs[L - 1])]
        C.eq(n + ": node value at a node", val(r.ret), ys[hit], it, full + inside + [cmp("lt", hit, L)], sampler=sm)
        k = TM.first(L, lamf(lambda j: cmp("le", x, xs[j])))
        x0, x1, y0, y1 = xs[k - 1], xs[k], ys[k - 1], ys[k]
        w = (x - x0) / (x1 - x0)
        want = y0 + (y1 - y0) * w if n == "lin" else y1 ** w * y0 ** ((x1 - x) / (x1 - x0))
        C.eq(n + ": value between two nodes", val(r.ret), want, it, full + inside + [cmp("le", L, hit)], sampler=sm,
             pos=lambda t: t.op == "idx" and t.a[0] is ys)


def bspline(C):
    ty = "BSplineInterpolator"
    S = C.S
    g = lambda t, f: S.get(t, ty, f, CR)
    it = C.method(ty, "new", None, CR)
    r = C.ev(it, [a, b, c])
    if r:
        C.eq("spline new: knots = controls + degree + 1", ok(r.ret), eq(LEN(a), LEN(b) + c + 1), it)
        v = val(r.ret)
        ass = [eq(LEN(a), LEN(b) + c + 1)]
        C.eq("spline new: knots ascending", g(v, "knots")[i], mk("sorted", a, by(lambda p: p))[i], it, ass)
        C.eq("spline new: controls", g(v, "control_points")[i], b[i], it, ass)
        C.eq("spline new: degree", g(v, "degree"), c, it, ass)
    kn, cp, dg = g(a, "knots"), g(a, "control_points"), g(a, "degree")
    C.dom = [eq(LEN(kn), LEN(cp) + dg + 1), cmp("lt", i + c + 1, LEN(kn))]
    n = LEN(kn)
    it = C.method(ty, "range", None, CR)
    r = C.ev(it, [a])
    if r:
        C.eq("spline range: first", fld(r.ret, 0, 0, "tuple", 2), kn[0], it, [cmp("lt", num(0), n)])
        C.eq("spline range: last", fld(r.ret, 0, 1, "tuple", 2), kn[n - 1], it, [cmp("lt", num(0), n)])
    it = C.method(ty, "add_point", None, CR)
    r = C.ev(it, [a, tup(x, c)], state={a: a})
    if r:
        at = TM.first(n, lamf(lambda j: cmp("le", x, kn[j])))
        C.eq("spline add: knot in order", g(r.final(a), "knots"), mk("vinsert", kn, at, x), it, rule="state")
        C.eq("spline add: one more control", LEN(g(r.final(a), "control_points")), LEN(cp) + 1, it, rule="state")
    basis = C.method(ty, "cox_de_boor", None, CR)
    op = lambda item: basis is not None and item.did == basis.did
    N = lambda x, j, p: TM.app("fn:" + basis.did, a, x, lift(j), lift(p))
    it = basis
    if it:
        r = C.ev(it, [a, x, i, c], opaque=op)
        if r:
            t0, t1 = kn[i], kn[i + 1]
            span = And(cmp("le", t0, x), Or(x < t1, And(t0 < t1, eq(x, t1), eq(t1, kn[n - 1]))))
            C.eq("spline basis: degree 0 is the indicator of its span", r.ret, If(span, 1, 0), it, [eq(c, 0)], ints=[i, c, n], sampler=knots(kn))
            q = lambda u, v: If(eq(v, 0), 0, u / v)
            rec = q(x - t0, kn[i + c] - t0) * N(x, i, c - 1) + q(kn[i + c + 1] - x, kn[i + c + 1] - t1) * N(x, i + 1, c - 1)
            C.eq("spline basis: recursion in the degree", r.ret, rec, it, [cmp("lt", num(0), c)], ints=[i, c, n])
    it = C.method(ty, "interpolate", None, CR)
    r = C.ev(it, [a, x], opaque=op)
    if r:
        inside = And(cmp("le", kn[dg], x), cmp("le", x, kn[n - dg - 1]))
        C.eq("spline: refuses exactly outside its domain", If(ok(r.ret), 1, 0), If(inside, 1, 0), it, ints=[dg, n])
        C.eq("spline: sum of controls times basis", val(r.ret), SUM(LEN(cp), lambda j: cp[j] * N(x, j, dg)), it, [inside], ints=[dg, n])


"""Numerical integration: the sum the integrator computes is the hundred-point
tanh-sinh rule, mapped from [-1, 1] onto the interval, with every node and weight
read from the compiled constants and compared with the definition."""
from spec import *
import term as TM
import norm
import math
from fractions import Fraction

FLOOR = 60
CR = "RustQuant_math"
f, a, b = V("f a b")
N = 100
H = Fraction(124, 10) / (N - 1)


def rule(i):
    """node and weight of the rule, from their definition"""
    t = float((Fraction(i) - Fraction(N - 1, 2)) * H)
    s = math.pi / 2 * math.sinh(t)
    logcosh = abs(s) + math.log1p(math.exp(-2 * abs(s))) - math.log(2)
    return math.tanh(s), float(H) * math.pi / 2 * math.exp(math.log(math.cosh(t)) - 2 * logcosh)


def number(t):
    r = norm.Normal().rat(t, norm.Ctx())
    if not norm.isconst(r):
        raise SpecError("not a constant")
    return Fraction(norm.cval(r))


def nearest(A):
    x, w = min((rule(i) for i in range(N)), key=lambda q: abs(q[0] - A))
    return w


def unrolled(t):
    while True:
        s = [q for q in TM.subterms(t) if q.op == "SUM" and TM.isnum(q.a[0])]
        if not s:
            return t
        q = s[0]
        out = num(0)
        for i in range(int(q.a[0].a[0])):
            out = out + TM.apply(q.a[1], num(i))
        t = TM.subst(t, {q: out})


def run(C):
    it = C.free("integrate", "integration")
    r = it and C.ev(it, [f, a, b])
    if r:
        C.part("rule", table, it, unrolled(r.ret))


def table(C, it, t):
    calls = {s for s in TM.subterms(t) if s.op == "app" and s.a[0] == "call" and s.a[1] is f}
    if not calls:
        raise SpecError("no evaluation of the function")
    c, d = (b - a) / 2, (a + b) / 2
    ites = [s for s in TM.subterms(t) if s.op == "ite"]
    at1 = {a: num(-1), b: num(1)}
    pts, m = [], {}
    for y in calls:
        gs = [s for s in ites if y in set(TM.subterms(s))]
        A = number(TM.subst(y.a[2], at1))
        g = max(gs, key=lambda s: len(set(TM.subterms(s)))) if gs else y
        if len({q for q in TM.subterms(g) if q in calls}) != 1:
            raise SpecError("one evaluation of the function per term expected")
        pts.append((A, y, g))
    pts.sort(key=lambda p: p[0])
    for i, (A, y, g) in enumerate(pts):
        v = var("y")
        C.eq("value %d counts unless it is not finite" % i, TM.subst(g, {y: v}), If(app("is_finite", v), v, num(0)), it, rule="guard")
        C.eq("node %d is placed linearly in the interval" % i, y.a[2], c * num(A) + d, it)
        m[g] = var("g%d" % i)
    s = TM.subst(t, m)
    zero = lambda skip: {**at1, **{m[g]: num(0) for k, (A, y, g) in enumerate(pts) if k != skip}}
    W = []
    for i, (A, y, g) in enumerate(pts):
        z = zero(i)
        z[m[g]] = num(1)
        try:
            W.append(number(TM.subst(s, z)))
        except (SpecError, ZeroDivisionError):
            # not linear in the values: compared with the rule as a whole
            want = num(0)
            for j, (B, _, h) in enumerate(pts):
                want = want + c * num(Fraction(nearest(B))) * m[h]
            C.eq("the integral is the weighted sum, scaled by the interval", s, want, it, pos=list(m.values()))
            return
    want = num(0)
    for w, (A, y, g) in zip(W, pts):
        want = want + c * num(w) * m[g]
    C.eq("the integral is the weighted sum, scaled by the interval", s, want, it)
    # nodes that round to an end of the interval are taken together
    end = lambda x: abs(x) > 1 - 2e-15
    groups = {}
    for i in range(N):
        x, w = rule(i)
        key = math.copysign(1, x) if end(x) else x
        groups[key] = groups.get(key, 0.0) + w
    used = []
    for x, w in sorted(groups.items()):
        near = [(A, q) for (A, y, g), q in zip(pts, W) if (end(A) and A * x > 0 if end(x) else abs(A - Fraction(x)) < Fraction(1, 10 ** 15))]
        used += [A for A, q in near]
        C.fact("node near %.16g is the rule's" % x, bool(near), it, "no node within 1e-15 of %r" % x, rule="constant table")
        got = float(sum(q for A, q in near))
        C.fact("weight near %.16g is the rule's" % x, abs(got - w) <= 1e-14 * w, it, "weight %r, the rule's is %r" % (got, w), rule="constant table")
    extra = [float(A) for A, y, g in pts if A not in used]
    C.fact("no node outside the rule", not extra, it, "extra nodes %s" % extra[:3], rule="constant table")
    for k in range(0, 11):
        s = sum(w * A ** k for w, (A, y, g) in zip(W, pts))
        e = Fraction(2, k + 1) if k % 2 == 0 else Fraction(0)
        C.fact("integrates x^%d over [-1, 1]" % k, abs(float(s - e)) < 1e-12, it, "%r, not %r" % (float(s), float(e)), rule="exact sum over the constant table")

"""Gradient descent: the iterates follow the negative gradient of the given function,
the search ends only where the gradient vanishes or the budget is spent, and the
reported minimum belongs to the reported minimizer."""
from spec import *
import term as TM

FLOOR = 10
CR = "RustQuant_math"
x, f, x0, vb = V("x f x0 vb")
k = var("n?k")


def run(C):
    C.part("constructor", constructor)
    C.part("stationarity", stationarity)
    C.part("descent", descent)


def constructor(C):
    it = C.method("GradientDescent", "new", None, CR)
    lr, n, tol = V("lr n?max tol")
    r = it and C.ev(it, [lr, n, tol])
    if r:
        has, t = cmp("eq", discr(tol, 2), num(1)), fld(tol, 1, 0, "core::option::Option", 1)
        C.eq("refuses a tolerance that is not positive", If(runs(r), 1, 0), If(Or(Not(has), cmp("lt", num(0), t)), 1, 0), it, rule="guard")
        C.dom = [Or(Not(has), cmp("lt", num(0), t))]
        for nm, v in (("learning_rate", lr), ("max_iterations", n), ("tolerance", tol)):
            C.eq("keeps " + nm, C.S.get(r.ret, "GradientDescent", nm, CR), v, it)


def stationarity(C):
    it = C.method("GradientDescent", "is_stationary", None, CR)
    g, tol = V("g tol")
    r = it and C.ev(it, [g, tol])
    if r:
        C.eq("stationary when the gradient is shorter than the tolerance", If(r.ret, 1, 0), If(cmp("lt", powt(norm2(g), num("1/2")), tol), 1, 0), it)


def norm2(g):
    return SUM(LEN(g), lambda i: g[i] * g[i])


def lengths(t, n0):
    """the gradient has one entry per variable"""
    for _ in range(12):
        m = {}
        for s in TM.subterms(t):
            if s.op == "len" and s.a[0].op == "app" and s.a[0].a[0].endswith("::wrt"):
                v = s.a[0].a[2]
                if v.op == "app" and v.a[0].endswith("::vars"):
                    m[s] = LEN(v.a[2])
            elif s.op == "len" and s.a[0].op == "rec":
                m[s] = n0
        if not m:
            break
        t = TM.subst(t, m)
    return t


def descent(C):
    it = C.method("GradientDescent", "optimize", None, CR)
    r = it and C.ev(it, [x, f, x0, vb], opaque=lambda t: t.name in ("vars", "accumulate", "wrt"))
    if not r:
        return
    calls = {}
    for c in r.calls:
        for nm in ("vars", "accumulate", "wrt"):
            if c[1].endswith("::" + nm):
                calls.setdefault(nm, c)
    if set(calls) != {"vars", "accumulate", "wrt"}:
        raise SpecError("gradient computation not found")
    graph = calls["vars"][2][0]
    vs = lambda p: app(calls["vars"][1], graph, p)
    at = lambda p: app("call", f, vs(p))
    G = lambda p: app(calls["wrt"][1], app(calls["accumulate"][1], at(p)), vs(p))
    g = lambda nm: C.S.get(x, "GradientDescent", nm, CR)
    out = lambda nm: C.S.get(r.ret, "GradientDescentResult", nm, CR)
    lr, n, tol = g("learning_rate"), g("max_iterations"), g("tolerance")
    eps = If(cmp("eq", discr(tol, 2), num(0)), powt(num("2.220446049250313e-16"), num("1/2")), fld(tol, 1, 0, "core::option::Option", 1))
    n0 = LEN(x0)
    whole = lengths(r.ret, n0)
    steps = {s.a[1] for s in TM.subterms(whole) if s.op == "rec" and len(s.a) == 3 and s.a[2] is x0}
    if len(steps) != 1:
        raise SpecError("one sequence of iterates expected")
    step = steps.pop()
    p = var("p")
    p1 = TM.apply(TM.apply(step, p), var("n?j")).a[2]
    fix = lambda t: TM.subst(t, {LEN(G(p)): LEN(p)})
    C.eq("a step moves against the gradient", fix(p1[k]), p[k] - lr * G(p)[k], it, [cmp("le", num(0), k), cmp("lt", k, LEN(p))])
    C.eq("a step keeps the number of coordinates", fix(LEN(p1)), LEN(p), it)
    R = lambda j: mk("rec", j, step, x0)
    flat = lambda p: cmp("lt", powt(SUM(n0, lambda i: G(p)[i] * G(p)[i]), num("1/2")), eps)
    stop = TM.lamf(lambda j: flat(R(j)))
    any_, fst = TM._hooks["exists"](n, stop), TM.first(n, stop)
    q = lambda t: lengths(t, n0)
    C.eq("a stationary point ends the search, otherwise the budget does", q(out("iterations")), q(If(any_, fst + 1, n)), it, [cmp("le", num(0), n)], ints=lambda t: t is n)
    C.eq("the minimizer is the last iterate of x - rate * gradient", q(out("minimizer")[k]), q(If(any_, R(fst), R(n))[k]), it, [cmp("le", num(0), k), cmp("lt", k, n0)])
    C.eq("one coordinate per coordinate of the start", q(LEN(out("minimizer"))), n0, it)
    val = lambda v: C.S.get(v, "Variable", "value", "RustQuant_autodiff")
    C.eq("the minimum is the function at the minimizer", out("minimum"), val(at(out("minimizer"))), it)

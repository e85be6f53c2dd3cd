"""Activation functions: one real function behind the plain, the differentiable
and the vector version of each name."""
from spec import *
import term as TM
import adlib

FLOOR = 20
CR = "RustQuant_ml"
x = var("x")
two = lift(2)
REF = {
    "sigmoid": lambda x: 1 / (1 + exp(-x)),
    "logistic": lambda x: 1 / (1 + exp(-x)),
    "identity": lambda x: x,
    "relu": lambda x: If(cmp("lt", num(0), x), x, 0),
    "gelu": lambda x: x * (1 + fn("erf", x / sqrt(two))) / 2,
    "tanh": lambda x: fn("tanh", x),
    "softplus": lambda x: ln(1 + exp(x)),
    "gaussian": lambda x: exp(-x ** 2),
}


def run(C):
    C.part("plain", plain)
    C.part("vector", vector)
    C.part("differentiable", variable)


def each(C, ty):
    for n in REF:
        it = C.method(ty, n, "ActivationFunction", CR)
        if it:
            yield n, it


def plain(C):
    for n, it in each(C, "f64"):
        r = C.ev(it, [x])
        if r:
            C.eq(n, r.ret, REF[n](x), it)


def vector(C):
    for n, it in each(C, "Matrix"):
        r = C.ev(it, [x])
        if not r:
            continue
        j = var("j")
        t = r.ret
        while t.op == "app" and t.a[0] == "matmap":
            inner, t = t.a[2], t.a[1]
            j = TM.subst(TM.apply(inner, var("j")), {}) if j is var("j") else TM.subst(j, {var("j"): TM.apply(inner, var("j"))})
        if t is not x:
            C.eq("vector %s: elementwise" % n, t, x, it)
            continue
        C.eq("vector %s: each element" % n, j, REF[n](var("j")), it)


def variable(C):
    for n, it in each(C, "Variable"):
        args, vals = adlib.build(C, "v")
        v = vals[0]
        want = REF[n](v)
        for tp in adlib.tapes(C, it, args):
            w = " when %s" % " and ".join(TM.show(c) for c in tp.under) if tp.under else ""
            dom = ([ne(v, 0)] if n == "relu" else []) + tp.under
            C.eq("differentiable %s: value%s" % (n, w), C.S.get(tp.ret, "Variable", "value", adlib.CR), want, it, tp.under)
            idx = C.S.get(tp.ret, "Variable", "index", adlib.CR)
            if n == "identity":
                C.eq("differentiable identity: the variable itself" + w, idx, var("a.index"), it, tp.under)
                continue
            d = tp.total(C, idx, var("a.index"))
            if d is None:
                C.undecided("differentiable %s: derivative%s" % (n, w), it, "recorded vertices not in closed form")
                continue
            C.eq("differentiable %s: recorded derivative%s" % (n, w), d, norm_diff(want, v, n), it, dom)


def norm_diff(t, v, n):
    import norm
    return If(cmp("lt", num(0), v), 1, 0) if n == "relu" else norm.diff(t, v)

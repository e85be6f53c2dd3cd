"""Distributions are constructed with exactly the parameters given, for every valid
parameter, and refuse parameters no such distribution has."""
from spec import *
import dlib
import term as TM

FLOOR = 25
CR = dlib.CR
a, b, c = V("a b c")
n = var("n")

# name: arguments, fields, valid, (what, invalid)
NEW = {
    "Bernoulli": ([a], dict(p=a), [num(0) <= a, a <= 1], [("above one", a > 1), ("negative", a < 0)]),
    "Binomial": ([n, a], dict(n=n, p=a), [num(0) <= a, a <= 1, n >= 0], [("probability above one", a > 1), ("negative probability", a < 0)]),
    "ChiSquared": ([n], dict(k=n), [n >= 1], [("no degrees of freedom", eq(n, num(0)))]),
    "Exponential": ([a], dict([("lambda", a)]), [a > 0], [("rate not positive", a <= 0)]),
    "Gamma": ([a, b], dict(alpha=a, beta=b), [a > 0, b > 0], [("shape not positive", a <= 0), ("rate not positive", b <= 0)]),
    "Gaussian": ([a, b], dict(mean=a, variance=b), [b > 0], [("variance negative", b < 0)]),
    "Poisson": ([a], dict([("lambda", a)]), [a > 0], [("rate not positive", a <= 0)]),
}


def run(C):
    for nm in NEW:
        C.part(nm, one, nm)
    for cls in ("Continuous", "Discrete"):
        C.part("Uniform " + cls, uniform, cls)


def one(C, nm):
    args, fields, ok, bad = NEW[nm]
    it = C.method(nm, "new", None, CR)
    r = it and C.ev(it, args)
    if r:
        C.prove(nm + ": every valid parameter is accepted", runs(r), it, ok, ints=[n])
        for f, v in fields.items():
            C.eq("%s: %s" % (nm, f), C.S.get(r.ret, nm, f, CR), v, it, ok, ints=[n])
        for what, x in bad:
            C.eq("%s: %s is refused" % (nm, what), If(runs(r), 1, 0), 0, it, [x] + ([n >= 0] if n in args else []), ints=[n], rule="guard")
    for d in C.F.method(nm, "default", "Default", CR):
        q = C.ev(d, [])
        if q:
            m = {x: C.S.get(q.ret, nm, f, CR) for f, x in fields.items()}
            C.prove(nm + ": the default is valid", And(*[TM.subst(x, m) for x in ok]), d)


def uniform(C, cls):
    it = C.method("Uniform", "new", None, CR)
    k = C.S.variant("DistributionClass", cls, crate=CR)
    r = it and C.ev(it, [a, b, k])
    if not r:
        return
    tag = "Uniform, %s: " % cls.lower()
    C.prove(tag + "every interval is accepted", runs(r), it, [a <= b])
    C.eq(tag + "a reversed interval is refused", If(runs(r), 1, 0), 0, it, [b < a], rule="guard")
    end = (lambda x: fn("round", x)) if cls == "Discrete" else (lambda x: x)
    C.eq(tag + "lower end", C.S.get(r.ret, "Uniform", "a", CR), end(a), it, [a <= b])
    C.eq(tag + "upper end", C.S.get(r.ret, "Uniform", "b", CR), end(b), it, [a <= b])
    C.eq(tag + "kind", If(eq(C.S.get(r.ret, "Uniform", "class", CR), k), 1, 0), 1, it, [a <= b])

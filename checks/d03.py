"""Every sample() is value-numbered: the draws are uninterpreted operations of
the random library. Required: the sampler is built from this distribution's own
parameters, each element of the result is one draw unchanged (integer-valued
draws may be converted to a number), and the result has the requested length."""
from spec import *
from dlib import *
import term as TM

FLOOR = 20
ROOT = {"Poisson": [LAM], "Binomial": [NN, PR], "Exponential": [LAM], "Gamma": [AL, 1 / BE], "ChiSquared": [KN], "Bernoulli": [PR],
        "Gaussian": [MU, sqrt(VAR)]}
LIB = {"Poisson": "Poisson", "Binomial": "Binomial", "Exponential": "Exp", "Gamma": "Gamma", "ChiSquared": "ChiSquared",
       "Bernoulli": "Bernoulli", "Gaussian": "Normal", "Uniform": "Uniform"}
INTEGRAL = {"Poisson", "Binomial"}


def run(C):
    for n in ROOT:
        C.part(n, one, n, None)
    for cls in ("Continuous", "Discrete"):
        C.part("Uniform " + cls, one, "Uniform", cls)


def isdraw(t):
    return t.op == "app" and isinstance(t.a[0], str) and t.a[0].endswith("::sample") and not t.a[0].startswith("mut:")


def one(C, name, cls):
    d = dist(C, name, cls)
    cnt = var("count")
    it = C.method(name, "sample", "Distribution", CR)
    r = C.ev(it, [d, cnt])
    if r is None:
        return
    nm = name + (" " + cls.lower() if cls else "")
    C.dom = [1 <= cnt]
    dom = DISTS[name][1] if name in DISTS else [A_ < B_]
    ints = [NN, KN, A_, B_] if cls == "Discrete" or name in ("Binomial", "ChiSquared") else []
    t = r.ret
    draws = {x for x in subterms(t) if isdraw(x)}
    if not draws:
        return C.undecided(nm, it, "no draw of the random library found")
    ctor = None
    for x in draws:
        for y in subterms(x.a[1]):
            if y.op == "app" and isinstance(y.a[0], str) and "::new" in y.a[0]:
                ctor = y
    if ctor is None or ("::%s::" % LIB[name]) not in ctor.a[0]:
        return C.undecided(nm + " sampler", it, "sampler is built by %s" % (ctor.a[0] if ctor is not None else "?"))
    args = list(ctor.a[1:])
    if name == "Uniform":
        incl = ctor.a[0].endswith("new_inclusive")
        if cls == "Continuous":
            want = [A_, B_]
        elif incl:
            want = [A_, B_]
        else:
            want = [A_, B_ + 1]
    else:
        want = ROOT[name]
    for i, (g, w) in enumerate(zip(args, want)):
        C.eq("%s sampler parameter %d" % (nm, i), g, w, it, dom, pos=[LAM, AL, BE, VAR], ints=ints, rule="sampler parameters")
    # the elements: what is appended or mapped
    els, lens = [], []
    for x in subterms(t):
        if x.op == "rec":
            lens.append(x.a[0])
        if x.op == "vpush" and any(isdraw(y) for y in subterms(x.a[1])):
            els.append(x.a[1])
        if x.op == "seq":
            b = TM.apply(x.a[1], fresh("i"))
            if any(isdraw(y) for y in subterms(b)):
                els.append(b)
                lens.append(x.a[0])
    if not els:
        return C.undecided(nm + " elements", it, "the construction of the result is not recognised")
    u = var("draw")
    for e in els:
        ds = [y for y in subterms(e) if isdraw(y)]
        e2 = TM.subst(e, {y: u for y in ds})
        if cls == "Discrete" and not incl:
            C.eq(nm + " element is the integer part of the draw", e2, fn("floor", u), it, [], rule="elements")
        elif name == "Bernoulli":
            C.eq(nm + " element is the draw", e2, If(u, 1, 0), it, rule="elements")
        else:
            C.eq(nm + " element is the draw", e2, u, it, [u >= 0] if name in INTEGRAL else [],
                 ints=[u] if name in INTEGRAL or cls == "Discrete" else [], rule="elements")
    for l in lens:
        C.eq(nm + " sample size", l, cnt, it, [cnt > 0], ints=[cnt], rule="length")

"""Mean, variance, skewness and excess kurtosis are compared with the cumulants
obtained by differentiating the logarithm of the code's own moment generating
function at 0; the characteristic function with the generating function at i t;
entropy, median and mode with the family's. All are value-numbered with symbolic
parameters."""
from spec import *
from dlib import *
import norm
import term as TM

FLOOR = 45
T = var("t")


def run(C):
    for n in DISTS:
        C.part(n, moments, n, None, DISTS[n][1], DISTS[n][2])
    C.part("uniform", uniform)
    C.part("other", other)


def moments(C, name, cls, dom, ints):
    d = dist(C, name, cls)
    im, M = m(C, d, "mgf", [T])
    if M is None:
        return
    small = {"Gamma": [T < BE], "ChiSquared": [T < Fr(1, 2)], "Exponential": [T < LAM]}.get(name, [])
    it, m0 = m(C, d, "mgf", [num(0)])
    C.eq(name + " mgf(0) = 1", m0, num(1), it, dom, ints=ints, rule="generating function")
    # raw moments of the code's own generating function
    ds = [M]
    for _ in range(4):
        ds.append(norm.diff(ds[-1], T))
    r = [TM.subst(x, {T: num(0)}) for x in ds]
    k1 = r[1]
    k2 = r[2] - r[1] * r[1]
    k3 = r[3] - 3 * r[2] * r[1] + 2 * r[1] ** 3
    k4 = r[4] - 4 * r[3] * r[1] - 3 * r[2] ** 2 + 12 * r[2] * r[1] ** 2 - 6 * r[1] ** 4
    vals = {}
    for nm in ("mean", "variance", "skewness", "kurtosis"):
        it, v = m(C, d, nm, [])
        vals[nm] = v
    it = lambda nm: C.method(name, nm, "Distribution", CR)
    if vals["mean"] is not None:
        C.eq(name + " mean is the first cumulant", vals["mean"], k1, it("mean"), dom, ints=ints, rule="moments")
    v = vals["variance"]
    if v is None:
        return
    C.eq(name + " variance is the second cumulant", v, k2, it("variance"), dom, ints=ints, rule="moments")
    if vals["skewness"] is not None:
        C.eq(name + " skewness", vals["skewness"] * v * sqrt(v), k3, it("skewness"), dom, pos=[LAM, AL, BE, VAR, PR], ints=ints, rule="moments")
    if vals["kurtosis"] is not None:
        C.eq(name + " excess kurtosis", vals["kurtosis"] * v * v, k4, it("kurtosis"), dom, ints=ints, rule="moments")
    ic, c = m(C, d, "cf", [T])
    if c is not None:
        C.eq(name + " cf(t) = mgf(i t)", c, TM.subst(M, {T: fn("I") * T}), ic, dom, ints=ints, rule="generating function")


def uniform(C):
    I = fn("I")
    for cls in ("Continuous", "Discrete"):
        d = dist(C, "Uniform", cls)
        n = (B_ - A_ + 1) if cls == "Discrete" else (B_ - A_)
        dom = [A_ < B_]
        nm = "Uniform %s " % cls.lower()
        ints = [A_, B_] if cls == "Discrete" else []
        if cls == "Discrete":
            var_, ku = (n * n - 1) / 12, -Fr(6, 5) * (n * n + 1) / (n * n - 1)
            g = lambda s: (exp(s * A_) - exp(s * (B_ + 1))) / (n * (1 - exp(s)))
        else:
            var_, ku = n * n / 12, lift(Fr(-6, 5))
            g = lambda s: (exp(s * B_) - exp(s * A_)) / (s * n)
        for f, w in (("mean", (A_ + B_) / 2), ("variance", var_), ("skewness", num(0)), ("kurtosis", ku), ("median", (A_ + B_) / 2), ("entropy", ln(n))):
            it, v = m(C, d, f, [])
            if v is not None:
                C.eq(nm + f, v, w, it, dom, ints=ints, rule="moments")
        it, v = m(C, d, "mgf", [T])
        if v is not None:
            C.eq(nm + "mgf", v, g(T), it, dom + [ne(T, 0)], ints=ints, rule="generating function")
        it, v = m(C, d, "cf", [T])
        if v is not None:
            C.eq(nm + "cf", v, g(I * T), it, dom + [ne(T, 0)], ints=ints, rule="generating function")
        for f in ("mgf", "cf"):
            it, v = m(C, d, f, [num(0)])
            if v is not None:
                C.eq(nm + f + " at 0 is 1", v, num(1), it, dom, ints=ints, rule="generating function")
    it, v = m(C, dist(C, "Uniform", "Continuous"), "mode", [])


def other(C):
    E = exp(num(1))
    fl = lambda x: fn("floor", x)
    spec = {
        "Bernoulli": [("entropy", -(1 - PR) * ln(1 - PR) - PR * ln(PR), []),
                      ("median", If(PR < Fr(1, 2), 0, 1), [ne(PR, Fr(1, 2))]), ("mode", If(PR <= Fr(1, 2), 0, 1), [ne(PR, Fr(1, 2))])],
        "Binomial": [("mode", vmin(fl((NN + 1) * PR), NN), [])],
        "ChiSquared": [("mode", vmax(KN - 2, 0), []), ("entropy", KN / 2 + ln(2 * fn("gamma", KN / 2)) + (1 - KN / 2) * fn("digamma", KN / 2), [])],
        "Exponential": [("median", ln(num(2)) / LAM, []), ("mode", num(0), []), ("entropy", 1 - ln(LAM), [])],
        "Gamma": [("mode", If(AL >= 1, (AL - 1) / BE, 0), [])],
        "Gaussian": [("median", MU, []), ("mode", MU, []), ("entropy", (1 + ln(2 * PI * VAR)) / 2, [])],
        "Poisson": [("mode", fl(LAM), [])],
    }
    for n, xs in spec.items():
        for f, w, extra in xs:
            it, v = m(C, dist(C, n), f, [])
            if v is not None:
                C.eq("%s %s" % (n, f), v, w, it, DISTS[n][1] + extra, ints=DISTS[n][2], rule="summary")

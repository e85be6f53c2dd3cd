"""Shared by the distribution checks."""
from spec import *

CR = "RustQuant_math"
LAM, MU, VAR, AL, BE, PR, A_, B_, X = V("lambda mu var alpha beta p a b x")
KN, NN = V("k n")

# name -> (fields, positivity assumptions, integer parameters)
DISTS = {
    "Bernoulli": (dict(p=PR), [PR > 0, PR < 1], []),
    "Binomial": (dict(n=NN, p=PR), [PR > 0, PR < 1, NN >= 1], [NN]),
    "ChiSquared": (dict(k=KN), [KN >= 1], [KN]),
    "Exponential": (dict([("lambda", LAM)]), [LAM > 0], []),
    "Gamma": (dict(alpha=AL, beta=BE), [AL > 0, BE > 0], []),
    "Gaussian": (dict(mean=MU, variance=VAR), [VAR > 0], []),
    "Poisson": (dict([("lambda", LAM)]), [LAM > 0], []),
}


def dist(C, name, cls=None):
    if name == "Uniform":
        return C.S.make("Uniform", CR, a=A_, b=B_, **{"class": C.S.variant("DistributionClass", cls, crate=CR)})
    return C.S.make(name, CR, **DISTS[name][0])


def m(C, d, name, args):
    it = C.method(d.a[0].split("::")[-1], name, "Distribution", CR)
    r = C.ev(it, [d] + args)
    return it, (r.ret if r is not None else None)

"""Nelson-Siegel-Svensson: spot, instantaneous forward and discount factor are
value-numbered as functions of the time to the date; the forward must be the
derivative of time x spot, the discount factor exp(-spot time), and the spot the
model's published loadings."""
from slib import *
import norm

FLOOR = 4
TAU = var("tau")


def run(C):
    C.part("curve", nss)


def rate(C, name, me, d):
    it = C.method("NelsonSiegelSvensson", name, "CurveModel", CR)
    r = C.ev(it, [me, d])
    if r is None:
        return it, None
    jd = [s for s in subterms(r.ret) if s.op in ("app", "fn") and str(s.a[0]) == "jdn" and any(x is d for x in subterms(s))]
    now = [s for s in subterms(r.ret) if s.op in ("app", "fn") and str(s.a[0]) == "jdn" and not any(x is d for x in subterms(s))]
    if len(set(jd)) != 1 or len(set(now)) != 1:
        C.undecided(name, it, "not a function of one time difference")
        return it, None
    return it, TM.subst(r.ret, {jd[0]: now[0] + TAU * Fr(1461, 4)})


def nss(C):
    d = var("d")
    b0, b1, b2, b3, l1, l2 = P = V("beta0 beta1 beta2 beta3 lambda1 lambda2")
    it = C.method("NelsonSiegelSvensson", "new", None, CR)
    me = C.ev(it, list(P))
    if me is None:
        return
    me = me.ret
    dom = [0 < TAU, 0 < l1, 0 < l2]
    its, s = rate(C, "spot_rate", me, d)
    itf, f = rate(C, "forward_rate", me, d)
    itd, q = rate(C, "discount_factor", me, d)
    if s is not None:
        e1, e2 = exp(-TAU / l1), exp(-TAU / l2)
        want = b0 + b1 * (1 - e1) / (TAU / l1) + b2 * ((1 - e1) / (TAU / l1) - e1) + b3 * ((1 - e2) / (TAU / l2) - e2)
        C.eq("spot rate loadings", s, want, its, dom, rule="model")
        if f is not None:
            C.eq("forward rate is d(tau spot)/d tau", f, norm.diff(TAU * s, TAU), itf, dom, rule="forward of spot")
        if q is not None:
            C.eq("discount factor is exp(-spot tau / 100)", q, exp(-s * TAU / 100), itd, dom, rule="discount of spot")
    if f is not None:
        want = b0 + b1 * exp(-TAU / l1) + b2 * TAU / l1 * exp(-TAU / l1) + b3 * TAU / l2 * exp(-TAU / l2)
        C.eq("forward rate loadings", f, want, itf, dom, rule="model")

"""Every process's drift, diffusion and jump are value-numbered with symbolic,
time-dependent parameters and compared with the stochastic differential equation
it is named after; constructors put every argument where that equation reads it,
`parameters` lists the values at time 0 in the order of the constructor, and
`generate` hands the simulator the process itself with its own configuration."""
from slib import *

FLOOR = 30
x, t = V("x t")


def f(p, s=None):
    return app("call", fld(app("into:ModelParameter", p), 0, 0, MPDID, 1), t if s is None else s)


MPDID = None


def procs():
    mu, sg, th, al, el = V("mu sigma theta alpha elasticity")
    ev, et, H = V("end_value end_time hurst")
    no = NONE_
    # name: constructor arguments, drift, diffusion, jump, positive diffusion parameters
    return {
        "ArithmeticBrownianMotion": ([mu, sg], f(mu), f(sg), no),
        "BlackDermanToy": ([sg, th], None, f(sg), no),
        "BrownianMotion": ([], num(0), num(1), no),
        "ConstantElasticityOfVariance": ([mu, sg, el], f(mu) * x, f(sg) * TM.powt(x, f(el)), no),
        "CoxIngersollRoss": ([mu, sg, th], f(th) * (f(mu) - x), f(sg) * sqrt(x), no),
        "ExtendedVasicek": ([al, sg, th], f(th) - f(al) * x, f(sg), no),
        "HullWhite": ([al, sg, th], f(th) - f(al) * x, f(sg), no),
        "FractionalBrownianMotion": ([H], num(0), num(1), no),
        "FractionalCoxIngersollRoss": ([mu, sg, th, H], f(th) * (f(mu) - x), f(sg) * sqrt(x), None),
        "FractionalOrnsteinUhlenbeck": ([mu, sg, th, H], f(th) * (f(mu) - x), f(sg), no),
        "GeometricBrownianBridge": ([mu, sg, ev, et], f(mu) * x + (ln(ev) - ln(x)) / (et - t) * x, f(sg) * x, no),
        "GeometricBrownianMotion": ([mu, sg], f(mu) * x, f(sg) * x, no),
        "HoLee": ([sg, th], f(th), f(sg), no),
        "MertonJumpDiffusion": ([mu, sg, var("lambda"), var("m"), var("v")], f(mu) * x, f(sg) * x, None),
        "OrnsteinUhlenbeck": ([mu, sg, th], f(th) * (f(mu) - x), f(sg), no),
    }


def run(C):
    global MPDID
    MPDID = C.S.adt("ModelParameter", CR)["did"]
    for nm, row in procs().items():
        C.part(nm, one, nm, *row)
    C.part("parameters", parameter)
    C.part("Heston", heston)
    C.part("curve", bdt)


def new(C, nm, args):
    it = C.method(nm, "new", None, CR)
    if it is None:
        return None
    meth = [var("method")] if nm.startswith("Fractional") else []
    r = C.ev(it, list(args) + meth)
    return None if r is None else r.ret


def one(C, nm, args, drift, diff, jump):
    me = new(C, nm, args)
    if me is None:
        return
    dom = [0 < x]

    def m(name, a):
        it = C.method(nm, name, "StochasticProcess", CR)
        r = C.ev(it, [me] + a) if it else None
        return it, (None if r is None else r)
    it, r = m("drift", [x, t])
    if r is not None and drift is not None:
        C.eq(nm + " drift", r.ret, drift, it, dom, rule="equation of the process")
    it, r = m("diffusion", [x, t])
    if r is not None:
        C.eq(nm + " diffusion", r.ret, diff, it, dom, rule="equation of the process")
    it, r = m("jump", [x, t])
    if r is not None:
        if jump is not None:
            C.eq(nm + " has no jumps", r.ret, jump, it, rule="equation of the process")
        elif nm.startswith("Fractional"):
            C.eq(nm + " has no jumps", If(eq(TM.discr(r.ret, 2), 0), 0, fld(r.ret, 1, 0, "core::option::Option", 1)), num(0), it, rule="equation of the process")
        else:
            got = canon(r.ret)
            zs = {s for s in subterms(got) if s.op == "app" and s.a[0] == "z"}
            if len(zs) == 1:
                C.eq(nm + " jump size is normal with the given mean and variance", got, SOME(var("m") + sqrt(var("v")) * zs.pop()), it, [0 < var("v")], rule="equation of the process")
            else:
                C.undecided(nm + " jump size", it, "%d draws" % len(zs))
    tr = C.F.method(nm, "parameters", "StochasticProcess", CR)
    for it in tr + [i for i in C.F.method(nm, "parameters", None, CR) if i not in tr]:
        r = C.ev(it, [me])
        if r is not None:
            # the constructor's own arguments at time 0, in order
            want = [a if str(a.a[0]) in ("hurst", "end_value", "end_time") else f(a, num(0)) for a in args if str(a.a[0]) not in ("m", "v")]
            C.eq(nm + " parameters", LEN(r.ret), num(len(want)), it, rule="parameters")
            for i, w in enumerate(want):
                C.eq("%s parameter %d" % (nm, i), r.ret[i], w, it, rule="parameters")
    for it in C.F.method(nm, "unpack", None, CR):
        r = C.ev(it, [me])
        if r is not None:
            for i, a in enumerate(args):
                C.eq("%s unpacked %d" % (nm, i), fld(r.ret, 0, i, "tuple", len(args)), f(a, num(0)), it, rule="parameters")


def heston(C):
    """the parameters of the Heston process, in the order of its constructor"""
    args = list(V("v0 theta kappa rho xi"))
    me = new(C, "Heston", args)
    it = C.method("Heston", "parameters", "StochasticProcess", CR)
    r = C.ev(it, [me]) if me is not None and it else None
    if r is not None:
        C.eq("Heston parameters", LEN(r.ret), num(5), it, rule="parameters")
        for i, a in enumerate(args):
            C.eq("Heston parameter %d" % i, r.ret[i], f(a, num(0)), it, rule="parameters")


def bdt(C):
    """drift theta + sigma'/sigma x; the difference quotient is evaluated on a
    quadratic volatility, where a central difference is exact for every step"""
    sg, th = V("sigma theta")
    me = new(C, "BlackDermanToy", [sg, th])
    it = C.method("BlackDermanToy", "drift", "StochasticProcess", CR)
    r = C.ev(it, [me, x, t]) if me is not None and it else None
    if r is None:
        return
    a, b, c = V("a b c")
    head = f(sg).a[1]

    def sub_(s):
        if s.op == "app" and s.a[0] == "call" and s.a[1] is head:
            u = s.a[2]
            return a + b * u + c * u * u
    C.eq("BlackDermanToy drift", rewrite(r.ret, sub_), rewrite(f(th) + (b + 2 * c * t) / (a + b * t + c * t * t) * x, sub_), it,
         [0 < a, 0 < b, 0 < c, 0 < t], rule="equation of the process")


def parameter(C):
    """a number becomes the constant function, a function becomes itself"""
    its = [i for i in C.F.items.values() if i.name == "from" and i.did.startswith(CR) and i.trait == "core::convert::From" and i.self_ty.s.endswith("ModelParameter")]
    C.fact("conversions into a model parameter", len(its) == 2, None, "%d conversions" % len(its), rule="parameters")
    for it in its:
        a = var("a")
        r = C.ev(it, [a])
        if r is None:
            continue
        g = C.S.get(r.ret, "ModelParameter", "0", CR)
        if g.op == "agg" and g.a[0].startswith("closure"):
            body = C.closure(g, [t]) if hasattr(C, "closure") else None
            if body is not None:
                C.eq("a number is a constant parameter", body, a, it, rule="parameters")
        else:
            C.eq("a function is the parameter", g, a, it, rule="parameters")

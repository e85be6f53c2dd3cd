"""Processes accept every parameter of their model and refuse the ones it has no
meaning for: the condition under which constructor, drift, diffusion and jump
return is value-numbered and compared with the model's parameter domain."""
from slib import *
import s02

FLOOR = 25
x, t = V("x t")

# what the guarded processes refuse (parameter, condition under which it is out of the model's domain)
VOL = {"ArithmeticBrownianMotion", "ConstantElasticityOfVariance", "CoxIngersollRoss", "FractionalOrnsteinUhlenbeck", "GeometricBrownianBridge",
       "GeometricBrownianMotion", "HoLee", "MertonJumpDiffusion", "OrnsteinUhlenbeck"}
FRACTIONAL = {"FractionalBrownianMotion", "FractionalCoxIngersollRoss", "FractionalOrnsteinUhlenbeck"}


def run(C):
    s02.MPDID = C.S.adt("ModelParameter", CR)["did"]
    for nm, row in s02.procs().items():
        C.part(nm, one, nm, row[0])
    C.part("fractional", fractional)
    C.part("simulation", simulation)


def accepts(r):
    return runs(r)


def one(C, nm, args):
    f = s02.f
    sg, el, H = V("sigma elasticity hurst")
    it = C.method(nm, "new", None, CR)
    if it is None:
        return
    meth = [C.S.variant("FractionalProcessGeneratorMethod", "FFT", crate=CR)] if nm in FRACTIONAL else []
    r = C.ev(it, list(args) + meth)
    if r is None:
        return
    dom = [0 < H, H < 1] if nm in FRACTIONAL else [0 < var("v")] if nm == "MertonJumpDiffusion" else []
    C.prove(nm + ": the constructor accepts every parameter", accepts(r), it, dom)
    if nm in FRACTIONAL:
        for what, x_ in (("negative", H < 0), ("above one", 1 < H)):
            C.eq("%s: a Hurst exponent %s is refused" % (nm, what), If(accepts(r), 1, 0), 0, it, [x_], rule="guard")
    me = r.ret
    ok = [0 < x, 0 < t, 0 <= f(sg), 0 <= f(el), f(el) <= 1] + dom
    if nm == "GeometricBrownianBridge":
        ok.append(t < var("end_time"))
    for name in ("drift", "diffusion", "jump"):
        m = C.method(nm, name, "StochasticProcess", CR)
        if m is None:
            continue
        q = C.ev(m, [me, x, t])
        if q is None:
            continue
        dom = ok
        if name == "jump" and nm == "MertonJumpDiffusion":
            continue
        C.prove("%s: %s is defined for every parameter of the model" % (nm, name), accepts(q), m, dom, free=[f(a) for a in args])
        if name == "diffusion" and nm in VOL:
            C.eq("%s: a negative volatility is refused" % nm, If(accepts(q), 1, 0), 0, m, [0 < x, 0 < t, f(sg) < 0], rule="guard")
        if name == "diffusion" and nm == "ConstantElasticityOfVariance":
            for what, c in (("negative", f(el) < 0), ("above one", 1 < f(el))):
                C.eq("%s: an elasticity %s is refused" % (nm, what), If(accepts(q), 1, 0), 0, m, [0 < x, 0 < t, 0 <= f(sg), c], rule="guard")


def fractional(C):
    H = var("hurst")
    it = C.free("fgn_fft")
    r = C.ev(it, [H, n, tn, SOME(seed)])
    if r is None:
        return
    # the guard is on the Hurst exponent alone: the transforms' own conditions follow from the construction
    conds = [(g, k) for g, k, w, *_ in r.assumes if not w.startswith("+") and any(s is H for s in subterms(k)) and not any(s is n for s in subterms(k))]
    c = TRUE
    for g, k in conds:
        c = TM.and_(c, k)
    for g, k, w, *_ in r.assumes:
        if w == "panic:transform sizes":
            C.prove("the transforms of the fractional noise have matching sizes", k, it, [0 < H, H < 1, 1 <= n], ints=[n])
    C.prove("fractional noise exists for every Hurst exponent", c, it, [0 < H, H < 1])
    for what, x_ in (("negative", H < 0), ("above one", 1 < H)):
        C.eq("fractional noise: a Hurst exponent %s is refused" % what, If(c, 1, 0), 0, it, [x_], rule="guard")


def simulation(C):
    proc = var("process")
    it = C.free("simulate_stochatic_process")
    r = C.ev(it, [proc, config(C, "EulerMaruyama", FALSE), NONE_, NONE_])
    if r is None:
        return
    # the conditions on the configuration
    c = TRUE
    for g, k, w, *_ in r.assumes:
        if not w.startswith("+") and not g and any(s in (t0, tn, n, m, x0) for s in subterms(k)) and all(s.op != "app" for s in subterms(k)):
            c = TM.and_(c, k)
    C.prove("every interval and number of steps and paths is simulated", c, it, [t0 < tn, 1 <= n, 1 <= m], ints=[n, m])
    C.eq("a reversed interval is refused", If(accepts(r), 1, 0), 0, it, [tn < t0, 1 <= n, 1 <= m], ints=[n, m], rule="guard")

"""price_monte_carlo of every contract type is value-numbered with the path
generator uninterpreted: it must equal exp(-rate (t_n - t_0)) times the average,
over exactly the generated paths, of the contract's own payoff applied to the
path (path-dependent contracts) or to its last value."""
from spec import *
import term as TM

FLOOR = 9
PATH = {"AsianOption", "BarrierOption", "LookbackOption"}


def run(C):
    items = [i for i in C.F.items.values() if i.kind == "fn" and i.name == "price_monte_carlo" and i.trait]
    C.fact("contracts with a Monte Carlo price", len(items) >= 8, None, "%d implementations" % len(items))
    for it in items:
        C.part(it.self_ty.s, one, it)


def one(C, it):
    ty = it.self_ty.s.split("::")[-1]
    po = C.method(ty, "payoff", "Payoff")
    me, proc, cfg, rate = V("self process config rate")
    x = C.ev(it, [me, proc, cfg, rate], opaque=lambda i: i.name == "generate")
    u = var("u")
    p = C.ev(po, [me, u])
    if x is None or p is None:
        return
    gen = [c for c in x.calls if c[1].endswith("::generate") or c[1].endswith("generate")]
    res = {c[3] for c in gen}
    if len(res) != 1:
        C.undecided(ty, it, "%d generator calls" % len(res))
        return
    key, args, out = [(c[1], c[2], c[3]) for c in gen][0]
    if ty == "AsianOption":
        # averaging in continuous time has no payoff of a sampled path
        av = C.S.get(me, ty, "averaging_method", "RustQuant_instruments")
        C.dom = [Or(cmp("eq", discr(av, 4), num(0)), cmp("eq", discr(av, 4), num(2))), cmp("eq", discr(C.S.get(C.S.get(me, ty, "contract", "RustQuant_instruments"), "OptionContract", "strike_flag", "RustQuant_instruments"), 2), num(1))]
    C.eq(ty + " simulates the given process", args[0], proc, it, rule="generator arguments")
    C.eq(ty + " uses the given configuration", args[1], cfg, it, rule="generator arguments")
    paths = C.S.get(out, "Trajectories", "paths", "RustQuant_stochastics")
    n = LEN(paths)
    S = C.S
    t0, tn = S.get(cfg, "StochasticProcessConfig", "t_0"), S.get(cfg, "StochasticProcessConfig", "t_n")

    def pay(j):
        q = paths[j]
        return TM.subst(p.ret, {u: q if ty in PATH else If(lift(0) < LEN(q), q[LEN(q) - 1], 0)})
    want = exp(-rate * (tn - t0)) * SUM(n, pay) / n
    C.eq(ty + " price", x.ret, want, it, [lift(0) < n], rule="discounted mean payoff")

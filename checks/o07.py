"""Finite difference prices: the grid, the time step of each scheme as a linear map
of the previous layer and its boundary values, the early exercise comparison, the
inverse used by the implicit schemes, and the discounting of the last layer."""
from spec import *
import term as TM
import norm

FLOOR = 20
CR = "RustQuant_instruments"
TY = "FiniteDifferencePricer"
S0, K, r, sg, T = V("S0 K r sigma T")
ev, ex = V("evaluated expires")
M, N = V("nM nN")
i, j, k = V("ni nj nk")
E = var("e")
INTS = [M, N, i, j, k]
POS = [S0, K, r, sg, T, M]
dt = T / M
dx = 10 * sg * sqrt(T) / N
xmin = ln(S0) - 5 * sg * sqrt(T)
xmax = ln(S0) + 5 * sg * sqrt(T)
alpha = sg * sg * dt / (2 * dx * dx)
bet = (r - sg * sg / 2) * dt / (2 * dx)
lo, hi = alpha - bet, alpha + bet        # weights of the lower and the upper neighbour
INV = "invert_tridiagonal_matrix"


def run(C):
    for call in (True, False):
        for amer in (True, False):
            for nm in ("explicit", "implicit", "crank_nicolson"):
                C.part("%s %s %s" % (nm, "american" if amer else "european", "call" if call else "put"), scheme, nm, call, amer)
    C.part("inverse", inverse)
    C.part("construction", construction)


def pricer(C, call=None, amer=None):
    kw = dict(initial_price=S0, strike_price=K, risk_free_rate=r, volatility=sg, evaluation_date=some(ev), expiration_date=ex,
              time_steps=M, price_steps=N)
    if call is not None:
        kw["type_flag"] = C.S.variant("TypeFlag", "Call" if call else "Put", crate=CR)
        kw["exercise_flag"] = C.S.variant("ExerciseFlag", "American", var("start"), var("end"), crate=CR) if amer else \
            C.S.variant("ExerciseFlag", "European", var("expiry"), crate=CR)
    return C.S.make(TY, crate=CR, **kw)


def scheme(C, nm, call, amer):
    it = C.method(TY, nm, None, CR)
    P = pricer(C, call, amer)
    C.dom = [cmp("le", num(3), N), cmp("le", num(1), M)]
    inv = next(iter(C.F.method(TY, INV, None, CR)), None)
    R = it and C.ev(it, [P], opaque=lambda f: f.name == "day_count_factor" or (inv is not None and f.did == inv.did))
    if not R:
        return
    tag = "%s, %s %s: " % (nm.replace("_", "-"), "american" if amer else "european", "call" if call else "put")
    days = {u for u in TM.subterms(R.ret) if u.op == "app" and "day_count_factor" in str(u.a[0])}
    want = C.S.variant("DayCountConvention", "Actual_365_25", crate="RustQuant_time")
    C.fact(tag + "time to expiry", len(days) == 1 and all(u.a[1] is want and u.a[2] is ev and u.a[3] is ex for u in days), it,
           "%d day counts" % len(days))
    m = {u: T for u in days}
    ret = TM.subst(R.ret, m)
    # ---- the matrix of an implicit scheme
    entry = lambda a, b: app("inverse", a, b)
    mats = {u for u in TM.subterms(ret) if u.op == "app" and inv is not None and u.a[0] == "fn:" + inv.did}
    theta = {"explicit": 0, "implicit": 1, "crank_nicolson": num("0.5")}[nm]
    if nm != "explicit":
        if len(mats) != 1:
            return C.undecided(tag + "matrix", it, "%d inverses" % len(mats))
        u = next(iter(mats))
        C.eq(tag + "implicit matrix, below the diagonal", u.a[2], -theta * lo, it, pos=POS + [N])
        C.eq(tag + "implicit matrix, diagonal", u.a[3], 1 + 2 * theta * alpha, it, pos=POS + [N])
        C.eq(tag + "implicit matrix, above the diagonal", u.a[4], -theta * hi, it, pos=POS + [N])
        ret = TM.subst(ret, {u: SEQ(N - 1, lambda a: SEQ(N - 1, lambda b: entry(a, b)))})
    recs = [u for u in TM.subterms(ret) if u.op == "rec"]
    recs = [u for u in recs if not any(u is not v and any(u is w for w in TM.subterms(v)) for v in recs)]
    if len(recs) != 1:
        return C.undecided(tag + "time loop", it, "%d recurrences" % len(recs))
    L = recs[0]
    if len(L.a) != 3:
        return C.undecided(tag + "time loop", it, "%d variables" % (len(L.a) - 2))
    init = L.a[2]
    ok = [num(3) <= N if False else cmp("le", num(3), N)]
    inside = ok + [cmp("le", num(0), j), cmp("lt", j, N - 1)]
    own = lambda t: expand_reads(t)
    payoff = (lambda s: vmax(s - K, 0)) if call else (lambda s: vmax(K - s, 0))
    node = lambda j: exp(xmin + (j + 1) * dx)
    C.eq(tag + "one step for each time step", L.a[0], M, it, ints=INTS)
    C.eq(tag + "first layer has every interior node", LEN(init), N - 1, it, ok, ints=INTS)
    C.eq(tag + "first layer is the payoff", own(init[j]), payoff(node(j)), it, inside, pos=POS, ints=INTS)
    # ---- one step
    w = var("layer")
    nxt = TM.apply(TM.apply(L.a[1], w), k)
    if nxt.op == "agg":
        nxt = nxt.a[2]
    nxt = TM.subst(nxt, {LEN(w): N - 1})
    tau = (k + 1) * dt
    edge = lambda tt: exp(xmax + r * tt) - K if call else K - exp(xmin + r * tt)
    b = hi if call else lo
    wj = lambda t: w[t]

    def rhs(t, e):
        """what a step starts from at node t: the explicit share of the neighbours and the boundary"""
        s = 1 - theta
        v = wj(t)
        if nm != "implicit":
            v = s * (If(cmp("lt", num(0), t), lo * wj(t - 1), 0) + If(cmp("lt", t, N - 2), hi * wj(t + 1), 0)) + (1 - 2 * s * alpha) * wj(t)
        return v + If(eq(t, N - 2 if call else num(0)), b * e, 0)

    def layer(e):
        v = rhs(j, e) if nm == "explicit" else SUM(N - 1, lambda a: entry(j, a) * rhs(a, e))
        return vmax(v, exp(r * tau) * payoff(node(j))) if amer else v
    C.eq(tag + "every layer has every interior node", LEN(nxt), N - 1, it, ok, ints=INTS)
    got = own(nxt[j])
    # the boundary is taken at the new layer; taking it at the old one is as accurate
    want = layer(edge(tau))
    if nm != "implicit" and not C.equal(got, want):
        for e in (edge(k * dt),) if nm == "explicit" else ((edge(k * dt) + edge(tau)) / 2, edge(k * dt)):
            if C.equal(got, layer(e)):
                want = layer(e)
    C.eq(tag + "one time step", got, want, it, inside + [cmp("le", num(0), k)], pos=POS, ints=INTS, rule="step")
    # ---- the price
    F = lambda t: app("last", t)
    out = TM.subst(ret, {L: SEQ(N - 1, F)})
    C.eq(tag + "price, even number of price steps", TM.subst(out, {N: 2 * i}), exp(-r * T) * F(i - 1), it, [cmp("le", num(2), i)], pos=[T], ints=INTS)
    C.eq(tag + "price, odd number of price steps", TM.subst(out, {N: 2 * i + 1}), exp(-r * T) * (F(i - 1) + F(i)) / 2, it, [cmp("le", num(2), i)], pos=[T], ints=INTS)


def inverse(C):
    it = C.method(TY, INV, None, CR)
    a, b, c = V("a b c")
    R = it and C.ev(it, [pricer(C), a, b, c])
    if not R:
        return
    n = N - 1
    ret = R.ret
    f = lambda t: app("continuant", t)
    C.dom = [cmp("le", num(3), N)]
    recs = sorted({u for u in TM.subterms(ret) if u.op == "rec"}, key=lambda u: u.id)
    m = {}
    ok = [cmp("le", num(3), N)]
    w = var("found")
    base = [num(1), b, b * b - a * c]
    for q, L in enumerate(recs):
        if len(L.a) != 3 or LEN(L.a[2]).op != "num":
            return C.undecided("inverse", it, "continuants")
        s = int(LEN(L.a[2]).a[0])
        for t in range(min(s, 3)):
            C.eq("continuant %d of the %s recurrence" % (t, "leading trailing".split()[q] if q < 2 else q), L.a[2][t], base[t], it)
        nxt = TM.apply(TM.apply(L.a[1], w), k)
        if nxt.op == "agg":
            nxt = nxt.a[2]
        nxt = TM.subst(nxt, {LEN(w): k + s})
        C.eq("recurrence %d: one more continuant each round" % q, TM.subst(LEN(nxt), {LEN(w): k + s}), k + s + 1, it, ints=INTS)
        known = lambda t: TM.subst(expand_reads(t), {LEN(w): k + s})
        C.eq("recurrence %d: next continuant" % q, known(nxt[k + s]), b * w[k + s - 1] - a * c * w[k + s - 2], it, [cmp("le", num(0), k)], ints=INTS, rule="step")
        C.eq("recurrence %d: earlier ones stay" % q, known(nxt[i]), w[i], it, [cmp("le", num(0), i), cmp("lt", i, k + s)], ints=INTS)
        m[L] = SEQ(L.a[0] + s, f)
    ret = TM.subst(ret, m)
    ret = TM.subst(ret, {u: SEQ(u.a[0].a[0] - 1, f) for u in TM.subterms(ret) if u.op == "vpop" and u.a[0].op == "seq"})
    C.eq("inverse: rows", LEN(ret), n, it, ok, ints=INTS)
    C.eq("inverse: columns", LEN(ret[i]), n, it, ok + [cmp("le", num(0), i), cmp("lt", i, n)], ints=INTS)
    d = var("nd")

    def got(p, q):
        """the entry, with products of one factor as its powers"""
        t = expand_reads(ret[p][q])
        inside = [cmp("le", num(3), N), cmp("le", num(0), i), cmp("lt", num(0), d), cmp("lt", i + d, n)]
        m = {}
        for u in TM.subterms(t):
            if u.op == "PROD":
                b1 = TM.apply(u.a[1], k)
                for x in (a, c):
                    v = norm.compare(b1, x, assume=inside + [cmp("le", num(0), k), cmp("lt", k, u.a[0])], ints=lambda y: y in INTS or y is d)
                    if v.kind == "equal":
                        m[u] = x ** u.a[0]
        return TM.subst(t, m)
    at = ok + [cmp("le", num(0), i), cmp("lt", i, n)]
    C.eq("inverse: on the diagonal", got(i, i), f(i) * f(n - 1 - i) / f(n), it, at, ints=INTS + [d])
    up = ok + [cmp("le", num(0), i), cmp("lt", num(0), d), cmp("lt", i + d, n)]
    C.eq("inverse: above the diagonal", got(i, i + d), num(-1) ** d * c ** d * f(i) * f(n - 1 - i - d) / f(n), it, up, ints=INTS + [d], pos=[c, d])
    C.eq("inverse: below the diagonal", got(i + d, i), num(-1) ** d * a ** d * f(i) * f(n - 1 - i - d) / f(n), it, up, ints=INTS + [d], pos=[a, d])


def construction(C):
    it = C.method(TY, "new", None, CR)
    a = list(V("initial strike rate vol evaluation expiration nsteps nprices type exercise"))
    R = it and C.ev(it, a)
    if not R:
        return
    want = "initial_price strike_price risk_free_rate volatility evaluation_date expiration_date time_steps price_steps type_flag exercise_flag".split()
    g = dict(zip(want, a))
    C.prove("new accepts every contract with positive terms", runs(R), it, [g[x] > 0 for x in
            "initial_price strike_price risk_free_rate volatility time_steps price_steps".split()], ints=a)
    C.dom = [g[x] > 0 for x in "initial_price strike_price risk_free_rate volatility time_steps price_steps".split()]
    for x, f in zip(a, want):
        C.eq("new: " + f.replace("_", " "), C.S.get(R.ret, TY, f, CR), x, it)

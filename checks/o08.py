"""Longstaff-Schwartz prices: the distribution the paths are drawn from (end points
and the bridge back in time), the regression of discounted payoffs on Laguerre
polynomials over the paths in the money, the exercise rule, and the price as the
discounted mean payoff."""
from spec import *
from mlib import Mat, leaf, Tr
import term as TM

FLOOR = 15
CR = "RustQuant_instruments"
TY = "LongstaffScwhartzPricer"
S0, K, r, sg, T = V("S0 K r sigma T")
ev, ex, seed = V("evaluated expires nseed")
M, N = V("nM nN")
i, j, k = V("ni nj nk")
INTS = [M, N, i, j, k, seed]
POS = [S0, K, r, sg, T, M, N]
dt = T / M
HELP = {"generate_end_points", "backwards_time_induction", "create_laguerre_matrix", "in_the_money_assets"}


def run(C):
    for call in (True, False):
        C.part("price, " + ("call" if call else "put"), price, call)
        C.part("in the money, " + ("call" if call else "put"), itm, call)
    C.part("end points", ends)
    C.part("bridge", bridge)
    C.part("laguerre polynomials", laguerre)
    C.part("construction", construction)


def pricer(C, call=None, sd=True):
    kw = dict(initial_price=S0, strike_price=K, risk_free_rate=r, volatility=sg, evaluation_date=some(ev), expiration_date=ex,
              time_steps=M, num_simulations=N)
    if sd:
        kw["seed"] = some(seed)
    if call is not None:
        kw["type_flag"] = C.S.variant("TypeFlag", "Call" if call else "Put", crate=CR)
    return C.S.make(TY, crate=CR, **kw)


def payoff(call):
    return (lambda s: vmax(s - K, 0)) if call else (lambda s: vmax(K - s, 0))


def top(t):
    ls = [u for u in TM.subterms(t) if u.op == "rec"]
    return [u for u in ls if not any(u is not v and any(u is w for w in TM.subterms(v)) for v in ls)]


def step(L, vs, kk):
    b = L.a[1]
    for v in vs:
        b = TM.apply(b, v)
    b = TM.apply(b, kk)
    return list(b.a[2:]) if b.op == "agg" else [b]


def calls(t, nm):
    return sorted({u for u in TM.subterms(t) if u.op == "app" and str(u.a[0]).startswith("fn:") and u.a[0].endswith("::" + nm)}, key=lambda u: u.id)


def price(C, call):
    it = C.method(TY, "generate_price", None, CR)
    R = it and C.ev(it, [pricer(C, call)], opaque=lambda f: f.name == "day_count_factor" or f.name in HELP)
    if not R:
        return
    tag = "call: " if call else "put: "
    pay = payoff(call)
    days = calls(R.ret, "day_count_factor")
    want = C.S.variant("DayCountConvention", "Actual_365_25", crate="RustQuant_time")
    C.fact(tag + "time to expiry", bool(days) and all(u.a[1] is want and u.a[2] is ev and u.a[3] is ex for u in days), it, "%d day counts" % len(days))
    ret = TM.subst(R.ret, {u: T for u in days})
    recs = top(ret)
    if len(recs) != 1 or len(recs[0].a) != 4:
        return C.undecided(tag + "time loop", it, "%d loops" % len(recs))
    L = recs[0]
    inits = list(L.a[2:])
    ends_ = calls(L, "generate_end_points")
    kc = [q for q, x in enumerate(inits) if x in ends_]
    if len(kc) != 1 or len(ends_) != 1 or kc[0] == 0:
        return C.undecided(tag + "paths", it, "%d initial points" % len(kc))
    C.eq(tag + "paths start from the end points at expiry", ends_[0].a[2], T, it)
    X = var("X")
    C.eq(tag + "first payoffs", TM.subst(inits[0], {ends_[0]: X})[j], pay(S0 * exp(X[j])), it, [cmp("le", num(0), j), cmp("lt", j, N)], pos=POS, ints=INTS)
    C.eq(tag + "one first payoff for each path", LEN(TM.subst(inits[0], {ends_[0]: X})), N, it, ints=INTS)
    # ---- a step back in time
    C.eq(tag + "every date between now and expiry", L.a[0], M - 1, it, ints=INTS)
    P, B = var("P"), var("earlier")
    nx = step(L, [P, X], k)
    back = calls(nx[1], "backwards_time_induction")
    if len(back) != 1 or nx[1] is not back[0]:
        return C.undecided(tag + "paths go back in time", it, "%d" % len(back))
    C.fact(tag + "paths go back from where they are", back[0].a[2] is X, it, "chain")
    C.eq(tag + "bridge over one time step", back[0].a[3], dt, it)
    C.eq(tag + "bridge to the date", back[0].a[4], M - 1 - k, it, ints=INTS)
    now = TM.subst(nx[0], {back[0]: B, LEN(P): N})
    pick = calls(now, "in_the_money_assets")
    if len(pick) != 1:
        return C.undecided(tag + "paths in the money", it, "%d" % len(pick))
    C.eq(tag + "in the money at the prices of the date", pick[0].a[2][j], S0 * exp(B[j]), it, [cmp("le", num(0), j), cmp("lt", j, N)], pos=POS, ints=INTS)
    C.eq(tag + "one price for each path", LEN(pick[0].a[2]), N, it, ints=INTS)
    IX, VS = var("chosen"), var("regressors")
    now = TM.subst(now, {pick[0]: tup(IX, VS)})
    # membership among the chosen paths is being in the money (checked below for the choice itself)
    inm = lambda q: num(0) < pay(S0 * exp(B[q]))

    def member(t, memo={}):
        if t in memo:
            return memo[t]
        x = None
        if t.op == "exists" and t.a[0] is LEN(IX):
            z = TM.fresh("z")
            b = TM.apply(t.a[1], z)
            if b.op == "cmp" and b.a[0] == "eq":
                for p, q in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                    if p is IX[z]:
                        x = app("member", member(q))
        if x is None:
            na = [member(q) if isinstance(q, TM.T) else q for q in t.a]
            x = TM.rebuild(t.op, na) if any(p is not q for p, q in zip(na, t.a)) else t
        memo[t] = x
        return x
    now = member(now)
    # ---- the regression
    lag = calls(now, "create_laguerre_matrix")
    sol = {u for u in TM.subterms(now) if u.op == "app" and u.a[0].endswith("::solve")}
    if len(lag) != 1 or len(sol) != 1:
        return C.undecided(tag + "regression", it, "%d bases, %d solutions" % (len(lag), len(sol)))
    C.fact(tag + "regressors are those of the paths in the money", lag[0].a[2] is VS, it, "basis")
    A, fit = var("A"), next(iter(sol))
    m = var("nItm")
    Y = {u for u in TM.subterms(fit) if u.op == "filtered"}
    if len(Y) != 1:
        return C.undecided(tag + "regression", it, "%d responses" % len(Y))
    y = next(iter(Y))
    mem = lambda q: app("member", q)
    C.eq(tag + "responses are those of the paths in the money", If(y.a[0][j], 1, 0), If(mem(j), 1, 0), it, ints=INTS)
    C.eq(tag + "responses are the payoffs", y.a[1][j], P[j], it, ints=INTS)
    tr = Tr({lag[0]: leaf(A, m, num(5)), y: leaf(var("Y"), m)})
    disc = exp(-r * dt)
    dec = fit.a[1]
    if dec.op == "app" and dec.a[0].split("::")[-1] in ("qr", "lu"):
        at = lambda p, q: A[tup(p, q)]
        C.eq(tag + "normal equations", tr.m(dec.a[1]).e(i, j), SUM(m, lambda q: at(q, i) * at(q, j)), it, rule="regression")
        C.eq(tag + "normal equations, right-hand side", tr.m(fit.a[2]).e(i, num(0)), SUM(m, lambda q: at(q, i) * disc * var("Y")[q]), it, pos=[T, M], rule="regression")
    else:
        C.undecided(tag + "normal equations", it, "decomposition " + TM.show(dec, -1)[:60])
    # ---- exercise
    be, ok = var("beta"), var("solved")
    now = TM.subst(now, {fld(fit, 1, 0, "core::option::Option", 1): be, fit: ok})
    is1 = lambda v: cmp("eq", discr(ok, 2), num(v))
    none = TM.subst(now, {is1(0): TRUE, is1(1): FALSE, discr(ok, 2): num(0)})
    inside = [cmp("le", num(0), j), cmp("lt", j, N)]
    C.eq(tag + "no regression: payoffs are discounted", expand_reads(none[j]), disc * P[j], it, inside, pos=POS, ints=INTS)
    done = TM.subst(now, {is1(0): FALSE, is1(1): TRUE, discr(ok, 2): num(1)})
    W = top(done)
    if len(W) != 1 or done is not W[0]:
        return C.undecided(tag + "exercise", it, "%d loops" % len(W))
    W = W[0]
    wi = list(W.a[2:])
    kr = [q for q, x in enumerate(wi) if x.op == "num"]
    if not wi or wi[0] is not P or (len(wi) == 2 and kr != [1]) or len(wi) > 2:
        return C.undecided(tag + "exercise", it, "%d loop variables" % len(wi))
    C.eq(tag + "every path", paths(W.a[0]), N, it, ints=INTS)
    Q, c = var("Q"), var("ncount")
    if len(wi) == 2:
        n0 = wi[1].a[0]                 # one less than the number of paths in the money so far, or that number
        sx = step(W, [Q, c + n0], k)
        C.eq(tag + "paths in the money are counted", sx[1] - n0, c + If(mem(k), 1, 0), it, ints=INTS + [c])
    else:
        sx = step(W, [Q], k)            # the number of paths in the money so far as a sum
        c = SUM(k, lambda q: If(mem(q), 1, 0))
    tr = Tr({lag[0]: leaf(A, m, num(5)), be: leaf(be, num(5))})
    cont = SUM(num(5), lambda q: A[tup(c, q)] * be[q])
    pn = pay(S0 * exp(B[k]))
    got = tr.s(TM.subst(sx[0], {LEN(Q): N}))
    C.eq(tag + "exercise where it pays more than continuing", expand_reads(got[k]), If(And(mem(k), cont < pn), pn, disc * Q[k]), it,
         [cmp("le", num(0), k), cmp("lt", k, N)], pos=POS, ints=INTS + [c], rule="exercise")
    C.eq(tag + "one path at a time", expand_reads(got[j]), Q[j], it, [ne(j, k)], ints=INTS + [c])
    # ---- the price
    out = TM.subst(ret, {LEN(L): N})
    O = var("O")
    C.eq(tag + "price is the mean of the payoffs discounted to the evaluation date", TM.subst(out, {L: O, LEN(L): N, LEN(O): N}),
         disc * SUM(N, lambda q: O[q]) / N, it, pos=[T, M, N], ints=INTS)


def itm(C, call):
    it = C.method(TY, "in_the_money_assets", None, CR)
    v = var("v")
    R = it and C.ev(it, [pricer(C, call), v])
    if not R:
        return
    tag = ("call" if call else "put") + ", paths in the money: "
    pay = payoff(call)
    ix, vs = fld(R.ret, 0, 0, "tuple", 2), fld(R.ret, 0, 1, "tuple", 2)
    w = var("w")
    for nm, t, put in (("which", ix, [lambda q: q]), ("regressor", vs, [lambda q: pay(v[q]), lambda q: v[q]])):
        if t.op == "filtered":
            C.eq(tag + nm + ", chosen", If(t.a[0][j], 1, 0), If(num(0) < pay(v[j]), 1, 0), it, ints=INTS)
            val = t.a[1][j]
        elif t.op == "rec" and len(t.a) == 3 and LEN(t.a[2]) is num(0):
            C.eq(tag + nm + ", every path", paths(t.a[0]), N, it, ints=INTS)
            b = step(t, [w], j)[0]
            grown = TM.subst(b, {})
            C.eq(tag + nm + ", chosen", LEN(grown), LEN(w) + If(num(0) < pay(v[j]), 1, 0), it, ints=INTS)
            C.eq(tag + nm + ", earlier ones stay", expand_reads(grown[i]), w[i], it, [cmp("lt", i, LEN(w))], ints=INTS)
            val = If(num(0) < pay(v[j]), expand_reads(grown[LEN(w)]), 0)
        else:
            C.undecided(tag + nm, it, TM.show(t, -2)[:80])
            continue
        want = put[0](j)
        if len(put) > 1 and C.prove and norm_equal(C, val, put[1](j), [num(0) < pay(v[j])]):
            want = put[1](j)            # prices and payoffs span the same polynomials
        C.eq(tag + nm, val, want, it, [num(0) < pay(v[j])], ints=INTS)


def norm_equal(C, a, b, assume):
    import norm
    return norm.compare(a, b, assume=assume, ints=lambda t: t in INTS).kind == "equal"


def draws(C, tag, it, rng0, nx, g, want):
    """one fresh standard normal draw, and the generator moved on by it"""
    smp = sorted({u for u in TM.subterms(want[0]) if u.op == "app" and u.a[0].endswith("::sample")}, key=lambda u: u.id)
    if len(smp) != 1:
        C.undecided(tag + "draws", it, "%d draws" % len(smp))
        return None
    s = smp[0]
    nrm = [u for u in TM.subterms(s.a[1]) if u.op == "app" and u.a[0].endswith("Normal::new")]
    C.fact(tag + "standard normal", len(nrm) == 1 and nrm[0].a[1] is num(0) and nrm[0].a[2] is num(1), it, TM.show(s, -2)[:80])
    C.fact(tag + "from the generator", s.a[2] is g, it, "draw")
    C.fact(tag + "the generator moves on", nx.op == "app" and str(nx.a[0]).startswith("mut:") and nx.a[-1] is g, it, TM.show(nx, -1)[:60])
    return s


def paths(n):
    """the vectors handed from one phase to the next have one entry per simulation"""
    return TM.subst(n, {u: N for u in TM.subterms(n) if u.op == "len" and u.a[0].op == "var"})


def path(C, it, tag, R, growing, want):
    t = R.ret
    if t.op != "rec" or len(t.a) != 4:
        C.undecided(tag + "loop", it, TM.show(t, -1)[:60])
        return None
    C.eq(tag + "every path", paths(t.a[0]), N, it, ints=INTS)
    x, g = var("x"), var("g")
    nx = step(t, [x, g], k)
    s = draws(C, tag, it, t.a[3], nx[1], g, nx)
    if s is None:
        return None
    z = var("z")
    new = TM.subst(nx[0], {s: z, LEN(x): k if growing else N})
    inside = [cmp("le", num(0), k), cmp("lt", k, N)]
    val = TM.subst(expand_reads(new[k]), {LEN(x): k})
    C.eq(tag + "value", val, want(x[k], z), it, inside, pos=POS + [var("delta"), var("nstep")], ints=INTS + [var("nstep")], rule="law")
    C.eq(tag + "one path at a time", TM.subst(expand_reads(new[j]), {LEN(x): k}), x[j], it,
         inside + ([cmp("lt", j, k)] if growing else [ne(j, k)]) + [cmp("le", num(0), j)], ints=INTS)
    if growing:
        C.eq(tag + "starts empty", LEN(t.a[2]), 0, it)
    return t.a[3]


def ends(C):
    it = C.method(TY, "generate_end_points", None, CR)
    R = it and C.ev(it, [pricer(C), T])
    if R:
        path(C, it, "end points: ", R, True, lambda x, z: (r - sg * sg / 2) * T + sg * sqrt(T) * z)


def seeded(t):
    s = [u for u in TM.subterms(t) if u.op == "app" and u.a[0].endswith("::seed_from_u64")]
    return s[0].a[1] if len(s) == 1 else None


def bridge(C):
    it = C.method(TY, "backwards_time_induction", None, CR)
    X, de, n, n2 = V("X delta nstep nother")
    R = it and C.ev(it, [pricer(C), X, de, n])
    if not R:
        return
    t = n * de
    g = path(C, it, "bridge: ", R, False, lambda x, z: x * t / (t + de) + sg * sqrt(t * de / (t + de)) * z)
    C.fact("bridge: from the later points", R.ret.op == "rec" and R.ret.a[2] is X, it, "chain")
    e = C.method(TY, "generate_end_points", None, CR)
    Q = e and C.ev(e, [pricer(C), T])
    a, b = g is not None and seeded(g), Q and seeded(Q.ret)
    if a is None or b is None or a is False or not b:
        return C.undecided("seeds", it, "no seed")
    C.eq("seeds: end points follow the given seed", If(eq(b, TM.subst(b, {seed: seed + i})), 1, 0), 0, it, [ne(i, num(0))], ints=INTS)
    C.eq("seeds: dates draw independently of the end points", If(eq(a, b), 1, 0), 0, it, [cmp("le", num(1), n)], ints=INTS + [n])
    C.eq("seeds: dates draw independently of each other", If(eq(a, TM.subst(a, {n: n2})), 1, 0), 0, it, [ne(n, n2)], ints=INTS + [n, n2])


def laguerre(C):
    it = C.method(TY, "create_laguerre_matrix", None, CR)
    v = var("v")
    R = it and C.ev(it, [pricer(C), v])
    if not R:
        return
    t = R.ret
    x = v[i]
    L = [num(1), 1 - x, (x * x - 4 * x + 2) / 2, (6 - 18 * x + 9 * x ** 2 - x ** 3) / 6, (24 - 96 * x + 72 * x ** 2 - 16 * x ** 3 + x ** 4) / 24]
    tr = Tr({v: leaf(v, LEN(v))})
    if t.op == "rec" and len(t.a) == 3:
        C.eq("laguerre: every value", t.a[0], LEN(v), it)
        X = var("X")
        b = step(t, [X], i)[0]
        if b.op != "rec" or b.a[0].op != "num" or len(b.a) != 3 or b.a[2] is not X:
            return C.undecided("laguerre", it, "columns")
        C.eq("laguerre: five polynomials", b.a[0], 5, it)
        m = X
        for q in range(int(b.a[0].a[0])):
            m = step(b, [m], num(q))[0]

        def read(m, p, q):
            while m.op == "withidx":
                at = m.a[1]
                if at.op != "agg" or len(at.a) != 4:
                    return None
                if at.a[2] is p and at.a[3] is q:
                    return m.a[2]
                if at.a[2] is not p or at.a[3].op != "num" or q.op != "num":
                    return None
                m = m.a[0]
            return None
        for q, want in enumerate(L):
            g = read(m, i, num(q))
            if g is None:
                C.undecided("laguerre: polynomial %d" % q, it, TM.show(m, -1)[:60])
                continue
            # entries of the same row written before
            for _ in range(6):
                sub = {u: read(u.a[0], u.a[1].a[2], u.a[1].a[3]) for u in TM.subterms(g)
                       if u.op == "idx" and u.a[0].op == "withidx" and u.a[1].op == "agg" and len(u.a[1].a) == 4}
                sub = {u: w for u, w in sub.items() if w is not None}
                if not sub:
                    break
                g = TM.subst(g, sub)
            C.eq("laguerre: polynomial %d" % q, g, want, it, rule="coefficients")
        C.eq("laguerre: one row for each value", tr.m(t.a[2]).nr, LEN(v), it)
        C.eq("laguerre: one column for each polynomial", tr.m(t.a[2]).nc, 5, it)
    else:
        try:
            A = tr.m(t)
        except SpecError as e:
            return C.undecided("laguerre", it, str(e))
        C.eq("laguerre: one row for each value", A.nr, LEN(v), it)
        C.eq("laguerre: one column for each polynomial", A.nc, 5, it)
        for q, want in enumerate(L):
            C.eq("laguerre: polynomial %d" % q, A.e(i, num(q)), want, it, rule="coefficients")


def construction(C):
    it = C.method(TY, "new", None, CR)
    a = list(V("initial strike rate vol evaluation expiration nsteps type nsims seed"))
    R = it and C.ev(it, a)
    if not R:
        return
    want = "initial_price strike_price risk_free_rate volatility evaluation_date expiration_date time_steps type_flag num_simulations seed".split()
    g = dict(zip(want, a))
    Q = C.ev(it, a[:4] + [some(ev), ex] + a[6:])
    if Q:
        C.prove("new accepts every contract with positive terms and a later expiry", runs(Q), it, [fn("jdn", ev) < fn("jdn", ex)] +
                [g[x] > 0 for x in "initial_price strike_price risk_free_rate volatility time_steps num_simulations".split()], ints=a)
    C.dom = [fn("jdn", ev) < fn("jdn", ex)] + [g[x] > 0 for x in "initial_price strike_price risk_free_rate volatility time_steps num_simulations".split()] + [
        cmp("eq", discr(g["evaluation_date"], 2), num(1)), fn("jdn", fld(g["evaluation_date"], 1, 0, "core::option::Option", 1)) < fn("jdn", g["expiration_date"])]
    for x, f in zip(a, want):
        C.eq("new: " + f.replace("_", " "), C.S.get(R.ret, TY, f, CR), x, it)

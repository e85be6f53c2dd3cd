"""Reproducibility.  Every simulation entry point is value-numbered with a given
seed; the value of the paths must contain no other source of randomness (thread
generator, operating-system entropy, clock), must be the same term in serial and
parallel mode, and every path must read a stream of its own."""
from slib import *
import s03

FLOOR = 30
SOURCES = ("thread_rng", "ThreadRng", "from_entropy", "rand::random", "OsRng", "os_rng", "getrandom", "Instant::now", "SystemTime", "now_utc",
           "now_local", "::now", "rand::rng()", "RandomState::new")


def entropy(t):
    bad = set()
    for s in subterms(t):
        if s.op in ("app", "fn", "fnval"):
            n = str(s.a[0])
            if any(x in n for x in SOURCES) or n.split("::")[-1] in ("rng", "random", "random_range"):
                bad.add(n)
    return sorted(bad)


def run(C):
    C.part("simulation", simulation)
    C.part("noise", noise)
    C.part("processes", processes)
    C.part("generate", generate)


def simulation(C):
    jl, H, fgn = V("lambda hurst fgn")
    it = None
    for sch in s03.SCHEMES:
        for kind, frac in (("gaussian", NONE_), ("fractional", SOME(tup(fgn, H)))):
            for jump in (False, True):
                res = {}
                what = "%s, %s noise%s" % (sch, kind, " and jumps" if jump else "")
                for par in (FALSE, TRUE):
                    it, r = s03.sim(C, sch, par, SOME(jl) if jump else NONE_, frac)
                    if r is None:
                        continue
                    res[par] = p = canon(C.S.get(r.ret, "Trajectories", "paths", crate=CR))
                    bad = entropy(p)
                    C.fact(what + (" parallel" if par is TRUE else " serial") + ": only the seed", not bad, it, "the paths depend on %s" % ", ".join(bad), rule="no other entropy")
                    C.fact(what + (" parallel" if par is TRUE else " serial") + ": the seed", any(s is seed for s in subterms(p)), it, "the paths do not depend on the seed", rule="seed used")
                    streams(C, what + (" parallel" if par is TRUE else " serial"), it, p)
                if len(res) == 2:
                    C.eq(what + ": parallel is serial", res[TRUE], res[FALSE], it, [t0 < tn, 1 <= n, 1 <= m], rule="mode independence")


GAPS = (1, 2, 4, 8, 10, 16, 32, 64, 100, 128, 200, 255, 256, 500, 512, 1000, 1024, 4096, 10000, 1 << 16, 1000000, 1 << 20)


def pair(t, k):
    """two paths of a run: adjacent, or one of the usual periods apart"""
    r = (0, 1, 3)[k // len(GAPS) % 3]
    if t is var("i"):
        return r
    if t is var("j"):
        return r + GAPS[k % len(GAPS)]
    if t is m:
        return r + GAPS[k % len(GAPS)] + 7
    if t is seed:
        return (0, 5, 1234567)[k // len(GAPS) % 3]


def streams(C, what, it, p):
    """seeds read by path i: each must differ between any two paths"""
    q = TM.proj_index(p, var("i")) if p.op == "seq" else None
    if p.op == "rec":
        b = p.a[1]
        while b.op == "lam":
            last = b
            b = b.a[1]
        i, j = V("i j")
        body = p.a[1]
        for k, a in enumerate(p.a[2:]):
            body = TM.apply(body, var("paths"))
        g = lambda v: TM.apply(body, v)
        q = g(i)
    if q is None:
        C.undecided(what + ": streams", it, "paths are not a loop over the paths")
        return
    seeds = []
    for s in subterms(q):
        if s.op == "app" and str(s.a[0]).endswith("seed_from_u64"):
            seeds.append(s.a[1])
        if s.op == "app" and s.a[0] == "call" and len(s.a) == 6 and s.a[5].op == "agg" and len(s.a[5].a) == 3:
            seeds.append(s.a[5].a[2])
    seeds = list(dict.fromkeys(seeds))
    if not seeds:
        C.undecided(what + ": streams", it, "no seeded stream found")
        return
    i, j = V("i j")
    for k, s in enumerate(seeds):
        o = TM.subst(s, {i: j})
        C.prove("%s: stream %d differs between paths" % (what, k), ne(s, o), it, [0 <= i, i < j, j < m, 1 <= m], ints=[i, j, m, n, seed], sampler=pair, rule="independent streams")
    for a in range(len(seeds)):
        for b in range(a + 1, len(seeds)):
            C.prove("%s: streams %d and %d of two paths differ" % (what, a, b), ne(seeds[a], TM.subst(seeds[b], {i: j})), it,
                    [0 <= i, i < m, 0 <= j, j < m, 1 <= m], ints=[i, j, m, n, seed], sampler=pair, rule="independent streams")


def noise(C):
    H, T = V("hurst T")
    for nm in ("fgn_cholesky", "fgn_fft"):
        it = C.free(nm)
        r = C.ev(it, [H, n, T, SOME(seed)])
        if r is None:
            continue
        bad = entropy(r.ret)
        C.fact(nm + ": only the seed", not bad, it, "the noise depends on %s" % ", ".join(bad), rule="no other entropy")
        C.fact(nm + ": the seed", any(s is seed for s in subterms(r.ret)), it, "the noise does not depend on the seed", rule="seed used")


def processes(C):
    x, t = V("x t")
    its = [i for i in C.F.items.values() if i.trait and i.trait.endswith("::StochasticProcess") and i.name in ("drift", "diffusion", "jump") and i.did.startswith(CR)]
    C.fact("processes found", len(its) >= 40, None, "%d methods" % len(its))
    for it in its:
        ty = it.self_ty.s.split("::")[-1]
        if ty in ("Heston", "Sabr", "SABR"):
            continue
        r = C.ev(it, [var("self"), x, t])
        if r is None:
            continue
        bad = entropy(r.ret)
        C.fact("%s %s: a function of state and time" % (ty, it.name), not bad, it, "depends on %s" % ", ".join(bad), rule="no other entropy",
               known_key="S01-merton-jump" if (ty, it.name) == ("MertonJumpDiffusion", "jump") and bad == ["rand::rngs::thread::thread_rng"] else None)


def generate(C):
    """generate = the simulator on the process itself with its own configuration,
    with the jump intensity, generator and Hurst exponent of the process"""
    me, cfg = V("self cfg")
    fns = {i.name: i for i in C.F.items.values() if i.kind == "fn" and i.did.startswith(CR)}
    sim = [i for i in C.F.items.values() if i.name == "simulate_stochatic_process" and i.did.startswith(CR)]
    if len(sim) != 1:
        C.undecided("generate", None, "no simulator")
        return
    its = [i for i in C.F.items.values() if i.name == "generate" and i.did.startswith(CR)]
    C.fact("generate implementations", len(its) >= 5, None, "%d" % len(its))
    for it in its:
        ty = it.self_ty.s.split("::")[-1] if it.self_ty is not None and it.trait else "default"
        r = C.ev(it, [me, cfg], opaque=lambda i: i.name == "simulate_stochatic_process")
        if r is None:
            continue
        if r.ret.op != "app" or r.ret.a[0] != "fn:" + sim[0].did:
            C.undecided(ty + " generate", it, "not a single simulation")
            continue
        p, c, j, f = r.ret.a[1:5]
        C.fact(ty + " simulates itself", p is me, it, show(p), rule="generator arguments")
        C.fact(ty + " uses the given configuration", c is cfg, it, show(c), rule="generator arguments")
        if ty == "MertonJumpDiffusion":
            lam = app("call", C.S.get(C.S.get(me, "MertonJumpDiffusion", "lambda", CR), "ModelParameter", "0", CR), num(0))
            C.eq(ty + " jump intensity", j, SOME(lam), it, rule="generator arguments")
        else:
            C.eq(ty + " has no jump intensity", j, NONE_, it, rule="generator arguments")
        if ty.startswith("Fractional"):
            H = C.S.get(me, ty, "hurst", CR)
            me_ = C.S.get(me, ty, "method", CR)
            fv = f.a[2] if f.op == "agg" and len(f.a) == 3 else None
            if fv is None or fv.op != "agg":
                C.undecided(ty + " noise", it, show(f)[:200])
                continue
            C.eq(ty + " Hurst exponent", fv.a[3], H, it, rule="generator arguments")
            for v, g in (("CHOLESKY", "fgn_cholesky"), ("FFT", "fgn_fft")):
                mv = C.S.variant("FractionalProcessGeneratorMethod", v, crate=CR)
                w = TM.subst(fv.a[2], {me_: mv})
                w = rewrite(w, lambda s: num(mv.a[1]) if s.op == "discr" and s.a[0] is mv else None)
                C.fact("%s method %s" % (ty, v), w.op == "fnval" and str(w.a[0]).endswith(g + ")") or str(getattr(w.a[0], "did", w.a[0])).endswith(g), it, "draws from " + show(w), rule="generator arguments")
        else:
            C.eq(ty + " gaussian noise", f, NONE_, it, rule="generator arguments")

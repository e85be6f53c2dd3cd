from spec import *
import term as TM

CR = "RustQuant_stochastics"
x0, t0, tn, n, m, seed = V("x0 t0 tn n m seed")
NORMAL = "<rand_distr::normal::Normal as rand::distributions::distribution::Distribution>::sample"
STDN = "<rand_distr::normal::StandardNormal as rand::distributions::distribution::Distribution>::sample"
SOME = lambda x: mk("agg", "core::option::Option", 1, lift(x))
NONE_ = mk("agg", "core::option::Option", 0)


def rewrite(t, f):
    """bottom-up rewriting of every node by f (node -> node or None)"""
    for _ in range(12):
        mp = {}
        for s in subterms(t):
            r = f(s)
            if r is not None and r is not s:
                mp[s] = r
        if not mp:
            return t
        t = TM.subst(t, mp)
    return t


def names(t):
    return {str(s.a[0]) for s in subterms(t) if s.op == "app"}


def once(s):
    """a loop executed once"""
    b = s.a[1]
    for a in s.a[2:]:
        b = TM.apply(b, a)
    b = TM.apply(b, num(0))
    return b.a[2] if b.op == "agg" else s


def canon(t):
    """a normal draw N(a, b) from a generator is a + b z(generator), and leaves
    the generator in the state after one standard normal draw"""
    def f(s):
        if s is eq(n, 0) or s is eq(0, n):
            return FALSE                     # within the steps of the simulation
        if s.op == "len" and s.a[0].op == "app" and str(s.a[0].a[0]).endswith("Distribution::sample_iter"):
            return mk("const", "inf")        # an endless stream
        if s.op == "len" and s.a[0].op == "app" and s.a[0].a[0] == "dft":
            return LEN(s.a[0].a[1])
        if s.op == "fn" and s.a[0] == "im" and s.a[1].op == "idx" and s.a[1].a[0].op == "app" and s.a[1].a[0].a[0] == "dft" and "draws" not in names(s):
            return num(0)                    # the transform of a real even sequence is real
        if s.op == "add" and s.a[1].op == "mul" and num(0) in s.a[1].a and fn("I") in s.a[1].a:
            return s.a[0]
        if s.op == "rec" and s.a[0] is num(1) and s.a[1].op == "lam":
            return once(s)
        if s.op == "fn" and s.a[0] == "min" and mk("const", "inf") in s.a:
            return s.a[1] if s.a[2] is mk("const", "inf") else s.a[2]
        if s.op != "app" or not isinstance(s.a[0], str):
            return None
        if s.a[0] == NORMAL:
            d = s.a[1]
            if d.op == "fld" and d.a[0].op == "app" and str(d.a[0].a[0]).endswith("normal::Normal::new"):
                a, b = d.a[0].a[1:3]
                return a + b * app("z", s.a[2])
        if s.a[0] == STDN:
            return app("z", s.a[2])
        if s.a[0] in ("mut:" + NORMAL + ":1", "mut:" + STDN + ":1"):
            return app("after z", s.a[2])
        return None
    return rewrite(t, f)


def config(C, scheme, parallel, seed_=None):
    return C.S.make("StochasticProcessConfig", crate=CR, x_0=x0, t_0=t0, t_n=tn, n_steps=n, m_paths=m, parallel=parallel,
                    scheme=C.S.variant("StochasticScheme", scheme, crate=CR), seed=SOME(seed) if seed_ is None else seed_)

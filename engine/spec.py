"""Specification helpers: operator notation on terms, struct construction and
field access by declared field name, and running a function of the tree on
symbolic arguments."""
from fractions import Fraction as Fr
import term as TM
from term import *


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return boolt(x)
    if isinstance(x, (int, Fr)):
        return num(x)
    if isinstance(x, float):
        return num(Fr(repr(x)))
    if isinstance(x, str):
        return num(Fr(x))
    raise TypeError(x)


T.__add__ = lambda a, b: add(a, lift(b))
T.__radd__ = lambda a, b: add(lift(b), a)
T.__sub__ = lambda a, b: sub(a, lift(b))
T.__rsub__ = lambda a, b: sub(lift(b), a)
T.__mul__ = lambda a, b: mul(a, lift(b))
T.__rmul__ = lambda a, b: mul(lift(b), a)
T.__truediv__ = lambda a, b: div(a, lift(b))
T.__rtruediv__ = lambda a, b: div(lift(b), a)
T.__neg__ = lambda a: TM.neg(a)
T.__pow__ = lambda a, b: powt(a, lift(b))
T.__rpow__ = lambda a, b: powt(lift(b), a)
T.__lt__ = lambda a, b: cmp("lt", a, lift(b))
T.__le__ = lambda a, b: cmp("le", a, lift(b))
T.__gt__ = lambda a, b: cmp("gt", a, lift(b))
T.__ge__ = lambda a, b: cmp("ge", a, lift(b))
T.__getitem__ = lambda a, i: proj_index(a, lift(i))
T.__invert__ = lambda a: not_(a)

T.__iter__ = None

PI = fn("pi")


def app(name, *args):
    return TM.app(name, *[lift(a) if isinstance(a, (int, Fr, float)) else a for a in args])


def V(names):
    r = [var(n) for n in names.split()]
    return r[0] if len(r) == 1 else r


def eq(a, b):
    return cmp("eq", lift(a), lift(b))


def ne(a, b):
    return not_(eq(a, b))


def vmax(a, b):
    return fn("max", lift(a), lift(b))


def vmin(a, b):
    return fn("min", lift(a), lift(b))


def If(c, a, b):
    return ite(c, lift(a), lift(b))


def And(*cs):
    r = TRUE
    for c in cs:
        r = and_(r, c)
    return r


def Not(x):
    return not_(x)


def Or(*cs):
    r = FALSE
    for c in cs:
        r = or_(r, c)
    return r


def SUM(n, f):
    return mk("SUM", lift(n), lamf(f))


def PROD(n, f):
    return mk("PROD", lift(n), lamf(f))


def SEQ(n, f):
    return seq(lift(n), lamf(f))


def LEN(v):
    return length(v)


def erf(x):
    return fn("erf", x)


def Phi(z):
    return (1 + erf(lift(z) / sqrt(num(2)))) / 2


def phi(z):
    z = lift(z)
    return exp(-(z * z) / 2) / sqrt(2 * PI)


def array(*xs):
    return mk("agg", "array", 0, *[lift(x) for x in xs])


NONE = agg("core::option::Option", 0)


def tup(*xs):
    return mk("agg", "tuple", 0, *[lift(x) for x in xs])


class SpecError(Exception):
    pass


class S:
    """struct/enum access by name over the fact base"""

    def __init__(self, F):
        self.F = F

    def adt(self, name, crate=None):
        c = [a for d, a in self.F.adts.items()
             if (d == name or a["path"] == name or a["path"].endswith("::" + name) or d.endswith("::" + name)) and a["local"]
             and (crate is None or d.startswith(crate))]
        c = list({a["did"]: a for a in c}.values())
        if len(c) > 1 and any(a["did"] == name for a in c):
            c = [a for a in c if a["did"] == name]
        if len(c) != 1:
            raise SpecError("type %s: %d candidates" % (name, len(c)))
        return c[0]

    def make(self, name, crate=None, variant=None, default=None, **fields):
        a = self.adt(name, crate)
        vi = 0
        if variant is not None:
            vi = [v["name"] for v in a["variants"]].index(variant)
        fs = a["variants"][vi]["fields"]
        names = [f[0] for f in fs]
        for k in fields:
            if k not in names:
                raise SpecError("no field %s in %s" % (k, name))
        return agg(a["did"], vi, *[lift(fields[n]) if n in fields else var((default or name) + "." + n) for n in names])

    def variant(self, name, variant, *args, crate=None):
        a = self.adt(name, crate)
        vi = [v["name"] for v in a["variants"]].index(variant)
        return agg(a["did"], vi, *[lift(x) for x in args])

    def isv(self, t, name, variant, crate=None):
        """the value t of the enum is this variant"""
        a = self.adt(name, crate)
        vs = [v["name"] for v in a["variants"]]
        return cmp("eq", discr(t, len(vs)), num(vs.index(variant)))

    def get(self, t, name, field, crate=None, variant=None):
        a = self.adt(name, crate)
        vi = 0
        if variant is not None:
            vi = [v["name"] for v in a["variants"]].index(variant)
        names = [f[0] for f in a["variants"][vi]["fields"]]
        i = names.index(field)
        return fld(t, vi, i, a["did"], len(names))


def expand_reads(t, memo=None):
    """turn reads of updated vectors into conditionals on the index:
    (v with [i] = x)[j]  ->  if j == i then x else v[j]"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    na = [expand_reads(x, memo) if isinstance(x, T) else x for x in t.a]
    r = TM.rebuild(t.op, na) if any(x is not y for x, y in zip(na, t.a)) else t
    while r.op == "idx" and r.a[0].op in ("withidx", "vpush", "concat", "vpop"):
        v, j = r.a
        if v.op == "vpop":
            r = expand_reads(proj_index(v.a[0], j), memo)
            continue
        if v.op == "concat":
            p, q = v.a
            n = length(p)
            first = proj_index(p, j)
            if first.op == "idx" and p.op == "agg" and n.op == "num" and 0 < n.a[0] <= 4:
                first = p.a[-1]
                for m in range(int(n.a[0]) - 2, -1, -1):
                    first = ite(cmp("eq", j, num(m)), p.a[2 + m], first)
            r = ite(cmp("lt", j, n), expand_reads(first, memo), expand_reads(proj_index(q, sub(j, n)), memo))
            continue
        if v.op == "withidx":
            i, x = v.a[1], v.a[2]
        else:
            i, x = length(v.a[0]), v.a[1]
        r = ite(cmp("eq", i, j), x, expand_reads(proj_index(v.a[0], j), memo))
    memo[t] = r
    return r


class Slot(int):
    """a loop variable designated by its position"""


def systems(L, roles):
    """every reading of the loop under the roles: variables with equal initial
    values are interchangeable until the obligations tell them apart"""
    import itertools
    inits = list(L.a[1:])
    if len(inits) != len(roles):
        raise SpecError("loop variables: %d, expected %d" % (len(inits), len(roles)))
    names = list(roles)
    cand = [[k for k, x in enumerate(inits) if x is lift(roles[r])] for r in names]
    out = []
    for c in itertools.product(*cand):
        if len(set(c)) == len(c):
            out.append(Loop(L, {r: Slot(k) for r, k in zip(names, c)}))
    if not out:
        raise SpecError("loop variables not accounted for")
    return out


class Loop:
    """a loop of unknown trip count seen as a transition system: the loop's
    variables named by their initial values"""

    def __init__(self, L, roles, equal=None):
        inits = list(L.a[1:])
        self.L = L
        self.ix, used = {}, set()
        for r, i in roles.items():
            c = [i] if isinstance(i, Slot) else [k for k, x in enumerate(inits) if x is lift(i) and k not in used]
            if not c and equal:
                # the same value written differently
                c = [k for k, x in enumerate(inits) if k not in used and equal(x, lift(i))]
            if len(c) != 1:
                raise SpecError("loop variable %s: %d candidates" % (r, len(c)))
            self.ix[r] = c[0]
            used.add(c[0])
        if len(used) != len(inits):
            raise SpecError("loop variables not accounted for")
        self.v = {r: var("loop." + r) for r in roles}
        byix = {k: r for r, k in self.ix.items()}
        b = L.a[0]
        for k in range(len(inits)):
            b = TM.apply(b, self.v[byix[k]])
        n = len(inits)
        self.cond, self.exits, nxt = b.a[2], list(b.a[3:len(b.a) - n]), b.a[len(b.a) - n:]
        self.next = {r: nxt[k] for r, k in self.ix.items()}

    def out(self, r):
        return mk("wout", self.L, num(self.ix[r]))

    def at_exit(self, t, k):
        """the value t has when the loop is left by its k-th exit, in terms of
        the loop variables"""
        m = {mk("wexit", self.L, num(j)): boolt(j == k) for j in range(len(self.exits))}
        m.update({self.out(r): self.v[r] for r in self.ix})
        return TM.subst(t, m)


class Fold:
    """a bounded recurrence seen as a transition system: rec(n, step, inits);
    its variables are named by their initial values (given in roles)"""

    def __init__(self, L, roles, index="j?"):
        if L.op != "rec":
            raise SpecError("not a recurrence: " + L.op)
        inits = list(L.a[2:])
        self.L, self.n, self.j = L, L.a[0], var(index)
        self.ix, used = {}, set()
        for r, i in roles.items():
            c = [k for k, x in enumerate(inits) if x is lift(i) and k not in used]
            if len(c) != 1:
                raise SpecError("recurrence variable %s: %d candidates" % (r, len(c)))
            self.ix[r] = c[0]
            used.add(c[0])
        if len(used) != len(inits):
            raise SpecError("recurrence variables not accounted for")
        self.v = {r: var("rec." + r) for r in roles}
        byix = {k: r for r, k in self.ix.items()}
        b = L.a[1]
        for k in range(len(inits)):
            b = TM.apply(b, self.v[byix[k]])
        b = TM.apply(b, self.j)
        self.next = {r: b.a[2 + k] for r, k in self.ix.items()}
        self.out = [r for r, k in self.ix.items() if k == 0][0]


def fold(t, *roles, index="j?"):
    err = None
    for r in roles:
        try:
            return Fold(t, r, index)
        except SpecError as e:
            err = e
    raise err


def loops(t):
    ts = t if isinstance(t, (list, tuple)) else [t]
    out = []
    for t in ts:
        for s in subterms(t):
            if s.op == "wloop" and s not in out:
                out.append(s)
    return out


def loop_of(ts, *roles):
    """the loop of these terms (outermost if nested) under one of the alternative
    descriptions of its variables"""
    ls = loops(ts)
    ls = [l for l in ls if not any(l is not m and any(l is x for x in subterms(m)) for m in ls)]
    if len(ls) != 1:
        raise SpecError("%d loops" % len(ls))
    err = None
    for r in roles:
        try:
            return Loop(ls[0], r)
        except SpecError as e:
            err = e
    raise err


def some(x):
    return agg("core::option::Option", 1, lift(x))


def runs(r):
    """condition under which a value-numbered call returns (no panic)"""
    c = TRUE
    for g, k, why, *_ in r.assumes:
        if why.startswith("+"):
            continue        # restates the condition of a loop's body, or underflow
        for x in g:
            k = or_(not_(x), k)
        c = and_(c, k)
    return c


def unroll(t, depth=12, _memo=None):
    """the term with its loops of constant trip count run symbolically (SpecError
    when a loop does not end within depth iterations)"""
    memo = {} if _memo is None else _memo

    def args(L, st, i=None):
        b = L
        for x in st:
            b = TM.apply(b, x)
        return TM.apply(b, i) if i is not None else b

    def run(L):
        if L in memo:
            return memo[L]
        st = [go(x) for x in L.a[1:]]
        n = len(st)

        def it(st, d):
            if d > depth:
                raise SpecError("loop not bounded")
            b = args(L.a[0], st)
            c = go(b.a[2])
            ex = [go(x) for x in b.a[3:len(b.a) - n]]
            if c is TM.FALSE:
                return st, ex
            nxt = [go(x) for x in b.a[len(b.a) - n:]]
            s2, e2 = it(nxt, d + 1)
            if c is TM.TRUE:
                return s2, e2
            return [If(c, x, y) for x, y in zip(s2, st)], [If(c, x, y) for x, y in zip(e2, ex)]
        memo[L] = it(st, 0)
        return memo[L]

    def go(x):
        if not isinstance(x, TM.T):
            return x
        r = memo.get(("go", x))
        if r is not None:
            return r
        if x.op == "rec" and go(x.a[0]).op == "num":
            N = int(go(x.a[0]).a[0])
            if N > depth:
                raise SpecError("loop not bounded")
            st = [go(q) for q in x.a[2:]]
            single = None
            for i in range(N):
                b = args(x.a[1], st, num(i))
                if b.op == "agg" and b.a[0] == "tuple" and len(b.a) - 2 == len(st):
                    st = [go(q) for q in b.a[2:]]
                else:
                    st = [go(b)]
            r = st[0] if len(st) == 1 else tup(*st)
        elif x.op == "wout":
            r = run(x.a[0])[0][int(x.a[1].a[0])]
        elif x.op == "wexit":
            r = run(x.a[0])[1][int(x.a[1].a[0])]
        elif x.op == "lam":
            r = x
        else:
            na = [go(q) for q in x.a]
            r = TM.rebuild(x.op, na) if any(p is not q for p, q in zip(na, x.a)) else x
            if r is not x and r.op in ("rec", "wout", "wexit"):
                r = go(r)
        memo[("go", x)] = r
        return r
    return go(lift(t))

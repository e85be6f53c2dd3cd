"""Meaning of matrix expressions: a term over the matrix library's operations is
turned into its dimensions and its element at (i, j), so that matrix identities
become identities between sums of numbers."""
from spec import *
import term as TM


class Mat:
    def __init__(self, nr, nc, e):
        self.nr, self.nc, self.e = lift(nr), lift(nc), e

    def dense(self):
        return SEQ(self.nr, lambda i: SEQ(self.nc, lambda j: self.e(i, j)))

    @property
    def T(self):
        return Mat(self.nc, self.nr, lambda i, j: self.e(j, i))

    def __matmul__(self, o):
        if self.nc is num(1):
            return Mat(self.nr, o.nc, lambda i, j: self.e(i, num(0)) * o.e(num(0), j))
        return Mat(self.nr, o.nc, lambda i, j: SUM(self.nc, lambda k: self.e(i, k) * o.e(k, j)))

    def zip(self, o, f):
        return Mat(self.nr, self.nc, lambda i, j: f(self.e(i, j), o.e(i, j)))

    def map(self, f):
        return Mat(self.nr, self.nc, lambda i, j: f(self.e(i, j)))

    def fold(self, f):
        """sum of f over all elements"""
        if self.nc is num(1):
            return SUM(self.nr, lambda i: f(self.e(i, num(0))))
        if self.nr is num(1):
            return SUM(self.nc, lambda j: f(self.e(num(0), j)))
        return SUM(self.nr, lambda i: SUM(self.nc, lambda j: f(self.e(i, j))))

    def size(self):
        return self.nr * self.nc

    def flat(self, k):
        return self.e(k, num(0)) if self.nc is num(1) else self.e(num(0), k) if self.nr is num(1) else None


def opaque(name, nr, nc, *args):
    q = app("mat:" + name, *args)
    return Mat(nr, nc, lambda i, j: q[i][j])


def leaf(t, nr, nc=1):
    """an unknown matrix (a vector is read by one index)"""
    if lift(nc) is num(1):
        return Mat(nr, 1, lambda i, j: t[i])
    return Mat(nr, nc, lambda i, j: t[tup(i, j)])


def vector(name, n, *args):
    q = app("mat:" + name, *args)
    return Mat(n, 1, lambda i, j: q[i])


def mindim(x):
    return fn("min", *sorted((x.nr, x.nc), key=lambda q: q.id))


def svd(x):
    k = mindim(x)
    z = app("mat:svd", x.dense(), boolt(True), boolt(True))
    return opaque("svd_u", x.nr, k, z), vector("svd_s", k, z), opaque("svd_vt", k, x.nc, z)


def qr(x):
    k = mindim(x)
    z = app("mat:qr", x.dense())
    return opaque("q", x.nr, k, z), opaque("r", k, x.nc, z)


def diag(v):
    return Mat(v.nr, v.nr, lambda i, j: ite(cmp("eq", i, j), v.flat(i), num(0)))


def inv(m):
    return opaque("inverse", m.nr, m.nr, m.dense())


def norm2(m):
    return m.fold(lambda v: v * v)


def pair(a, b):
    return tup(a, b)


def factors(t):
    if t.op == "mul":
        return factors(t.a[0]) + factors(t.a[1])
    if t.op == "neg":
        return [num(-1)] + factors(t.a[0])
    return [t]


def head(t):
    while t.op in ("idx", "fld") and isinstance(t.a[0], TM.T):
        t = t.a[0]
    return (t.op, str(t.a[0]) if t.a and not isinstance(t.a[0], TM.T) else "")


def flat(t, memo=None):
    """sums of products that contain sums, as multiple sums in one order:
    matrix products associate"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    if t.op == "SUM":
        x = TM.fresh("z")
        fs = factors(flat(TM.apply(t.a[1], x), memo))
        binders = [(t.a[0], x)]
        todo, rest = list(fs), []
        while todo:
            f = todo.pop()
            if f.op == "SUM" and not any(v in set(TM.subterms(f.a[0])) for n_, v in binders):
                y = TM.fresh("z")
                binders.append((f.a[0], y))
                todo += factors(TM.apply(f.a[1], y))
            else:
                rest.append(f)
        b = num(1)
        for f in sorted(rest, key=head):
            b = b * f
        for n_, v in sorted(binders, key=lambda q: q[0].id):
            b = mk("SUM", n_, TM.lam(b, v))
        r = b
    elif any(isinstance(q, TM.T) for q in t.a) and t.op not in ("lam", "seq", "app"):
        na = [flat(q, memo) if isinstance(q, TM.T) else q for q in t.a]
        r = TM.rebuild(t.op, na) if any(p is not q for p, q in zip(na, t.a)) else t
    else:
        r = t
    memo[t] = r
    return r


class NotMatrix(SpecError):
    pass


class Tr:
    def __init__(self, leaves):
        self.leaves = leaves        # term -> Mat
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def s(self, t):
        """the scalar (or other) meaning of a term"""
        r = self(t)
        return r.dense() if isinstance(r, Mat) else r

    def m(self, t):
        r = self(t)
        if not isinstance(r, Mat):
            raise NotMatrix("not a matrix: " + TM.show(t, -2)[:120])
        return r

    def go(self, t):
        if t in self.leaves:
            return self.leaves[t]
        o, a = t.op, t.a
        if o == "app":
            r = self.call(a[0].split("::")[-1], a[0], list(a[1:]))
            if r is not None:
                return r
        if o == "neg" and isinstance(self(a[0]), Mat):
            return self(a[0]).map(lambda v: -v)
        if o == "ite":
            x, y = self(a[1]), self(a[2])
            if isinstance(x, Mat) and isinstance(y, Mat):
                c = self.s(a[0])
                return Mat(ite(c, x.nr, y.nr), ite(c, x.nc, y.nc), lambda i, j: ite(c, x.e(i, j), y.e(i, j)))
        if o == "idx":
            x = self(a[0])
            if isinstance(x, Mat):
                i = self.s(a[1])
                if i.op == "agg" and i.a[0] == "tuple":
                    return x.e(i.a[2], i.a[3])
                r = x.flat(i)
                if r is None:
                    raise NotMatrix("linear index into a matrix")
                return r
        if o == "len" and isinstance(self(a[0]), Mat):
            return self(a[0]).size()
        if o == "withidx":
            x = self(a[0])
            if isinstance(x, Mat):
                i, v = self.s(a[1]), self.s(a[2])
                if i.op == "agg" and i.a[0] == "tuple":
                    r, c = i.a[2], i.a[3]
                    return Mat(x.nr, x.nc, lambda p, q: ite(And(cmp("eq", p, r), cmp("eq", q, c)), v, x.e(p, q)))
                if x.nc is num(1):
                    return Mat(x.nr, x.nc, lambda p, q: ite(cmp("eq", p, i), v, x.e(p, q)))
                raise NotMatrix("linear index into a matrix")
        if o == "rec" and len(a) == 3:
            r = self.fill(t)
            if r is not None:
                return r
        if o == "fld":
            b = a[0]
            # a factor of a singular value decomposition x = u diag(s) v'
            q = b if a[3].endswith("::SVD") else b.a[0] if b.op == "fld" and b.a[3].endswith("::SVD") else None
            if q is not None and (q is t or b.op == "fld" or a[3].endswith("::SVD")):
                f = t if a[3].endswith("::SVD") else b
                d = f.a[0]
                if d.op == "app" and d.a[0].endswith("::svd"):
                    if f is t and f.a[2] != 2:
                        return TM.rebuild(o, [self.s(b)] + list(a[1:]))
                    x = self.m(d.a[1])
                    k = mindim(x)
                    z = app("mat:svd", x.dense(), *[self.s(g) for g in d.a[2:]])
                    return {0: opaque("svd_u", x.nr, k, z), 1: opaque("svd_vt", k, x.nc, z), 2: vector("svd_s", k, z)}[f.a[2]]
            # the payload of a successful inversion or decomposition
            if b.op == "app":
                nm = b.a[0].split("::")[-1]
                if nm == "try_inverse" and a[1] == 1:
                    return inv(self.m(b.a[1]))
                if nm == "solve" and a[1] == 1:
                    l = b.a[1]
                    if l.op == "app" and l.a[0].endswith("::lu"):
                        return inv(self.m(l.a[1])) @ self.m(b.a[2])
                if nm == "shape":
                    q = self.m(b.a[1])
                    return (q.nr, q.nc)[a[2]]
        if o == "lam":
            x = TM.fresh("b")
            return TM.lam(self.s(TM.apply(t, x)), x)
        if not any(isinstance(x, TM.T) for x in a):
            return t
        na = [self.s(x) if isinstance(x, TM.T) else x for x in a]
        if all(x is y for x, y in zip(na, a)):
            return t
        return TM.rebuild(o, na)

    def fill(self, t):
        """loops that write each cell once, from what it held before"""
        x = self(t.a[2])
        if not isinstance(x, Mat):
            return None
        state, loops = [], []
        while True:
            if t.op == "rec" and len(t.a) == 3 and (not state or t.a[2] is state[-1]):
                q, k = TM.fresh("q"), TM.fresh("k")
                b = TM.apply(TM.apply(t.a[1], q), k)
                if b.op != "agg" or len(b.a) != 3:
                    return None
                state.append(q)
                loops.append((k, self.s(t.a[0])))
                t = b.a[2]
                continue
            break
        if t.op != "withidx" or t.a[0] is not state[-1]:
            return None
        ix = t.a[1]
        ix = list(ix.a[2:]) if ix.op == "agg" and ix.a[0] == "tuple" else [ix]
        if len(ix) != len(loops) or {id(q) for q in ix} != {id(k) for k, m in loops}:
            return None
        if len(ix) == 1 and x.nc is not num(1):
            return None
        cell = TM.fresh("cell")
        m = {}
        for q in state:
            m[mk("idx", q, t.a[1])] = cell
        val = TM.subst(t.a[2], m)
        if any(q in set(TM.subterms(val)) for q in state):
            return None
        val = self.s(val)
        order = [next(j for j, (k, m_) in enumerate(loops) if k is q) for q in ix]

        def e(p, q):
            at = (p, q)
            v = TM.subst(val, dict([(ix[z], at[z]) for z in range(len(ix))] + [(cell, x.e(p, q))]))
            for z, j in enumerate(order):
                if loops[j][1] is not (x.nr, x.nc)[z]:
                    v = ite(cmp("lt", at[z], loops[j][1]), v, x.e(p, q))
            return v
        return Mat(x.nr, x.nc, e)

    def call(self, n, path, a):
        m, s = self.m, self.s
        if n == "matmul":
            return m(a[0]) @ m(a[1])
        if n == "matadd":
            return m(a[0]).zip(m(a[1]), lambda p, q: p + q)
        if n == "matsub":
            return m(a[0]).zip(m(a[1]), lambda p, q: p - q)
        if n == "matscale":
            c = s(a[1])
            return m(a[0]).map(lambda v: c * v)
        if n == "matmap":
            f = self.s(a[1])
            return m(a[0]).map(lambda v: TM.apply(f, v))
        if path.startswith("into:Matrix"):
            return self(a[0])
        if not path.startswith("nalgebra::"):
            return None
        if n in ("from_element", "from_iterator", "zeros", "identity", "from_diagonal", "repeat"):
            if n == "from_diagonal":
                v = m(a[0])
                return Mat(v.nr, v.nr, lambda i, j: ite(cmp("eq", i, j), v.flat(i), num(0)))
            if n == "identity":
                return Mat(s(a[0]), s(a[1]), lambda i, j: ite(cmp("eq", i, j), num(1), num(0)))
            nr, rest = s(a[0]), a[1:]
            nc = num(1)
            if n == "zeros":
                return Mat(nr, s(rest[0]) if rest else nc, lambda i, j: num(0))
            if len(rest) == 2 and n == "from_element":
                nc, rest = s(rest[0]), rest[1:]
            if n == "from_iterator":
                q = rest[0]
                q = q.a[0] if q.op == "iter" else q
                v = s(q)
                return Mat(nr, 1, lambda i, j: v[i])
            c = s(rest[0])
            return Mat(nr, nc, lambda i, j: c)
        if not a:
            return None
        x = self(a[0])
        if not isinstance(x, Mat):
            if n == "r" or n == "q":
                return self.qr(n, a[0])
            return None
        if n == "transpose":
            return x.T
        if n == "insert_column":
            k, c = s(a[1]), s(a[2])
            return Mat(x.nr, x.nc + 1, lambda i, j: ite(cmp("eq", j, k), c, x.e(i, ite(cmp("lt", j, k), j, j - 1)) if k is not num(0) else x.e(i, j - 1)))
        if n == "insert_row":
            k, c = s(a[1]), s(a[2])
            return Mat(x.nr + 1, x.nc, lambda i, j: ite(cmp("eq", i, k), c, x.e(ite(cmp("lt", i, k), i, i - 1), j) if k is not num(0) else x.e(i - 1, j)))
        if n == "remove_row":
            k = s(a[1])
            return Mat(x.nr - 1, x.nc, lambda i, j: x.e(i + 1, j) if k is num(0) else x.e(ite(cmp("lt", i, k), i, i + 1), j))
        if n == "remove_column":
            k = s(a[1])
            return Mat(x.nr, x.nc - 1, lambda i, j: x.e(i, j + 1) if k is num(0) else x.e(i, ite(cmp("lt", j, k), j, j + 1)))
        if n == "component_mul":
            return x.zip(m(a[1]), lambda p, q: p * q)
        if n == "component_div":
            return x.zip(m(a[1]), lambda p, q: p / q)
        if n == "add_scalar":
            c = s(a[1])
            return x.map(lambda v: v + c)
        if n == "scale":
            c = s(a[1])
            return x.map(lambda v: v * c)
        if n == "abs":
            return x.map(lambda v: fn("abs", v))
        if n == "nrows":
            return x.nr
        if n == "ncols":
            return x.nc
        if n in ("len",):
            return x.size()
        if n == "shape":
            return tup(x.nr, x.nc)
        if n == "column":
            k = s(a[1])
            return Mat(x.nr, 1, lambda i, j: x.e(i, k))
        if n == "row":
            k = s(a[1])
            return Mat(1, x.nc, lambda i, j: x.e(k, j))
        if n == "view":
            p, d = s(a[1]), s(a[2])
            return Mat(d[num(1)] if d.op != "agg" else d.a[2], d.a[3], lambda i, j: x.e(p.a[2] + i, p.a[3] + j))
        if n in ("from", "into", "clone_owned", "into_owned", "clone", "as_view"):
            return x
        if n == "iter":
            if x.nc is num(1):
                return SEQ(x.nr, lambda i: x.e(i, num(0)))
            if x.nr is num(1):
                return SEQ(x.nc, lambda i: x.e(num(0), i))
            return SEQ(x.nr * x.nc, lambda k: x.e(fn("irem", k, x.nr), fn("idiv", k, x.nr)))
        if n == "sum":
            return x.fold(lambda v: v)
        if n == "mean":
            return x.fold(lambda v: v) / x.size()
        if n == "row_mean":
            return Mat(1, x.nc, lambda i, j: SUM(x.nr, lambda q: x.e(q, j)) / x.nr)
        if n == "row_sum":
            return Mat(1, x.nc, lambda i, j: SUM(x.nr, lambda q: x.e(q, j)))
        if n == "column_mean":
            return Mat(x.nr, 1, lambda i, j: SUM(x.nc, lambda q: x.e(i, q)) / x.nc)
        if n == "dot":
            y = m(a[1])
            return x.zip(y, lambda p, q: p * q).fold(lambda v: v)
        if n in ("magnitude_squared", "norm_squared"):
            return norm2(x)
        if n in ("norm", "magnitude"):
            return powt(norm2(x), num("1/2"))
        if n == "amax":
            return app("mat:amax", x.map(lambda v: fn("abs", v)).dense())
        if n == "max":
            return app("mat:max", x.dense())
        if n == "metric_distance":
            return powt(norm2(x.zip(m(a[1]), lambda p, q: p - q)), num("1/2"))
        if n == "apply_metric_distance":
            return app("mat:distance", x.dense(), m(a[1]).dense(), s(a[2]))
        if n in ("qr", "svd", "lu", "try_inverse"):
            return app("mat:" + n, x.dense(), *[s(q) for q in a[1:]])
        raise NotMatrix("matrix operation " + n)

    def qr(self, n, t):
        if t.op == "app" and t.a[0].endswith("::qr"):
            return qr(self.m(t.a[1]))[0 if n == "q" else 1]
        return None

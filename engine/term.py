"""Hash-consed value-number terms (the Herbrand universe of the value
numbering).  Every value computed by a MIR body is mapped to one of these."""
from fractions import Fraction as Fr


class T:
    __slots__ = ("op", "a", "id", "hl", "hasref", "_h", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.a = a
    t._h = hash(k)
    _n[0] += 1
    t.id = _n[0]
    hl = 0
    hr = op == "ref"
    for x in a:
        if isinstance(x, T):
            if x.hl > hl:
                hl = x.hl
            hr = hr or x.hasref
    t.hl = max(hl + 1, a[0]) if op == "lam" else hl
    t.hasref = hr
    _tab[k] = t
    return t


def num(x):
    return mk("num", Fr(x))


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNDEF = mk("undef")
UNIT = mk("agg", "tuple", 0, )
ZERO, ONE, TWO = num(0), num(1), num(2)
_fresh = [0]


def boolt(b):
    return TRUE if b else FALSE


def var(name):
    return mk("var", name)


def fresh(tag="x"):
    _fresh[0] += 1
    return mk("fresh", tag, _fresh[0])


def isnum(t):
    return t.op == "num"


def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] + b.a[0])
    if isnum(a) and a.a[0] == 0:
        return b
    if isnum(b) and b.a[0] == 0:
        return a
    # (x + c) + d and (x - c) + d fold, so affine index arithmetic is canonical
    if isnum(b) and a.op == "add" and isnum(a.a[1]):
        return add(a.a[0], num(a.a[1].a[0] + b.a[0]))
    if isnum(a) and not isnum(b):
        return add(b, a)
    if a.op == "ite" and isnum(b):
        return ite(a.a[0], add(a.a[1], b), add(a.a[2], b))
    return mk("add", a, b)


def sub(a, b):
    if isnum(b):
        return add(a, num(-b.a[0]))
    if a is b:
        return ZERO
    if a.op == "add" and isnum(a.a[1]) and a.a[0] is b:
        return a.a[1]
    if b.op == "add" and isnum(b.a[1]):
        return sub(add(a, num(-b.a[1].a[0])), b.a[0])
    if b.op == "sub" and b.a[0] is a:
        return b.a[1]
    return mk("sub", a, b)


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] * b.a[0])
    if isnum(a) and a.a[0] == 1:
        return b
    if isnum(b) and b.a[0] == 1:
        return a
    return mk("mul", a, b)


def div(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        return num(a.a[0] / b.a[0])
    if isnum(b) and b.a[0] == 1:
        return a
    return mk("div", a, b)


def neg(a):
    if isnum(a):
        return num(-a.a[0])
    return mk("neg", a)


def fn(name, *args):
    return mk("fn", name, *args)


def app(name, *args):
    """uninterpreted application"""
    return mk("app", name, *args)


def powt(a, b):
    return mk("pow", a, b)


def exp(a):
    return fn("exp", a)


def ln(a):
    return fn("ln", a)


def sqrt(a):
    return powt(a, num(Fr(1, 2)))


NEGCMP = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq"}


_enum_size = [None]


def nullary(x):
    return x.op == "agg" and len(x.a) == 2 or x.op == "ite" and nullary(x.a[1]) and nullary(x.a[2])


def set_enum_sizes(f):
    _enum_size[0] = f


def cmp(op, a, b):
    if a is b and a.op != "undef":
        return boolt(op in ("le", "ge", "eq"))
    if isnum(a) and isnum(b):
        x, y = a.a[0], b.a[0]
        return boolt({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                      "eq": x == y, "ne": x != y}[op])
    if op in ("eq", "ne"):
        for x, y in ((a, b), (b, a)):
            if x.op == "discr" and x.a[1] == 2 and isnum(y) and y.a[0] == 1:
                return not_(cmp("eq", x, ZERO)) if op == "eq" else cmp("eq", x, ZERO)
            if x.op == "bool":
                return y if (x.a[0] == (op == "eq")) else not_(y)
            if x.op == "agg" and len(x.a) == 2 and x.a[1] is not None and y.op != "agg" and _enum_size[0] is not None:
                # equality with a variant without fields is equality of discriminants
                n = _enum_size[0](x.a[0])
                if n:
                    return cmp(op, discr(y, n), num(x.a[1]))
        if a.op == b.op and a.op in ("str", "char"):
            return boolt((a.a[0] == b.a[0]) == (op == "eq"))
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return boolt(op == "ne")
            if len(a.a) == len(b.a):
                r = TRUE
                for x, y in zip(a.a[2:], b.a[2:]):
                    if not isinstance(x, T):
                        continue
                    r = and_(r, cmp("eq", x, y))
                return r if op == "eq" else not_(r)
        if op == "ne":
            return not_(cmp("eq", a, b))
        if a.op == "fn" and b.op == "fn" and a.a[0] == b.a[0] and a.a[0] in ("date_month", "date_weekday"):
            n = 12 if a.a[0] == "date_month" else 7
            return cmp("eq", discr(a, n), discr(b, n))
        for x, y in ((a, b), (b, a)):
            if x.op == "ite" and (isnum(y) and (isnum(x.a[1]) or isnum(x.a[2])) or nullary(x.a[1]) and nullary(x.a[2])):
                return ite(x.a[0], cmp("eq", x.a[1], y), cmp("eq", x.a[2], y))
        if a.id > b.id:
            a, b = b, a
        return mk("cmp", "eq", a, b)
    for x, y, l in ((a, b, True), (b, a, False)):
        if x.op == "ite" and isnum(y) and (isnum(x.a[1]) and isnum(x.a[2])):
            f = (lambda z: cmp(op, z, y)) if l else (lambda z: cmp(op, y, z))
            return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    if op == "gt":
        return cmp("lt", b, a)
    if op == "ge":
        return cmp("le", b, a)
    return mk("cmp", op, a, b)


def not_(a):
    if a.op == "bool":
        return boolt(not a.a[0])
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def nnf(t, neg=False):
    """negations pushed to the atoms"""
    if t.op == "not":
        return nnf(t.a[0], not neg)
    if t.op in ("and", "or"):
        f = and_ if (t.op == "and") != neg else or_
        return f(nnf(t.a[0], neg), nnf(t.a[1], neg))
    return not_(t) if neg else t


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a is not_(b):
        return FALSE
    for p, q in ((a, b), (b, a)):
        # not (x < y) together with x == y, with x != y
        if p.op == "not" and p.a[0].op == "cmp" and p.a[0].a[0] == "lt":
            x, y = p.a[0].a[1:]
            if _iseq(q, x, y):
                return q
            if q.op == "not" and _iseq(q.a[0], x, y):
                return cmp("lt", y, x)
    return mk("and", a, b)


def _iseq(q, x, y):
    return q.op == "cmp" and q.a[0] == "eq" and (q.a[1] is x and q.a[2] is y or q.a[1] is y and q.a[2] is x)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a is not_(b):
        return TRUE
    for p, q in ((a, b), (b, a)):
        if p.op == "cmp" and p.a[0] == "lt" and _iseq(q, p.a[1], p.a[2]):
            return cmp("le", p.a[1], p.a[2])
    return mk("or", a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if b is FALSE:
        return and_(c, a)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if a.op == "undef":
        return b
    if b.op == "undef":
        return a
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # merge aggregates of the same shape fieldwise
    if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
        return mk("agg", a.a[0], a.a[1], *[ite(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if c.op == "exists":
        # with no such index, the first one is the length
        f = first(*c.a)
        if f.op == "first" and mentions(a, {f}) and subst(a, {f: c.a[0]}) is b:
            return a
    return mk("ite", c, a, b)


# -------------------------------------------------------------- binders
def subst(t, m, memo=None):
    """replace terms (by identity) according to m, rebuilding with the smart
    constructors"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    na = []
    ch = False
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
            ch = ch or (y is not x)
            na.append(y)
        else:
            na.append(x)
    if ch and t.op == "lam" and na[1].hl + 1 != t.a[0]:
        # the new body has other binders: renumber this one
        x = fresh("b")
        r = lam(subst(subst(t.a[1], {mk("bv", t.a[0]): x}), m), x)
    else:
        r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


_hooks = {}


def rebuild(op, a):
    if op == "add":
        return add(*a)
    if op == "sub":
        return sub(*a)
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "neg":
        return neg(*a)
    if op == "cmp":
        return cmp(*a)
    if op == "not":
        return not_(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "ite":
        return ite(*a)
    h = _hooks.get(op)
    if h:
        return h(*a)
    return mk(op, *a)


def lam(body, bv):
    h = body.hl + 1
    b = subst(body, {bv: mk("bv", h)})
    if b.hl + 1 != h:
        # simplified by the replacement (the same again in a term without binders)
        x = fresh("b")
        b2 = subst(b, {mk("bv", h): x})
        h = max(b2.hl, b.hl) + 1
        b = subst(b2, {x: mk("bv", h)})
    return mk("lam", h, b)


def lamf(f):
    """lambda from a python function on terms"""
    x = fresh("b")
    return lam(f(x), x)


def apply(l, arg):
    return subst(l.a[1], {mk("bv", l.a[0]): arg})


def mentions(t, xs, memo=None):
    if memo is None:
        memo = {}
    if t in xs:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    r = any(isinstance(x, T) and mentions(x, xs, memo) for x in t.a)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return seen


# ------------------------------------------------------- aggregates / access
def agg(kind, variant, *fields):
    if kind == "num_complex::Complex" and len(fields) == 2:
        return add(fields[0], mul(fn("I"), fields[1]))
    if variant == 0 and fields and kind != "array":
        # eta: Struct{x.0, x.1, ...} is x
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == 0 and f0.a[2] == 0 and f0.a[3] == kind and f0.a[4] == len(fields):
            b = f0.a[0]
            if all(f.op == "fld" and f.a[0] is b and f.a[2] == i for i, f in enumerate(fields)):
                return b
    return mk("agg", kind, variant, *fields)


def fld(base, variant, idx, kind=None, n=0):
    if kind == "num_complex::Complex" and base.op not in ("agg", "undef", "ite"):
        return fn("im" if idx else "re", base)
    if base.op == "agg":
        if base.a[1] == variant or base.a[0] in ("tuple", "array") or base.a[0].startswith("closure"):
            return base.a[2 + idx] if 2 + idx < len(base.a) else UNDEF
        return UNDEF
    if base.op == "ite":
        return ite(base.a[0], fld(base.a[1], variant, idx, kind, n), fld(base.a[2], variant, idx, kind, n))
    if base.op == "undef":
        return UNDEF
    return mk("fld", base, variant, idx, kind, n)


def proj_index(base, i):
    if base.op == "agg" and base.a[0] == "array" and isnum(i):
        k = int(i.a[0])
        if 0 <= k < len(base.a) - 2:
            return base.a[2 + k]
    if base.op == "seq":
        return apply(base.a[1], i)
    if base.op == "ite":
        return ite(base.a[0], proj_index(base.a[1], i), proj_index(base.a[2], i))
    if base.op == "withidx":
        if base.a[1] is i:
            return base.a[2]
        if isnum(base.a[1]) and isnum(i):
            return proj_index(base.a[0], i)
    if base.op == "mapset":
        return ite(cmp("eq", base.a[1], i), base.a[2], proj_index(base.a[0], i))
    if base.op == "mapdel":
        return proj_index(base.a[0], i)
    if base.op == "mapvals":
        return apply(apply(base.a[1], i), proj_index(base.a[0], i))
    if base.op == "vpush":
        if i is length(base.a[0]):
            return base.a[1]
        if isnum(i) and isnum(length(base.a[0])):
            return proj_index(base.a[0], i)
    if base.op == "vinsert" and isnum(base.a[1]):
        v, k, x = base.a
        if isnum(i):
            return x if i is k else proj_index(v, i if i.a[0] < k.a[0] else add(i, num(-1)))
        if k is ZERO:
            return ite(cmp("eq", i, k), x, proj_index(v, add(i, num(-1))))
    if base.op == "concat":
        n = length(base.a[0])
        if isnum(n) and isnum(i):
            return proj_index(base.a[0], i) if i.a[0] < n.a[0] else proj_index(base.a[1], num(i.a[0] - n.a[0]))
    return mk("idx", base, i)


def length(v):
    if v.op == "agg" and v.a[0] == "array":
        return num(len(v.a) - 2)
    if v.op == "seq":
        return v.a[0]
    if v.op == "vpush":
        return add(length(v.a[0]), ONE)
    if v.op == "withidx":
        return length(v.a[0])
    if v.op == "vinsert":
        return add(length(v.a[0]), ONE)
    if v.op == "concat":
        return add(length(v.a[0]), length(v.a[1]))
    if v.op in ("reversed", "cumul"):
        return length(v.a[0])
    if v.op == "ite":
        return ite(v.a[0], length(v.a[1]), length(v.a[2]))
    if v.op == "sorted":
        return length(v.a[0])
    if v.op == "app" and v.a[0] == "dft":
        return length(v.a[1])
    return mk("len", v)


def seq(n, l):
    # eta: [v[j] for j in 0..len v] is v
    b = l.a[1]
    if b.op == "idx" and b.a[1] is mk("bv", l.a[0]) and length(b.a[0]) is n and not mentions(b.a[0], {mk("bv", l.a[0])}):
        return b.a[0]
    return mk("seq", n, l)


_hooks["agg"] = agg
_hooks["fld"] = fld
_hooks["idx"] = proj_index
_hooks["len"] = length
_hooks["seq"] = seq


def discr(t, n=0):
    """discriminant as a variant index (n = number of variants, 0 unknown)"""
    if t.op == "agg":
        return num(t.a[1])
    if t.op == "ite":
        return ite(t.a[0], discr(t.a[1], n), discr(t.a[2], n))
    return mk("discr", t, n)


_hooks["discr"] = discr


def first(n, l):
    """least index with the property (n if none)"""
    if isnum(n) and 0 <= n.a[0] <= 8:
        r = n
        for k in reversed(range(int(n.a[0]))):
            r = ite(apply(l, num(k)), num(k), r)
        return r
    return mk("first", n, l)


_hooks["first"] = first


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "num":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o in ("var", "const"):
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "fresh":
        return "?%s%d" % a
    if o == "bv":
        return "b%d" % a
    if o in ("add", "sub", "mul", "div", "and", "or"):
        return "(%s %s %s)" % (s(a[0]), {"add": "+", "sub": "-", "mul": "*", "div": "/", "and": "&&", "or": "||"}[o], s(a[1]))
    if o == "neg":
        return "-" + s(a[0])
    if o == "not":
        return "!" + s(a[0])
    if o == "pow":
        return "%s^%s" % (s(a[0]), s(a[1]))
    if o == "cmp":
        return "(%s %s %s)" % (s(a[1]), {"lt": "<", "le": "<=", "eq": "=="}[a[0]], s(a[2]))
    if o == "ite":
        return "if(%s, %s, %s)" % tuple(map(s, a))
    if o in ("fn", "app"):
        return "%s(%s)" % (a[0] if isinstance(a[0], str) else s(a[0]), ", ".join(s(x) for x in a[1:]))
    if o == "fld":
        return "%s.%s" % (s(a[0]), FIELD(a[3], a[1], a[2]))
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "agg":
        k = a[0].split("::")[-1] if "::" in a[0] else a[0]
        return "%s#%d{%s}" % (k, a[1], ", ".join(s(x) for x in a[2:]))
    if o == "lam":
        return "λb%d.%s" % (a[0], s(a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def _field(kind, variant, idx):
    return str(idx)


FIELD = _field


def set_field_namer(f):
    global FIELD
    FIELD = f

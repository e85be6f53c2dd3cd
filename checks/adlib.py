"""Shared analysis for the automatic-differentiation properties."""
from spec import *
import norm, interp
import term as TM

CR = "RustQuant_autodiff"


def gvertices(C, g):
    return C.S.get(g, "Graph", "vertices", CR)


def decode(C, final, base):
    """vertices appended to `base` (a vertex-list term), oldest first; None if
    the final list is not base followed by pushes"""
    out = []
    v = final
    while v is not base:
        if v.op != "vpush":
            return None
        out.append(v.a[1])
        v = v.a[0]
    return out[::-1]


def split(v, base, under=()):
    """(conditions, list) for the ways the vertex list v, whose spine branches,
    can come about"""
    spine = []
    t = v
    while t is not base and t.op == "vpush":
        spine.append(t.a[1])
        t = t.a[0]
    if t.op != "ite" or len(under) > 3:
        return [(list(under), v)]
    out = []
    for c, w in ((t.a[0], t.a[1]), (TM.not_(t.a[0]), t.a[2])):
        for x in reversed(spine):
            w = TM.mk("vpush", w, x)
        out += split(w, base, under + (c,))
    return out


def tapes(C, item, args):
    """the ways a call can record: one Tape per branch of what it appends"""
    t = Tape(C, item, args, quiet=True)
    if t.r is None:
        return []
    if t.ok:
        return [t]
    out = []
    for under, v in split(gvertices(C, t.r.final(t.g)), t.base):
        q = Tape.__new__(Tape)
        q.__dict__.update(t.__dict__)
        env = {}
        for c in under:
            env[c] = TRUE
            env[TM.not_(c)] = FALSE
        q.under = under
        q.verts = decode(C, TM.subst(v, env), t.base)
        q.ret = TM.subst(t.r.ret, env)
        if q.verts is None:
            C.undecided(item.path, item, "appended vertices not in closed form")
            continue
        q.ok = True
        out.append(q)
    return out


class Tape:
    """one operator analysed on symbolic operands sharing a graph g: the
    vertices it appends and its result"""

    def __init__(self, C, item, args, quiet=False):
        self.ok = False
        self.under = []
        self.g = var("g")
        r = C.ev(item, args)
        self.r = r
        if r is None:
            return
        self.ret = r.ret
        self.base = gvertices(C, self.g)
        self.n0 = LEN(self.base)
        self.verts = decode(C, gvertices(C, r.final(self.g)), self.base)
        if self.verts is None:
            if quiet:
                return
            C.undecided(item.path, item, "appended vertices not in closed form")
            return
        self.ok = True

    def links(self, C, k):
        """[(parent index, partial)] of appended vertex k"""
        v = self.verts[k]
        pa = C.S.get(v, "Vertex", "parents", CR)
        de = C.S.get(v, "Vertex", "partials", CR)
        return [(pa[i], de[i]) for i in range(2)]

    def number(self, idx):
        """k when idx is the index of appended vertex k"""
        for k in range(len(self.verts)):
            if idx is self.n0 + k:
                return k
        return None

    def total(self, C, idx, target, depth=0):
        """total derivative of vertex idx with respect to operand index
        `target`, by the chain rule over the appended vertices"""
        if idx is target:
            return ONE
        if idx.op == "ite":
            a, b = self.total(C, idx.a[1], target, depth), self.total(C, idx.a[2], target, depth)
            return None if a is None or b is None else ite(idx.a[0], a, b)
        k = self.number(idx)
        if k is None:
            # another operand's vertex, which does not depend on the target
            return ZERO if idx.op in ("fld", "var") else None
        s = ZERO
        for p, d in self.links(C, k):
            if d is ZERO:
                continue
            if depth > 20 or self.number(p) is not None and self.number(p) >= k:
                return None
            q = self.total(C, p, target, depth + 1)
            if q is None:
                return None
            if q is not ZERO:
                s = s + d * q
        return s


def variable(C, name, g=None):
    return C.S.make("Variable", CR, graph=g or var("g"), index=var(name + ".index"), value=var(name + ".value"))


def build(C, kinds, g=None):
    args, vals = [], []
    for k, n in zip(kinds, "ab"):
        if k == "v":
            args.append(variable(C, n, g[n] if g else None))
            vals.append(var(n + ".value"))
        else:
            args.append(var(n))
            vals.append(var(n))
    return args, vals


def refuses(r, gs):
    """the call cannot return when the two operands' tapes gs differ: True, False
    (it returns whatever they are) or None"""
    same = TM.mk("app", "ptr_eq", *sorted(gs, key=lambda t: t.id))
    ok = TRUE
    for gd, c, k, w in r.assumes:
        ok = And(ok, Or(*[TM.not_(TM.subst(x, {same: FALSE})) for x in gd], TM.subst(c, {same: FALSE})))
    if ok is FALSE:
        return True
    # what remains may still tell the tapes apart
    return None if mentions(ok, {gs[0]}) and mentions(ok, {gs[1]}) else False


def label(name, kinds):
    return "%s(%s)" % (name, ",".join({"v": "Variable", "f": "f64", "i": "int"}[k] for k in kinds))


def operators(C):
    """every public operator/function of the differentiable type: the name, the
    item, argument builder and the operand kinds"""
    out = []
    for it in C.F.fns(lambda i: i.did.startswith(CR)):
        if it.self_ty is None or it.in_trait:
            continue
        st = it.self_ty.s
        ret = it.ret.s
        isvar = lambda s: s.replace("&", "").split("<")[0].endswith("variable::Variable")
        if not isvar(ret):
            continue
        kinds = []
        for k in range(1, it.argc + 1):
            t = it.lty(k)
            s = t.strip()
            if isvar(s.s):
                kinds.append("v")
            elif s.k == "float":
                kinds.append("f")
            elif s.k in ("int", "uint"):
                kinds.append("i")
            else:
                kinds.append("?")
        if "?" in kinds or "v" not in kinds:
            continue
        out.append((it, kinds))
    return out


# what an operator of that name means, by the documentation of the f64 method
# of the same name
def meaning(name, a):
    x = a[0]
    y = a[1] if len(a) > 1 else None
    t = {
        "add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "div": lambda: x / y,
        "neg": lambda: -x, "abs": lambda: fn("abs", x), "recip": lambda: 1 / x, "sqrt": lambda: sqrt(x),
        "cbrt": lambda: fn("cbrt", x), "exp2": lambda: 2 ** x, "exp_m1": lambda: exp(x) - 1,
        "ln_1p": lambda: ln(1 + x), "log10": lambda: ln(x) / ln(num(10)), "log2": lambda: ln(x) / ln(num(2)),
        "log": lambda: ln(x) / ln(y), "min": lambda: vmin(x, y), "max": lambda: vmax(x, y),
        "powf": lambda: x ** y, "powi": lambda: x ** y,
    }
    if name in t:
        return t[name]()
    if name in ("sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
                "exp", "ln", "erf", "erfc"):
        return fn(name, x)
    return None


# domain on which each function is differentiable
def domain(name, a, kinds):
    x = a[0]
    y = a[1] if len(a) > 1 else None
    D = []
    if name in ("ln", "log2", "log10", "sqrt", "log", "powf", "powi"):
        D.append(ne(x, 0) if name == "powi" and kinds[1] == "i" else x > 0)
    if name == "log":
        D += [y > 0, ne(y, 1)]
    if name == "ln_1p":
        D.append(x > -1)
    if name in ("recip", "abs", "cbrt"):
        D.append(ne(x, 0))
    if name == "div":
        D.append(ne(y, 0))
    if name in ("asin", "acos", "atanh"):
        D += [x > -1, x < 1]
    if name == "acosh":
        D.append(x > 1)
    if name in ("min", "max"):
        D.append(ne(x, y))
    return D

"""Compound assignment of differentiable variables is the operator it abbreviates,
and the observers of variables, vertices and tapes read what they name."""
from spec import *
import adlib
import term as TM
import norm

FLOOR = 40
CR = adlib.CR
NAMES = {"add_assign": "add", "sub_assign": "sub", "mul_assign": "mul", "div_assign": "div"}


def run(C):
    for it in C.F.fns(lambda i: i.did.startswith(CR) and i.name in NAMES and not i.in_trait and i.self_ty is not None):
        k = []
        for q in (1, 2):
            s = it.lty(q).strip()
            k.append("v" if s.s.replace("&", "").replace("mut ", "").split("<")[0].endswith("variable::Variable") else "f" if s.k == "float" else "?")
        if "?" in k or "v" not in k:
            continue
        C.part(adlib.label(it.name, k), assign, it, k)
    C.part("observers", observers)
    C.part("comparisons", comparisons)
    C.part("vertices", vertices)
    C.part("tape", tape)


def assign(C, it, kinds):
    inst = adlib.label(it.name, kinds)
    args, vals = adlib.build(C, kinds)
    want = adlib.meaning(NAMES[it.name], vals)
    dom = adlib.domain(NAMES[it.name], vals, kinds)
    x, g = var("target"), var("g")
    r = C.ev(it, [x, args[1]], state={x: args[0]})
    if not r:
        return
    res = r.final(x)
    if kinds[0] == "f":
        C.eq(inst + " leaves the plain result", res, want, it, dom)
        return
    C.eq(inst + " value", C.S.get(res, "Variable", "value", CR), want, it, dom, rule="carried value")
    tp = adlib.Tape.__new__(adlib.Tape)
    tp.ok, tp.g, tp.r = True, g, r
    tp.base = adlib.gvertices(C, g)
    tp.n0 = LEN(tp.base)
    tp.verts = adlib.decode(C, adlib.gvertices(C, r.final(g)), tp.base)
    if tp.verts is None:
        return C.undecided(inst, it, "appended vertices not in closed form")
    C.eq(inst + " graph", C.S.get(res, "Variable", "graph", CR), g, it)
    idx = C.S.get(res, "Variable", "index", CR)
    C.eq(inst + " designates the last vertex", idx, tp.n0 + (len(tp.verts) - 1), it)
    for k, n, v in zip(kinds, "ab", vals):
        if k != "v":
            continue
        d = tp.total(C, idx, var(n + ".index"))
        if d is None:
            C.undecided(inst + " d/d" + n, it, "recorded vertices not in closed form")
        else:
            C.eq(inst + " d/d" + n, d, norm.diff(want, v), it, dom, rule="recorded derivative")
    if kinds == ["v", "v"]:
        gs = {"a": var("ga"), "b": var("gb")}
        args, _ = adlib.build(C, kinds, gs)
        q = C.ev(it, [x, args[1]], state={x: args[0]})
        if q:
            C.fact(inst + " rejects operands of different graphs", adlib.refuses(q, (gs["a"], gs["b"])), it,
                   "the call records and returns when the two graphs differ")


def observers(C):
    a = adlib.variable(C, "a")
    v = var("a.value")
    f64 = {}
    for nm, want in (("signum", fn("signum", v)), ("is_zero", If(eq(v, num(0)), TRUE, FALSE))):
        f64[nm] = want
    for nm in ("signum", "is_zero"):
        it = C.method("Variable", nm, None, CR)
        r = it and C.ev(it, [a])
        if r:
            C.eq("observer " + nm, If(r.ret, 1, 0) if nm != "signum" else r.ret, If(f64[nm], 1, 0) if nm != "signum" else f64[nm], it)
    # the classification of a variable is the classification of its value: the same
    # term as the method of that name on a plain number
    same = {"is_finite": "is_finite", "is_infinite": "is_infinite", "is_nan": "is_nan", "is_normal": "is_normal",
            "is_subnormal": "is_subnormal", "is_positive": "is_sign_positive", "is_negative": "is_sign_negative"}
    for nm, f in same.items():
        it = C.method("Variable", nm, None, CR)
        r = it and C.ev(it, [a])
        if r:
            t = r.ret
            if t.op in ("cmp", "not") and f in ("is_sign_positive", "is_sign_negative"):
                C.eq("observer " + nm, If(t, 1, 0), If(num(0) <= v, 1, 0) if f == "is_sign_positive" else If(v < num(0), 1, 0), it)
                continue
            good = classified(t, f, v)
            C.fact("observer " + nm, good, it, TM.show(t, -2)[:80])
    it = C.method("Variable", "round", None, CR)
    x = var("target")
    r = it and C.ev(it, [x], state={x: a})
    if r:
        b = r.final(x)
        C.eq("round: value", C.S.get(b, "Variable", "value", CR), fn("round", v), it)


CLASSES = ("is_finite", "is_infinite", "is_nan", "is_normal", "is_subnormal", "is_sign_positive", "is_sign_negative")


def classified(t, f, v):
    """True: the classification f of v; False: another classification of it; None: unknown"""
    nm = None
    if t.op in ("app", "fn") and len(t.a) == 2 and t.a[1] is v:
        nm = str(t.a[0]).split("::")[-1]
    neg = t.op == "not" and t.a[0].op in ("app", "fn") and len(t.a[0].a) == 2 and t.a[0].a[1] is v
    if nm in CLASSES:
        return nm == f
    if neg and str(t.a[0].a[0]).split("::")[-1] in CLASSES:
        m = str(t.a[0].a[0]).split("::")[-1]
        return {("is_sign_positive", "is_sign_negative"): True, ("is_sign_negative", "is_sign_positive"): True}.get((m, f), False)
    return None


def comparisons(C):
    g, h = var("ga"), var("gb")
    a, b = adlib.variable(C, "a", g), adlib.variable(C, "b", h)
    va, vb = var("a.value"), var("b.value")
    for it in C.F.method("Variable", "eq", None, CR):
        other = it.lty(2).strip()
        if other.k == "float":
            r = C.ev(it, [a, var("y")])
            if r:
                C.eq("equals a number", If(r.ret, 1, 0), If(eq(va, var("y")), 1, 0), it)
        else:
            r = C.ev(it, [a, b])
            if r:
                same = TM.mk("app", "ptr_eq", *sorted((g, h), key=lambda t: t.id))
                on, off = (TM.subst(r.ret, {same: v}) for v in (TM.TRUE, FALSE))
                C.prove("equal variables have one value", Or(TM.not_(on), eq(va, vb)), it)
                C.prove("equal variables are one vertex", Or(TM.not_(on), eq(var("a.index"), var("b.index"))), it)
                if any(identity(x, (g, h)) for x in TM.subterms(r.ret)):
                    C.prove("variables of different tapes are not equal", TM.not_(off), it)
                else:
                    C.fact("variables of different tapes are not equal", r.ret is FALSE, it, "the comparison does not depend on the identity of the tapes")
                q = C.ev(it, [a, a])
                if q:
                    C.prove("a variable equals itself", q.ret, it, [eq(va, va)])
    it = C.method("Variable", "cmp", None, CR)
    r = it and C.ev(it, [a, b])
    if r:
        o = ordering(r.ret)
        C.eq("order: less", o[0], If(va < vb, 1, 0), it)
        C.eq("order: greater", o[1], If(vb < va, 1, 0), it)
    it = C.method("Variable", "partial_cmp", None, CR)
    r = it and C.ev(it, [a, b])
    if r:
        o = ordering(fld(r.ret, 1, 0, "core::option::Option", 1))
        C.eq("partial order: less", o[0], If(va < vb, 1, 0), it, [cmp("eq", discr(r.ret, 2), num(1))])
        C.eq("partial order: greater", o[1], If(vb < va, 1, 0), it, [cmp("eq", discr(r.ret, 2), num(1))])


def identity(x, gs):
    """an operation on a tape itself rather than on what it holds"""
    return x.op != "fld" and any(y in gs for y in x.a if isinstance(y, TM.T))


def ordering(t):
    """(1 if less, 1 if greater) of an Ordering: its discriminants are 0, 1, 2 in order"""
    d = discr(t, 3)
    return If(eq(d, num(0)), 1, 0), If(eq(d, num(2)), 1, 0)


def vertices(C):
    p0, p1, d0, d1, q0, q1, e0, e1 = V("p0 p1 d0 d1 q0 q1 e0 e1")
    v = C.S.make("Vertex", CR, partials=array(d0, d1), parents=array(p0, p1))
    w = C.S.make("Vertex", CR, partials=array(e0, e1), parents=array(q0, q1))
    for nm, xs in (("get_partials", (d0, d1)), ("get_parents", (p0, p1))):
        it = C.method("Vertex", nm, None, CR)
        r = it and C.ev(it, [v])
        if r:
            for i in range(2):
                C.eq("%s %d" % (nm, i), r.ret[i], xs[i], it)
    it = C.method("Vertex", "eq", None, CR)
    r = it and C.ev(it, [v, w])
    if r:
        for nm, x, y in (("first parent", p0, q0), ("second parent", p1, q1), ("first partial", d0, e0), ("second partial", d1, e1)):
            C.prove("equal vertices have one " + nm, Or(TM.not_(r.ret), eq(x, y)), it)


def tape(C):
    g = var("self")
    base = adlib.gvertices(C, g)
    n = LEN(base)
    j = var("nj")
    xs = var("values")
    it = C.method("Graph", "is_empty", None, CR)
    r = it and C.ev(it, [g])
    if r:
        C.eq("is empty", If(r.ret, 1, 0), If(eq(n, num(0)), 1, 0), it)
    for nm, args in (("new", []), ("with_capacity", [var("c")]), ("default", [])):
        it = C.method("Graph", nm, None, CR)
        r = it and C.ev(it, args)
        if r:
            C.eq(nm + " is empty", LEN(adlib.gvertices(C, r.ret)), 0, it)
    it = C.method("Graph", "vars", None, CR)
    B, k = var("B"), var("nk")
    G = C.S.make("Graph", CR, vertices=B)
    r = it and C.ev(it, [g, xs], state={g: G})
    if r:
        t = r.ret
        inside = [cmp("le", num(0), j), cmp("lt", j, LEN(xs))]
        if t.op == "rec" and len(t.a) == 4 and B in t.a[2:]:
            # one variable and one vertex each round: the tape holds LEN(B) + k vertices
            C.eq("vars: one for each value", t.a[0], LEN(xs), it)
            qb = t.a[2:].index(B)
            b = t.a[1]
            L, W = var("L"), var("W")
            for v in ((W, L) if qb == 0 else (L, W)) + (k,):
                b = TM.apply(b, v)
            lst, tp = fld(b, 0, 1 - qb, "tuple", 2), fld(b, 0, qb, "tuple", 2)
            vs = adlib.decode(C, tp, W)
            C.fact("vars: one vertex for each value", None if vs is None else len(vs) == 1, it, "appends")
            C.eq("vars: starts empty", LEN(t.a[2:][1 - qb]), 0, it)
            lst = TM.subst(lst, {LEN(W): LEN(B) + k})
            C.eq("vars: one variable for each value", LEN(lst), LEN(L) + 1, it)
            e = TM.subst(expand_reads(lst[LEN(L)]), {LEN(L): k})
            C.eq("vars: value", C.S.get(e, "Variable", "value", CR), xs[k], it, ints=[k])
            C.eq("vars: vertices in order", C.S.get(e, "Variable", "index", CR), LEN(B) + k, it, ints=[k])
        else:
            e = expand_reads(t[j])
            C.eq("vars: one for each value", LEN(t), LEN(xs), it)
            C.eq("vars: value", C.S.get(e, "Variable", "value", CR), xs[j], it, inside, ints=[j])
            C.eq("vars: vertices in order", C.S.get(e, "Variable", "index", CR), LEN(B) + j, it, inside, ints=[j])
    it = C.method("Graph", "zero", None, CR)
    r = it and C.ev(it, [g], state={g: G})
    if r:
        z = adlib.gvertices(C, r.final(g))
        C.eq("zero: keeps the vertices", LEN(z), LEN(B), it)
        inside = [cmp("le", num(0), j), cmp("lt", j, LEN(B))]
        for i in range(2):
            C.eq("zero: partial %d" % i, C.S.get(z[j], "Vertex", "partials", CR)[i], 0, it, inside, ints=[j])
            C.eq("zero: parent %d stays" % i, C.S.get(z[j], "Vertex", "parents", CR)[i], C.S.get(B[j], "Vertex", "parents", CR)[i], it, inside, ints=[j])

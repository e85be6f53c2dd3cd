"""Each overloaded operator and elementary function of the differentiable type is
value-numbered on symbolic operands that share a graph; the vertices it records
are composed by the chain rule and the resulting total derivative is compared,
in normal form and on the operator's differentiability domain, with the symbolic
derivative of the function of that name; the carried value is compared with that
function itself."""
from spec import *
import norm
import term as TM
import adlib

FLOOR = 80


def run(C):
    for it, kinds in adlib.operators(C):
        name = it.name
        if name in ("sum", "product", "new", "clone"):
            continue
        args, vals = adlib.build(C, kinds)
        want = adlib.meaning(name, vals)
        inst = adlib.label(name, kinds)
        if want is None:
            C.undecided(inst, it, "no reference function of this name")
            continue
        ints = [v for v, k in zip(vals, kinds) if k == "i"]
        for tp in adlib.tapes(C, it, args):
            recorded(C, it, kinds, vals, want, inst, tp, ints)
    fold(C, "sum", lambda x, y: x + y)
    fold(C, "product", lambda x, y: x * y)


def recorded(C, it, kinds, vals, want, inst, tp, ints):
    dom = adlib.domain(it.name, vals, kinds) + tp.under
    if tp.under:
        inst += " when " + " and ".join(TM.show(c) for c in tp.under)
    C.eq(inst + " value", C.S.get(tp.ret, "Variable", "value", adlib.CR), want, it, dom, ints=ints, rule="carried value")
    idx = C.S.get(tp.ret, "Variable", "index", adlib.CR)
    for k, n, v in zip(kinds, "ab", vals):
        if k != "v":
            continue
        d = tp.total(C, idx, var(n + ".index"))
        if d is None:
            C.undecided(inst + " d/d" + n, it, "recorded vertices not in closed form")
            continue
        try:
            ref = norm.diff(want, v)
        except norm.NotDiff as e:
            C.undecided(inst + " d/d" + n, it, "no derivative rule: %s" % e)
            continue
        C.eq(inst + " d/d" + n, d, ref, it, dom, ints=ints, rule="recorded derivative", known=known(it.name, v))
        C.defined(inst + " d/d" + n, d, it, dom, ints=ints)


def fold(C, name, op):
    """sum/product of an iterator: first element, then one recorded operation
    per further element"""
    it = C.method("Variable", name, "Sum" if name == "sum" else "Product")
    r = C.ev(it)
    if r is None:
        return
    t = r.ret
    if t.op != "rec" or len(t.a) != 4 or t.a[3].op == "undef":
        C.undecided(name, it, "not a two-component recurrence")
        return
    n, l, init = t.a[0], t.a[1], t.a[2:]
    xs = var("iter")
    C.eq(name + " length", n, LEN(xs) - 1, it, rule="fold")
    C.eq(name + " first", init[0], xs[0], it, rule="fold")
    acc, g, j = adlib.variable(C, "a"), var("g"), var("j")
    body = l
    for x in (acc, g, j):
        if body.op != "lam":
            C.undecided(name, it, "recurrence shape")
            return
        body = TM.apply(body, x)
    el = xs[j + 1]
    out, gr = fld(body, 0, 0), fld(body, 0, 1)
    vs = adlib.decode(C, adlib.gvertices(C, gr), adlib.gvertices(C, g))
    if vs is None:
        C.undecided(name, it, "step does not append in closed form")
        return
    tp = adlib.Tape.__new__(adlib.Tape)
    tp.base = adlib.gvertices(C, g)
    tp.n0 = LEN(tp.base)
    tp.verts = vs
    x, y = var("a.value"), C.S.get(el, "Variable", "value", adlib.CR)
    want = op(x, y)
    C.eq(name + " step value", C.S.get(out, "Variable", "value", adlib.CR), want, it, rule="fold")
    idx = C.S.get(out, "Variable", "index", adlib.CR)
    for nm, tgt, v in (("acc", var("a.index"), x), ("next", C.S.get(el, "Variable", "index", adlib.CR), y)):
        d = tp.total(C, idx, tgt)
        if d is None:
            C.undecided(name + " step d/d" + nm, it)
        else:
            C.eq(name + " step d/d" + nm, d, norm.diff(want, v), it, rule="fold")


def known(name, x):
    # existing tests pin these wrong values (see known_findings.json)
    a = var("a")
    return {"log10": {"A01-log10": 1 / x}, "log2": {"A01-log2": 1 / x},
            "min": {"A01-min-const": If(a < x, 1, 0)}, "max": {"A01-max-const": If(x < a, 1, 0)}}.get(name)

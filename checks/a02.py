"""For every operator of the differentiable type the vertices it appends to the
tape are extracted from the value-numbered final state of the graph: every
parent link with a non-zero partial must be one of the operands' own indices or
an earlier vertex appended by the same call, dead links must stay inside the
tape, the result must designate the last appended vertex of the operands' graph,
and two-variable operators must diverge when the operands' graphs differ.  The
tape primitives (push, var, join, clear, len) are compared with their reference
effect on the vertex list."""
from spec import *
import adlib
import term as TM

FLOOR = 150
CR = adlib.CR


def run(C):
    for it, kinds in adlib.operators(C):
        name = it.name
        if name in ("sum", "product", "new", "clone"):
            continue
        inst = adlib.label(name, kinds)
        args, vals = adlib.build(C, kinds)
        for tp in adlib.tapes(C, it, args):
            linked(C, it, kinds, inst, tp)
        # operands on different graphs must not be combined
        if kinds.count("v") == 2:
            g = {"a": var("ga"), "b": var("gb")}
            args, _ = adlib.build(C, kinds, g)
            r = C.ev(it, args)
            if r is None:
                continue
            C.fact(inst + " rejects operands of different graphs", adlib.refuses(r, (g["a"], g["b"])), it,
                   "the call records and returns when the two graphs differ")
    C.part("compound assignments", assigns)
    prims(C)


def linked(C, it, kinds, inst, tp):
    if tp.under:
        inst += " when " + " and ".join(TM.show(c) for c in tp.under)
    ret = tp.ret
    C.fact(inst + " appends a vertex", len(tp.verts) >= 1, it, "the operation records nothing on the tape")
    idx = C.S.get(ret, "Variable", "index", CR)
    C.eq(inst + " result index", idx, tp.n0 + (len(tp.verts) - 1), it, rule="result is the last vertex")
    C.eq(inst + " result graph", C.S.get(ret, "Variable", "graph", CR), tp.g, it, rule="result graph")
    ops = [var(n + ".index") for k, n in zip(kinds, "ab") if k == "v"]
    dom = [o < tp.n0 for o in ops] + [o >= 0 for o in ops] + tp.under
    for k in range(len(tp.verts)):
        for s, (p, d) in enumerate(tp.links(C, k)):
            good = TRUE if False else Or(*[eq(p, o) for o in ops], And(p >= tp.n0, p < tp.n0 + k) if k else FALSE)
            if d is ZERO:
                C.prove("%s vertex %d dead link %d" % (inst, k, s), And(p >= 0, p < tp.n0 + len(tp.verts)), it, dom,
                        ints=ops, rule="dead link in bounds")
                continue
            C.prove("%s vertex %d link %d" % (inst, k, s), good, it, dom, ints=ops + [tp.n0],
                    rule="live link designates an operand")


def assigns(C):
    x = var("target")
    for it in C.F.fns(lambda i: i.did.startswith(CR) and i.name.endswith("_assign") and not i.in_trait and i.argc == 2):
        isvar = lambda q: it.lty(q).strip().s.replace("&", "").replace("mut ", "").split("<")[0].endswith("variable::Variable")
        if not (isvar(1) and isvar(2)):
            continue
        gs = {"a": var("ga"), "b": var("gb")}
        args, _ = adlib.build(C, ["v", "v"], gs)
        r = C.ev(it, [x, args[1]], state={x: args[0]})
        if r is None:
            continue
        C.fact(adlib.label(it.name, ["v", "v"]) + " rejects operands of different graphs", adlib.refuses(r, (gs["a"], gs["b"])), it,
               "the call records and returns when the two graphs differ")


def prims(C):
    S = C.S
    g = var("self")
    base = adlib.gvertices(C, g)
    n = LEN(base)

    def vertex(p, d):
        return S.make("Vertex", CR, partials=array(*d), parents=array(*p))

    push = C.method("Graph", "push")
    p0, p1, d0, d1 = V("p0 p1 d0 d1")
    for ar, ps, ds in (("Nullary", [], []), ("Unary", [p0], [d0]), ("Binary", [p0, p1], [d0, d1])):
        r = C.ev(push, [g, S.variant("Arity", ar, crate=CR), array(*ps), array(*ds)])
        if r is None:
            continue
        nm = "push " + ar
        vs = adlib.decode(C, adlib.gvertices(C, r.final(g)), base)
        if vs is None or len(vs) != 1:
            C.fact(nm + " appends one vertex", None if vs is None else False, push, "appends %s vertices" % (vs and len(vs)))
            continue
        C.eq(nm + " returns the vertex's position", r.ret, n, push)
        pa, de = S.get(vs[0], "Vertex", "parents", CR), S.get(vs[0], "Vertex", "partials", CR)
        for i in range(2):
            if i < len(ps):
                C.eq(nm + " parent %d" % i, pa[i], ps[i], push)
                C.eq(nm + " partial %d" % i, de[i], ds[i], push)
            else:
                C.eq(nm + " partial %d" % i, de[i], 0, push)
                C.prove(nm + " unused parent %d" % i, And(pa[i] >= 0, pa[i] <= n), push, [n >= 0], ints=[n])
    v = C.method("Graph", "var")
    r = C.ev(v, [g, var("x")])
    if r is not None:
        vs = adlib.decode(C, adlib.gvertices(C, r.final(g)), base)
        C.fact("var appends one vertex", None if vs is None else len(vs) == 1, v)
        C.eq("var index", S.get(r.ret, "Variable", "index", CR), n, v)
        C.eq("var value", S.get(r.ret, "Variable", "value", CR), var("x"), v)
        C.eq("var graph", S.get(r.ret, "Variable", "graph", CR), g, v)
        if vs and len(vs) == 1:
            for i in range(2):
                C.eq("var leaf partial %d" % i, S.get(vs[0], "Vertex", "partials", CR)[i], 0, v)
    j = C.method("Graph", "join")
    o = var("other")
    r = C.ev(j, [g, o])
    if r is not None:
        w = adlib.gvertices(C, r.ret)
        ob = adlib.gvertices(C, o)
        k = var("k")
        C.eq("join length", LEN(w), n + LEN(ob), j)
        if w.op == "concat":
            C.eq("join keeps the first graph", w.a[0], base, j)
            e, src = w.a[1][k], ob[k]
            for i in range(2):
                C.eq("join partial %d" % i, S.get(e, "Vertex", "partials", CR)[i], S.get(src, "Vertex", "partials", CR)[i], j)
                C.eq("join parent %d shifted" % i, S.get(e, "Vertex", "parents", CR)[i],
                     S.get(src, "Vertex", "parents", CR)[i] + n, j)
        else:
            C.undecided("join", j, "result not a concatenation")
    ln = C.method("Graph", "len")
    r = C.ev(ln, [g])
    if r is not None:
        C.eq("len", r.ret, n, ln)
    cl = C.method("Graph", "clear")
    r = C.ev(cl, [g])
    if r is not None:
        C.eq("clear", LEN(adlib.gvertices(C, r.final(g))), 0, cl)
    for nm, want in (("value", "value"), ("index", "index"), ("graph", "graph")):
        m = C.method("Variable", nm)
        x = adlib.variable(C, "a")
        r = C.ev(m, [x])
        if r is not None:
            C.eq("Variable::" + nm, r.ret, S.get(x, "Variable", want, CR), m)
    for nm, build, ar in (("new_unary", [d0, p0], 1), ("new_binary", [d0, p0, d1, p1], 2), ("new_nullary", [], 0)):
        m = C.method("Vertex", nm)
        r = C.ev(m, build)
        if r is not None:
            for i in range(2):
                C.eq("Vertex::%s partial %d" % (nm, i), S.get(r.ret, "Vertex", "partials", CR)[i],
                     [d0, d1][i] if i < ar else 0, m)
                if i < ar:
                    C.eq("Vertex::%s parent %d" % (nm, i), S.get(r.ret, "Vertex", "parents", CR)[i], [p0, p1][i], m)

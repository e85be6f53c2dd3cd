"""The reverse sweep is value-numbered as a recurrence over the tape: its seed
vector, its iteration order and its per-vertex update (read at a symbolic
position) are compared with the chain-rule recurrence; gradient selection is
compared with indexing the adjoint vector by each variable's own position; the
gradient-descent step that consumes the gradient is compared with its formula."""
from spec import *
import adlib
import term as TM

FLOOR = 12
CR = adlib.CR


def run(C):
    S = C.S
    acc = C.method("Variable", "accumulate", "Accumulate")
    z = S.make("Variable", CR, graph=var("g"), index=var("z"), value=var("v"))
    r = C.ev(acc, [z])
    vs = adlib.gvertices(C, var("g"))
    n = LEN(vs)
    C.dom = [cmp("lt", var("z"), n)]
    if r is not None:
        t = r.ret
        C.fact("sweep leaves the tape unchanged", r.final(var("g")) is var("g"), acc, "the sweep writes the graph")
        if t.op != "rec" or len(t.a) != 3:
            C.undecided("sweep", acc, "not a single recurrence")
        else:
            N, l, init = t.a
            m, i, j = var("m"), var("i"), var("j")
            if N is n:
                last = n - 1
                C.add("sweep visits every vertex", "ok", acc.where(), "", "sweep")
            elif N is var("z") + 1:
                last = var("z")
                C.add("sweep visits every vertex up to the output", "ok", acc.where(), "", "sweep")
            else:
                last = n - 1
                C.eq("sweep visits every vertex", N, n, acc, ints=[n, var("z")], rule="sweep")
            C.eq("seed length", LEN(init), n, acc, rule="seed")
            C.eq("seed", expand_reads(init[j]), If(eq(j, var("z")), 1, 0), acc, ints=[j, var("z")], rule="seed")
            body = l
            adj = var("adj")
            body = TM.apply(TM.apply(body, adj), i) if body.hl == 2 else None
            if body is None:
                C.undecided("sweep step", acc, "recurrence shape")
            else:
                body = fld(body, 0, 0) if body.op == "agg" else body
                k = last - i
                v = vs[k]
                p = [S.get(v, "Vertex", "parents", CR)[q] for q in range(2)]
                d = [S.get(v, "Vertex", "partials", CR)[q] for q in range(2)]
                got = expand_reads(body[j])
                want = adj[j] + If(eq(j, p[0]), d[0] * adj[k], 0) + If(eq(j, p[1]), d[1] * adj[k], 0)
                pv, dv, kv = V("p0 p1"), V("d0 d1"), V("k")
                gv = {p[0]: pv[0], p[1]: pv[1], d[0]: dv[0], d[1]: dv[1], k: kv}
                got, want = subst(got, gv), subst(want, gv)
                p, k = pv, kv
                # tape invariant (A02): a parent is earlier than the vertex or
                # the link is dead
                C.eq("sweep step", got, want, acc, [ne(p[0], k), ne(p[1], k)], ints=[i, j, p[0], p[1], k, n], rule="chain rule step")
                C.eq("sweep step length", LEN(body), LEN(adj), acc, rule="sweep")
    C.part("sweep on short tapes", tapes, acc)
    k = var("k")
    for it in C.F.method("alloc::vec::Vec", "wrt", "Gradient") or C.F.fns(lambda f: f.name == "wrt" and f.did.startswith(CR)):
        t = it.lty(2)
        one = it.ret.k == "float"
        r = C.ev(it, [var("adj"), var("vars")])
        if r is None:
            continue
        nm = "wrt(%s)" % t.s
        ix = lambda v: S.get(v, "Variable", "index", CR)
        if one:
            C.eq(nm, r.ret, var("adj")[ix(var("vars"))], it, rule="gradient selection")
        else:
            C.eq(nm + " length", LEN(r.ret), LEN(var("vars")), it, rule="gradient selection")
            C.eq(nm, r.ret[k], var("adj")[ix(var("vars")[k])], it, rule="gradient selection")


TAPES = [[(0, 0)], [(0, 0), (1, 1)], [(0, 0), (0, 1)], [(0, 0), (1, 1), (0, 1)], [(0, 0), (0, 1), (0, 2)],
         [(0, 0), (0, 1), (0, 2), (1, 3)], [(0, 0), (1, 1), (0, 1), (2, 2)], [(0, 0), (0, 1), (1, 2), (2, 1)]]


def tapes(C, acc):
    """the chain-rule recurrence run on tapes of every shape listed, partial
    derivatives arbitrary: (p, q) are a vertex's parents, a vertex that is its
    own parent has a zero derivative there"""
    S = C.S
    g = var("g")
    for tape in TAPES:
        d = [[num(0) if p == k else var("d%d%d" % (k, q)) for q, p in enumerate(ps)] for k, ps in enumerate(tape)]
        G = S.make("Graph", CR, vertices=array(*[S.make("Vertex", CR, parents=array(num(p[0]), num(p[1])), partials=array(*d[k]))
                                                for k, p in enumerate(tape)]))
        for z in range(len(tape)):
            r = C.ev(acc, [S.make("Variable", CR, graph=g, index=num(z), value=var("v"))], state={g: G}, loops="system")
            if r is None:
                return
            try:
                got = unroll(r.ret)
            except SpecError as e:
                return C.undecided("sweep on short tapes", acc, str(e))
            adj = [num(int(k == z)) for k in range(len(tape))]
            for k in reversed(range(len(tape))):
                for q, p in enumerate(tape[k]):
                    if p != k:
                        adj[p] = adj[p] + d[k][q] * adj[k]
            nm = "sweep from %d on the tape %s: " % (z, tape)
            C.eq(nm + "length", LEN(got), num(len(tape)), acc, rule="chain rule on short tapes")
            for k in range(len(tape)):
                C.eq(nm + "adjoint %d" % k, expand_reads(got[num(k)]), adj[k], acc, rule="chain rule on short tapes")

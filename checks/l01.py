"""Limit order book.  Every operation is value-numbered as a transition of the
book's abstract state (two price-ordered maps of order queues and the map of live
orders) and must be the transition of a price-time priority book: maps compared
by membership and content at an arbitrary key, queues by length and content at
an arbitrary position, loops by their step at an arbitrary state."""
from spec import *
import term as TM
import models
from models import vpush

FLOOR = 40
CR = "RustQuant_trading"
ORD = "limit_order_book::order::Order"
BOOK, LIM = "limit_order_book::Book", "limit::Limit"
NOTHING = SEQ(0, lambda j: mk("undef"))
BL, SL, OM, id_, sh, lim, ts, q, X, W = V("BL SL OM id sh lim ts q X W")


def run(C):
    C.part("add", add_order)
    C.part("cancel", cancel_order)
    C.part("level execute", level_execute)
    C.part("market order", market)
    C.part("accessors", simple)


def book(C, b, s, o):
    return C.S.make(BOOK, CR, buy_limits=b, sell_limits=s, order_map=o)


def order(C, *a):
    return C.S.make(ORD, CR, **dict(zip("order_id is_buy shares limit timestamp".split(), a)))


def level(C, p, q):
    return C.S.make(LIM, CR, limit_price=p, orders=q)


def ofld(C, o, f):
    return C.S.get(o, ORD, f, CR)


def lfld(C, l, f):
    return C.S.get(l, LIM, f, CR)


def bfld(C, b, f):
    return C.S.get(b, BOOK, f, CR)


has = models.haskey


def mapeq(C, name, got, want, item, assume=(), val=None, keys=()):
    """same keys; same content under every key (each of the given keys, and any other)"""
    kv = var("k?")
    for k, a in [(x, []) for x in keys] + [(kv, [ne(kv, x) for x in keys])]:
        a = list(assume) + a
        C.eq(name + ": keys", If(has(got, k), 1, 0), If(has(want, k), 1, 0), item, a, ints=isint, rule="map keys")
        h = [has(want, k)] + a
        g, w = expand_reads(got[k]), expand_reads(want[k])
        for f in val or [None]:
            C.eq(name + ": content" + (" " + f.__name__ if f else ""), f(g) if f else g, f(w) if f else w, item, h, ints=isint, rule="map content")


def isint(t):
    return t.op in ("var", "idx", "fld", "len", "first", "app", "wout")


def price(C):
    def price(l):
        return lfld(C, l, "limit_price")
    return price


def queue(C):
    def queue(l):
        return lfld(C, l, "orders")
    return queue


def fields(C):
    fs = []
    for n in "order_id is_buy shares limit timestamp".split():
        f = (lambda n: lambda o: ofld(C, o, n))(n)
        f.__name__ = n
        fs.append(f)
    return fs


def okq(t):
    return cmp("eq", discr(t, 2), num(0))


def add_order(C):
    it = C.method("Book", "add_order", None, CR)
    for side in (True, False):
        b = var("book")
        r = C.ev(it, [b, id_, lift(side), sh, lim, ts], state={b: book(C, BL, SL, OM)})
        if r is None:
            return
        n = "add %s order" % ("buy" if side else "sell")
        dup = has(OM, id_)
        C.eq(n + ": accepted unless the id is taken", okq(r.ret), not_(dup), it, rule="outcome")
        f = r.final(b)
        bl, sl, om = (bfld(C, f, x) for x in ("buy_limits", "sell_limits", "order_map"))
        mine, other, t0, o0 = (bl, sl, BL, SL) if side else (sl, bl, SL, BL)
        for x, y, w in ((bl, BL, "bids"), (sl, SL, "asks"), (om, OM, "orders")):
            mapeq(C, n + ": a duplicate id leaves the %s unchanged" % w, x, y, it, [dup], keys=[id_] if w == "orders" else [lim])
        new = [not_(dup)]
        mapeq(C, n + ": other side unchanged", other, o0, it, new, keys=[lim])
        mapeq(C, n + ": order recorded", om, mk("mapset", OM, id_, order(C, id_, lift(side), sh, lim, ts)), it, new, fields(C), keys=[id_])
        lv = If(has(t0, lim), level(C, lfld(C, t0[lim], "limit_price"), vpush(lfld(C, t0[lim], "orders"), id_)),
                level(C, lim, array(id_)))
        mapeq(C, n + ": appended to its price level", mine, mk("mapset", t0, lim, lv), it, new, [price(C), queue(C)], keys=[lim])


def cancel_order(C):
    it = C.method("Book", "cancel_order", None, CR)
    b = var("book")
    r = C.ev(it, [b, id_], state={b: book(C, BL, SL, OM)})
    if r is None:
        return
    o = OM[id_]
    known = has(OM, id_)
    C.eq("cancel: accepted iff the id is live", okq(r.ret), known, it, rule="outcome")
    f = r.final(b)
    for side in (True, False):
        n = "cancel %s order" % ("buy" if side else "sell")
        # the live order's record carries its own id
        fix = lambda t: TM.subst(t, {ofld(C, o, "order_id"): id_, ofld(C, o, "is_buy"): lift(side), ofld(C, o, "limit"): lim})
        bl, sl, om = (fix(bfld(C, f, x)) for x in ("buy_limits", "sell_limits", "order_map"))
        for x, y, w in ((bl, BL, "bids"), (sl, SL, "asks"), (om, OM, "orders")):
            mapeq(C, n + ": an unknown id leaves the %s unchanged" % w, x, y, it, [not_(known)], keys=[id_] if w == "orders" else [lim])
        mine, other, t0, o0 = (bl, sl, BL, SL) if side else (sl, bl, SL, BL)
        qu = lfld(C, t0[lim], "orders")
        pos = TM.first( LEN(qu), lamf(lambda j: eq(id_, qu[j])))
        # a live order is in the queue of its level
        a = [known, has(t0, lim), cmp("le", num(0), pos), cmp("lt", pos, LEN(qu))]
        mapeq(C, n + ": other side unchanged", other, o0, it, a, keys=[lim])
        mapeq(C, n + ": no longer live", om, mk("mapdel", OM, id_), it, a, fields(C), keys=[id_])
        for q_ in ((id_,), (id_, X, W), (X, id_, W), (X, W, id_)):
            # a queue of known orders, so that a wrong removal is refuted as well
            inst = {t0: mk("mapset", t0, lim, level(C, lim, array(*q_))), known: TRUE}
            others = [ne(id_, X), ne(id_, W), ne(X, W)]
            kept = [x for x in q_ if x is not id_]
            m = "%s out of %s" % (n, [show(x) for x in q_])
            mapeq(C, m, TM.subst(mine, inst), mk("mapset", t0, lim, level(C, lim, array(*kept))) if kept else mk("mapdel", t0, lim),
                  it, others, [price(C), queue(C)] if kept else None, keys=[lim])
        rest = SEQ(LEN(qu) - 1, lambda j: If(j < pos, qu[j], qu[j + 1]))
        last = eq(LEN(qu), 1)
        one = {LEN(qu): num(1)}
        mapeq(C, n + ": an emptied level is removed", TM.subst(mine, one), mk("mapdel", t0, lim), it, [TM.subst(x, one) for x in a], keys=[lim])
        mapeq(C, n + ": taken out of its queue, order of the others kept", mine,
              mk("mapset", t0, lim, level(C, lfld(C, t0[lim], "limit_price"), rest)), it, a + [not_(last)], [price(C), queue(C)], keys=[lim])


def level_execute(C):
    it = C.method("Limit", "execute", None, CR)
    P, Q, M = V("P Q M")
    l, m = V("l m")
    r = C.ev(it, [l, sh, m], state={l: level(C, P, Q), m: M})
    if r is None:
        return
    ret, fl, fm = r.ret, r.final(l), r.final(m)
    fq = lfld(C, fl, "orders")
    C.eq("level keeps its price", lfld(C, fl, "limit_price"), P, it, rule="frame")
    L = loop_of([ret, fq, fm], dict(done=0, queue=Q, map=M), dict(rem=sh, queue=Q, map=M))
    q_, m_ = L.v["queue"], L.v["map"]
    rem = L.v["rem"] if "rem" in L.v else sh - L.v["done"]
    left = (lambda t: t["rem"]) if "rem" in L.v else (lambda t: sh - t["done"])
    dom = [0 <= rem, rem <= sh]
    C.eq("level trades while quantity and orders remain", L.cond, And(0 < rem, 0 < LEN(q_)), it, dom, ints=isint, rule="loop condition")
    front = q_[0]
    o = m_[front]
    s = ofld(C, o, "shares")
    go = dom + [0 < rem, 0 < LEN(q_), has(m_, front), 0 <= s]
    C.eq("quantity traded is the smaller of the rest and the front order's", left(L.next), rem - If(rem < s, rem, s), it, go, ints=isint, rule="step")
    part, full = go + [rem < s], go + [s <= rem]
    C.eq("a partly filled order keeps the head of the queue", L.next["queue"], q_, it, part, ints=isint, rule="step")
    mapeq(C, "a partly filled order is reduced by what traded", L.next["map"],
          mk("mapset", m_, front, order(C, *[ofld(C, o, "order_id"), ofld(C, o, "is_buy"), s - rem, ofld(C, o, "limit"), ofld(C, o, "timestamp")])),
          it, part, fields(C), keys=[front])
    C.eq("a filled order leaves the queue from the front", L.next["queue"], SEQ(LEN(q_) - 1, lambda j: q_[j + 1]), it, full, ints=isint, rule="step")
    mapeq(C, "a filled order is no longer live", L.next["map"], mk("mapdel", m_, front), it, full, fields(C), keys=[front])
    for k, g in enumerate(L.exits):
        a = dom + [g]
        done = L.at_exit(fld(ret, 0, 0, "tuple", 2), k)
        C.eq("level reports the quantity traded", done, sh - rem, it, a, ints=isint, rule="result")
        C.eq("level reports whether it is empty", L.at_exit(fld(ret, 0, 1, "tuple", 2), k), eq(LEN(q_), 0), it, a, ints=isint, rule="result")
        C.eq("level left with the remaining queue", L.at_exit(fq, k), q_, it, a, ints=isint, rule="result")
        mapeq(C, "level leaves the remaining live orders", L.at_exit(fm, k), m_, it, a)


def market(C):
    it = C.method("Book", "execute_market_order", None, CR)
    ex = C.method("Limit", "execute", None, CR)
    if ex is None:
        return
    for buy in (True, False):
        b = var("book")
        r = C.ev(it, [b, sh, lift(buy)], state={b: book(C, BL, SL, OM)}, opaque=lambda x: x.did == ex.did)
        if r is None:
            return
        n = "market %s" % ("buy" if buy else "sell")
        f = r.final(b)
        bl, sl, om = (bfld(C, f, x) for x in ("buy_limits", "sell_limits", "order_map"))
        mine, other, t0, o0 = (sl, bl, SL, BL) if buy else (bl, sl, BL, SL)
        mapeq(C, n + ": own side untouched", other, o0, it)
        L = loop_of([r.ret, mine, om], dict(rem=sh, tree=t0, map=OM, trades=NOTHING), dict(done=0, tree=t0, map=OM, trades=NOTHING))
        rem = L.v["rem"] if "rem" in L.v else sh - L.v["done"]
        left = (lambda t: t["rem"]) if "rem" in L.v else (lambda t: sh - t["done"])
        T_, M_, V_ = L.v["tree"], L.v["map"], L.v["trades"]
        cnt = models.maplen(T_)
        dom = [0 <= rem, rem <= sh, 0 <= cnt]
        C.eq(n + ": continues while quantity and liquidity remain", L.cond, And(0 < rem, 0 < cnt), it, dom, ints=isint, rule="loop condition")
        best = app("nthkey", T_, num(0) if buy else cnt - 1)
        lv = T_[best]
        key = "fn:" + ex.did
        res = app(key, lv, rem, M_)
        lv2, M2 = app("mut:" + key + ":0", lv, rem, M_), app("mut:" + key + ":2", lv, rem, M_)
        # every level's price is its key, and trading keeps it
        pk = {lfld(C, lv, "limit_price"): best, lfld(C, lv2, "limit_price"): best}
        step = {k: TM.subst(t, pk) for k, t in L.next.items()}
        got = fld(res, 0, 0, "tuple", 2)
        empty = fld(res, 0, 1, "tuple", 2)
        go = dom + [0 < rem, 0 < cnt]
        used = [s for t in step.values() for s in subterms(t) if s.op == "app" and s.a[0] == key]
        C.fact(n + ": trades with the best opposite level", bool(used) and all(s.a[1] is lv for s in used), it,
               "the level traded is %s, required %s" % (show(used[0].a[1])[:200] if used else "none", show(lv)[:200]), rule="price priority")
        C.eq(n + ": remaining quantity reduced by what traded", left(step), rem - got, it, go, ints=isint, rule="step")
        C.eq(n + ": reports price and quantity of the trade", step["trades"], vpush(V_, tup(best, got)), it, go, ints=isint, rule="step")
        mapeq(C, n + ": live orders as the level leaves them", step["map"], M2, it, go)
        mapeq(C, n + ": an exhausted level is removed", step["tree"], mk("mapdel", T_, best), it, go + [empty], keys=[best])
        kk = var("k?")
        mapeq(C, n + ": a level with orders left stays", step["tree"], mk("withidx", T_, best, lv2), it, go + [not_(empty)], [queue(C)], keys=[best])
        for k, g in enumerate(L.exits):
            a = dom + [g]
            C.eq(n + ": filled iff nothing remains", L.at_exit(fld(r.ret, 0, 0, "tuple", 2), k), eq(rem, 0), it, a, ints=isint, rule="result")
            C.eq(n + ": trades returned", L.at_exit(fld(r.ret, 0, 1, "tuple", 2), k), V_, it, a, ints=isint, rule="result")
            mapeq(C, n + ": book keeps the remaining levels", L.at_exit(mine, k), T_, it, a)
            mapeq(C, n + ": book keeps the remaining orders", L.at_exit(om, k), M_, it, a)


def simple(C):
    it = C.method("Book", "new", None, CR)
    r = C.ev(it, [])
    if r is not None:
        for f in ("buy_limits", "sell_limits", "order_map"):
            C.eq("a new book has no " + f, has(bfld(C, r.ret, f), q), FALSE, it, rule="map keys")
    it = C.one([i for i in C.F.method("Order", "new", None, CR) if "limit_order_book" in i.path], "limit_order_book Order::new")
    r = C.ev(it, [id_, var("side"), sh, lim, ts])
    if r is not None:
        for f, w in zip(fields(C), (id_, var("side"), sh, lim, ts)):
            C.eq("order record " + f.__name__, f(r.ret), w, it, rule="field")
    ob = "order_book::OrderBook"
    O = "RustQuant_trading::order::Order"
    it = C.method("OrderBook", "insert_order", None, CR)
    for side, mine, other in (("BID", "bids", "asks"), ("ASK", "asks", "bids")):
        b = var("book")
        o = C.S.make(O, None, order_side=C.S.variant("OrderSide", side, crate=CR))
        B, A = V("bids asks")
        r = C.ev(it, [b, o], state={b: C.S.make(ob, bids=B, asks=A)})
        if r is None:
            continue
        f = r.final(b)
        C.eq("a %s goes to the back of the %s" % (side, mine), C.S.get(f, ob, mine), vpush(var(mine), o), it, rule="routing")
        C.eq("a %s leaves the %s alone" % (side, other), C.S.get(f, ob, other), var(other), it, rule="routing")
    me = C.S.make(ob, bids=var("bids"), asks=var("asks"))
    n1, n2 = LEN(var("bids")), LEN(var("asks"))
    it = C.method("OrderBook", "len", None, CR)
    r = C.ev(it, [me])
    if r is not None:
        C.eq("size counts both sides", r.ret, n1 + n2, it)
    it = C.method("OrderBook", "is_empty", None, CR)
    r = C.ev(it, [me])
    if r is not None:
        C.eq("empty iff no order on either side", r.ret, And(eq(n1, 0), eq(n2, 0)), it, ints=isint,
             sampler=lambda t, s: {n1: s % 2, n2: s // 2 % 2}.get(t))
    a = C.S.adt(O)
    me = C.S.make(O)
    for fn_ in [f[0] for f in a["variants"][0]["fields"]]:
        c = [i for i in C.F.method("Order", fn_, None, CR) if "limit_order_book" not in i.path]
        if len(c) != 1:
            continue
        r = C.ev(c[0], [me])
        if r is not None:
            C.eq("order accessor " + fn_, r.ret, C.S.get(me, O, fn_), c[0], rule="accessor")
    it = C.method("OrderSide", "not", "Not", CR)
    for x, y in (("BID", "ASK"), ("ASK", "BID")):
        r = C.ev(it, [C.S.variant("OrderSide", x, crate=CR)])
        if r is not None:
            C.eq("the opposite of %s is %s" % (x, y), r.ret, C.S.variant("OrderSide", y, crate=CR), it, rule="side")

"""Interprocedural global value numbering over gated SSA.

Every MIR body is abstracted to one value-number term per memory cell.  Control
flow is handled by merging states at join blocks (gating functions `ite`),
never by enumerating paths, and loops by recurrence classification: an
accumulator whose recurrence has a closed form becomes SUM/PROD/seq, anything
else an uninterpreted `rec` term carrying its step function.  Workspace callees
are inlined; std/third-party callees are interpreted by the small model table in
models.py and are uninterpreted otherwise."""
import re, sys, struct
from fractions import Fraction as Fr
from term import *
import term as TM

sys.setrecursionlimit(60000)

OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"
RANGE = "core::ops::range::Range"
TRANSPARENT = re.compile(
    r"^(alloc::boxed::Box|core::ptr::unique::Unique|core::ptr::non_null::NonNull|"
    r"core::mem::maybe_uninit::MaybeUninit|core::mem::manually_drop::ManuallyDrop|"
    r"core::mem::maybe_dangling::MaybeDangling|alloc::rcs::arc::Arc|alloc::rc::Rc|alloc::sync::Arc)(<|$)")

MAXDEPTH = 40


def opaque_const(v):
    """a constant of a type the front end does not take apart; a 32-bit integer of
    restricted range is still that integer"""
    m = re.fullmatch(r"Scalar\(0x([0-9a-f]{8})\)", str(v))
    if m:
        x = int(m.group(1), 16)
        return num(x - (1 << 32) if x >> 31 else x)
    return mk("app", "opaque:" + str(v)[:80])


class GiveUp(Exception):
    pass


def some(x):
    return mk("agg", OPTION, 1, x)


NONE = mk("agg", OPTION, 0)


def _ordis(*vs):
    def f(r):
        if r.op == "ite":
            return ite(r.a[0], f(r.a[1]), f(r.a[2]))
        if r.op == "agg" and r.a[1] == 0:
            return FALSE
        if r.op == "agg":
            o = r.a[2]
            g = lambda o: ite(o.a[0], g(o.a[1]), g(o.a[2])) if o.op == "ite" else boolt(o.a[1] in vs) if o.op == "agg" else \
                orl([cmp("eq", mk("discr", o, 3), num(v)) for v in vs])
            return g(o)
        o = mk("fld", r, 1, 0, OPTION, 1)
        return and_(cmp("eq", mk("discr", r, 2), ONE), orl([cmp("eq", mk("discr", o, 3), num(v)) for v in vs]))
    return f


def orl(xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
    return r


# comparisons a trait provides from the one an implementation must give
PROVIDED = {"core::cmp::PartialEq::ne": ("core::cmp::PartialEq::eq", lambda r: not_(r)),
            "core::cmp::PartialOrd::lt": ("core::cmp::PartialOrd::partial_cmp", _ordis(0)),
            "core::cmp::PartialOrd::le": ("core::cmp::PartialOrd::partial_cmp", _ordis(0, 1)),
            "core::cmp::PartialOrd::gt": ("core::cmp::PartialOrd::partial_cmp", _ordis(2)),
            "core::cmp::PartialOrd::ge": ("core::cmp::PartialOrd::partial_cmp", _ordis(1, 2))}


def ok(x):
    return mk("agg", RESULT, 0, x)


def err(x):
    return mk("agg", RESULT, 1, x)


LESS, EQUAL, GREATER = (mk("agg", ORDERING, i) for i in range(3))


def ordering(a, b):
    return ite(cmp("lt", a, b), LESS, ite(cmp("eq", a, b), EQUAL, GREATER))


NVAR = {OPTION: 2, RESULT: 2, CFLOW: 2, ORDERING: 3}

# f64 constants recognised by value
import math


def _bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


PI = fn("pi")
CONSTS = {
    _bits(math.pi): PI, _bits(-math.pi): neg(PI),
    _bits(2 * math.pi): mul(TWO, PI), _bits(math.pi / 2): div(PI, TWO),
    _bits(math.pi / 3): div(PI, num(3)), _bits(math.pi / 4): div(PI, num(4)),
    _bits(math.pi / 6): div(PI, num(6)), _bits(math.pi / 8): div(PI, num(8)),
    _bits(1 / math.pi): div(ONE, PI), _bits(2 / math.pi): div(TWO, PI),
    _bits(2 / math.sqrt(math.pi)): div(TWO, sqrt(PI)),
    _bits(1.12837916709551257389615890312154517): div(TWO, sqrt(PI)),
    _bits(math.sqrt(2)): sqrt(TWO), _bits(0.707106781186547524400844362104849039): div(ONE, sqrt(TWO)),
    _bits(-math.sqrt(2)): neg(sqrt(TWO)),
    _bits(math.e): exp(ONE), _bits(math.log(2)): ln(TWO), _bits(math.log(10)): ln(num(10)),
    _bits(1.44269504088896340735992468100189214): div(ONE, ln(TWO)),
    _bits(0.434294481903251827651128918916605082): div(ONE, ln(num(10))),
    _bits(math.sqrt(2 * math.pi)): sqrt(mul(TWO, PI)),
    _bits(2.50662827463100050241576528481104525): sqrt(mul(TWO, PI)),
    _bits(0.39894228040143267793994605993438): div(ONE, sqrt(mul(TWO, PI))),
}
INF = mk("const", "inf")
NINF = neg(INF)
NAN = mk("const", "nan")


def fconst(bits, size):
    if size == 4:
        x = struct.unpack("<f", struct.pack("<I", bits))[0]
    else:
        c = CONSTS.get(bits)
        if c is not None:
            return c
        x = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return INF if x > 0 else NINF
    if abs(x) < 1e-300 and x != 0 or abs(x) > 1e300:
        return num(Fr(x))
    return num(Fr(repr(x)))


# ----------------------------------------------------------------- CFG helper
class CFG:
    def __init__(self, item):
        n = len(item.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(item.blocks):
            if b["cleanup"]:
                continue
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            self.succ[i] = s
        # blocks that can reach a return
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in self.succ[i]:
                pred[j].append(i)
        live = set()
        st = [i for i, b in enumerate(item.blocks) if b["t"][0] == "return" and not b["cleanup"]]
        while st:
            x = st.pop()
            if x in live:
                continue
            live.add(x)
            st.extend(pred[x])
        self.live = live
        for i in range(n):
            self.succ[i] = [j for j in dict.fromkeys(self.succ[i])]
        # rpo from entry
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = [[p for p in pred[i] if p in self.rpo] for i in range(n)]
        self._dom()
        self._loops()

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b == 0:
                    continue
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while self.rpo[a] > self.rpo[c]:
                            a = idom[a]
                        while self.rpo[c] > self.rpo[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(self.pred[x])


def cfg_of(item):
    if item.cfg is None:
        item.cfg = CFG(item)
    return item.cfg


# ------------------------------------------------------------------- places
def pfld(v, i, kind, n):
    return mk("pf", v, i, kind, n)


def pidx(t):
    return mk("pi", t)


def mkref(cell, path=()):
    return mk("ref", cell, *path)


TM._hooks["ref"] = lambda cell, *p: mk("ref", cell, *p)


def get_path(v, path):
    for p in path:
        if p.op == "pf":
            v = fld(v, *p.a)
        elif p.op == "pi":
            v = proj_index(v, p.a[0])
        else:
            raise GiveUp("path")
    return v


def set_path(v, path, new):
    if not path:
        return new
    p = path[0]
    if p.op == "pf":
        vi, idx, kind, n = p.a
        old = fld(v, vi, idx, kind, n)
        nw = set_path(old, path[1:], new)
        if v.op == "agg":
            if v.a[1] != vi and not (v.a[0] in ("tuple", "array")):
                fs = [UNDEF] * max(n, idx + 1)
            else:
                fs = list(v.a[2:])
            while len(fs) <= idx:
                fs.append(UNDEF)
            fs[idx] = nw
            return agg(v.a[0], vi, *fs)
        if v.op == "ite":
            return ite(v.a[0], set_path(v.a[1], path, new), set_path(v.a[2], path, new))
        fs = [fld(v, vi, j, kind, n) for j in range(max(n, idx + 1))]
        fs[idx] = nw
        return agg(kind, vi, *fs)
    if p.op == "pi":
        old = proj_index(v, p.a[0])
        nw = set_path(old, path[1:], new)
        return with_index(v, p.a[0], nw)
    raise GiveUp("setpath")


def with_index(v, i, x):
    if v.op == "agg" and v.a[0] == "array" and isnum(i):
        k = int(i.a[0])
        fs = list(v.a[2:])
        if 0 <= k < len(fs):
            fs[k] = x
            return mk("agg", "array", 0, *fs)
    if v.op == "withidx" and v.a[1] is i:
        return with_index(v.a[0], i, x)
    if proj_index(v, i) is x:
        return v
    if v.op == "mapset" and v.a[1] is i:
        return mk("mapset", v.a[0], i, x)
    if v.op == "ite" and v.a[1].op not in ("agg", "seq") and v.a[2].op == "mapset" and v.a[2].a[0] is v.a[1] and v.a[2].a[1] is i \
            and v.a[0] is TM.mk("app", "haskey", v.a[1], i):
        # the entry was created where it was absent
        return mk("mapset", v.a[1], i, x)
    return mk("withidx", v, i, x)


TM._hooks["withidx"] = with_index


def itert(s, k):
    return mk("iter", s, k)


def seq_of(n, f):
    """vector of length n with elements f(j)"""
    return seq(n, lamf(f))


class State:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return State(dict(self.m))


INTBITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


class Result:
    def __init__(self, item, args, ret, state, assumes, calls, ev):
        self.item = item
        self.args = args
        self.ret = ret
        self.state = state
        self.assumes = assumes
        self.calls = calls
        self.ev = ev

    def final(self, argterm):
        """value of *arg (an opaque &mut parameter) at exit"""
        return self.state.m.get(mk("cell", argterm), argterm)


class Ev:
    """an evaluation context"""

    def __init__(self, facts, opaque=None, inline=None, maxdepth=MAXDEPTH, trace=None, loops=None):
        self.F = facts
        self.opaque = opaque or (lambda item: False)
        self.nframe = 0
        self.loops = loops       # "system": every loop as a transition system
        self.maxdepth = maxdepth
        self.assumes = []
        self.narrowed = set()
        self.calls = []          # (guard, key, args, result) of uninterpreted / opaque calls
        self.trace = trace       # predicate on callee path: record the call
        self.stack = []
        self.const_cache = {}
        self.unknown = set()
        self.steps = 0
        self.frame_tags = {}
        import models
        self.models = models

    # ------------------------------------------------------------ entry
    def run(self, item, args=None, tyenv=None, state=None):
        if args is None:
            args = self.symargs(item)
        st = state or State()
        ret, st = self.call_item(item, args, st, tyenv or {}, ())
        return Result(item, args, ret, st, self.assumes, self.calls, self)

    def symargs(self, item):
        out = []
        for i in range(1, item.argc + 1):
            out.append(var(item.argname(i)))
        return out

    # ------------------------------------------------------------ types
    def nvariants(self, did):
        if did in NVAR:
            return NVAR[did]
        a = self.F.adts.get(did)
        return len(a["variants"]) if a else 0

    def nfields(self, did, variant):
        a = self.F.adts.get(did)
        if a and variant < len(a["variants"]):
            return len(a["variants"][variant]["fields"])
        return 0

    def tystr(self, ty, tyenv):
        """type string with the type environment applied"""
        if ty.k == "param":
            return tyenv.get(ty.d.get("name"), ty.s)
        s = ty.s
        if tyenv and re.search(r"\b[A-Z]\w*\b", s):
            for k, v in tyenv.items():
                s = re.sub(r"\b%s\b(?!::)" % re.escape(k), lambda m: v, s)
        return s

    # ------------------------------------------------------------ calls
    def call_item(self, item, args, st, tyenv, guard):
        if len(self.stack) > self.maxdepth:
            raise GiveUp("depth")
        if self.stack.count(item.did) >= 2:
            raise GiveUp("recursion " + item.path)
        self.stack.append(item.did)
        try:
            fr = Frame(self, item, tyenv, guard)
            for i, a in enumerate(args):
                st.m[(fr.id, i + 1)] = a
            return fr.run(st)
        finally:
            self.stack.pop()

    def call_closure(self, f, args, st, guard=()):
        """apply a closure/fn value to argument terms; returns (ret, state)"""
        f = self.deref_val(f, st)
        if f.op == "agg" and f.a[0].startswith("closure:"):
            did = f.a[0][8:]
            item = self.F.items.get(did)
            if item is None:
                return app("call", f, *args), st
            # FnMut closures mutate captured-by-value state rarely: ignored
            return self.call_item(item, [f] + list(args), st, self.closure_env(f), guard)
        if f.op == "ite":
            r1, s1 = self.call_closure(f.a[1], args, st.copy(), guard)
            r2, s2 = self.call_closure(f.a[2], args, st, guard)
            return ite(f.a[0], r1, r2), merge2(f.a[0], s1, s2)
        if f.op == "fnval":
            return self.call_fnrec(f.a[0].rec, f.a[0].crate, list(args), st, f.a[0].tyenv, guard, None)
        return app("call", f, *args), st

    def closure_env(self, f):
        return self._cenv.get(f.a[0], {}) if hasattr(self, "_cenv") else {}

    def deref_val(self, t, st):
        while t.op == "ref":
            t = self.read_ref(t, st)
        if t.op in ("ite", "var") and st.m:
            return self.deref(t, st)
        return t

    def read_ref(self, t, st):
        cell, path = t.a[0], t.a[1:]
        return get_path(self.read_cell(cell, st), path)

    def read_cell(self, cell, st):
        v = st.m.get(cell)
        if v is None:
            if isinstance(cell, T) and cell.op == "cell":
                return cell.a[0]
            return UNDEF
        return v

    def deref(self, t, st):
        """value of *t"""
        if t.op == "ref":
            return self.read_ref(t, st)
        if t.op == "ite" and t.hasref:
            return ite(t.a[0], self.deref(t.a[1], st), self.deref(t.a[2], st))
        c = mk("cell", t)
        return st.m.get(c, t)

    def target(self, t):
        """(cell,path) a reference term designates"""
        if t.op == "ref":
            return t.a[0], t.a[1:]
        return mk("cell", t), ()

    def write_ref(self, t, val, st):
        if t.op == "ite" and t.hasref:
            c = t.a[0]
            self.write_ref(t.a[1], ite(c, val, self.deref(t.a[1], st)), st)
            self.write_ref(t.a[2], ite(c, self.deref(t.a[2], st), val), st)
            return
        cell, path = self.target(t)
        st.m[cell] = set_path(self.read_cell(cell, st), path, val)

    def havoc(self, key, args, st):
        sargs = [self.snap(x, st) for x in args]
        for n, a in enumerate(args):
            self.havoc_refs(a, mk("app", "mut:%s:%d" % (key, n), *sargs), st)

    def havoc_refs(self, a, val, st, depth=0):
        if a.op == "ref" or mk("cell", a) in st.m:
            self.write_ref(a, val, st)
        elif a.hasref and depth < 5 and a.op in ("agg", "ite", "iter"):
            for i, x in enumerate(a.a):
                if isinstance(x, T):
                    self.havoc_refs(x, mk("app", "part", val, num(i)), st, depth + 1)

    def snap(self, a, st):
        """replace references by the value they designate (for use in opaque
        applications)"""
        c = st.m.get(mk("cell", a))
        if c is not None and c is not a:
            return self.snap(c, st)
        if not a.hasref:
            return a
        if a.op == "ref":
            return self.snap(self.read_ref(a, st), st)
        if a.op in ("agg", "ite", "iter", "app", "and", "or"):
            return TM.rebuild(a.op, [self.snap(x, st) if isinstance(x, T) else x for x in a.a])
        return a

    def call_fnrec(self, rec, crate, args, st, tyenv, guard, dest_ty):
        did = rec.get("rdid", rec["did"])
        path = rec.get("rpath", rec["path"])
        item = self.F.items.get(did)
        tr = rec.get("trait") or rec.get("rimpl_trait") or rec.get("impl_trait")
        name = rec["name"]
        self.steps += 1
        for i, a in enumerate(args):
            if a.op == "ite" and condref(a):
                # a reference to one of two places: the call under each case
                c = a.a[0]
                s2 = st.copy()
                ra, sa = self.call_fnrec(rec, crate, args[:i] + [a.a[1]] + args[i + 1:], st, tyenv, guard + (c,), dest_ty)
                rb, sb = self.call_fnrec(rec, crate, args[:i] + [a.a[2]] + args[i + 1:], s2, tyenv, guard + (not_(c),), dest_ty)
                return ite(c, ra, rb), merge2(c, sa, sb)
        targs = rec.get("rtargs", rec.get("targs", []))
        if rec.get("trait") and ("rdid" not in rec or rec.get("rkind") != "item" or tyenv):
            # unresolved in generic context: resolve with the type environment
            ts = rec.get("targs", [])
            if ts:
                t0 = crate.types[ts[0]]
                s = self.tystr(t0, tyenv).lstrip("&")
                cand = []
                for (sty, it, im) in self.F.trait_impls.get(rec["did"], []):
                    if norm_ty(sty.s) == norm_ty(s):
                        ta = [it.crate.types[i] for i in im.get("trait_args", [])]
                        cand.append((it, ta))
                if len(ts) > 1:
                    # an operator is chosen by its other operand's type too
                    want = [norm_ty(self.tystr(crate.types[x], tyenv).lstrip("&")) for x in ts[1:]]
                    fits = lambda t, w: t.k == "param" or norm_ty(t.s.lstrip("&")) == w
                    cand = [c for c in cand if len(c[1]) < len(want) or
                            all(fits(t, w) for t, w in zip(c[1][-len(want):], want))]
                if len(cand) == 1:
                    item = cand[0][0]
                    targs = []
        if item is None and rec["did"] in self.F.items and self.F.items[rec["did"]].in_trait and not rec.get("rdid"):
            it = self.F.items[rec["did"]]
            if rec.get("rkind") == "item" or it.blocks and self.provided_ok(it, rec, crate, tyenv):
                item = it
        if item is not None and item.kind == "fn" and not self.opaque(item):
            # std trait methods with dedicated models for derived impls
            m = self.models.override(self, item, args, st)
            if m is not None:
                return m, st
            env = self.bind_generics(item, rec, crate, targs, tyenv, args)
            mark = len(self.assumes)
            snap = st.copy()
            try:
                return self.call_item(item, args, st, env, guard)
            except GiveUp as g:
                st.m = snap.m
                del self.assumes[mark:]
                self.unknown.add("%s: %s" % (item.path, g))
                key = "fn:" + item.did
                return self.opaque_call(key, args, st, guard)
        if item is not None and not (item.kind == "closure" and name in ("call", "call_mut", "call_once")):
            return self.opaque_call("fn:" + item.did, args, st, guard)
        base = PROVIDED.get(rec["did"])
        if base and rec.get("targs") and len(args) == 2 and self.F.trait_impls.get(base[0]):
            # a provided comparison of a type with its own implementation
            t0 = norm_ty(self.tystr(crate.types[rec["targs"][0]], tyenv).lstrip("&"))
            cand = [it for sty, it, im in self.F.trait_impls[base[0]] if norm_ty(sty.s) == t0]
            if len(cand) == 1 and not self.opaque(cand[0]):
                rec2 = dict(rec, did=base[0], path=base[0], name=base[0].rsplit("::", 1)[1])
                for k in ("rdid", "rpath", "rkind", "rtargs"):
                    rec2.pop(k, None)
                r, st = self.call_fnrec(rec2, crate, args, st, tyenv, guard, dest_ty)
                return base[1](r), st
        self.dest_ty = dest_ty
        r = self.models.apply(self, rec, crate, tr, name, path, args, st, tyenv, guard)
        if r is not None:
            return r
        key = strip_generics(path)
        if tr and "rdid" not in rec and rec.get("trait"):
            key = rec["did"]
        self.unknown.add(key)
        return self.opaque_call(key, args, st, guard)

    def provided_ok(self, it, rec, crate, tyenv):
        # a trait-provided method body is used only if no workspace impl of the
        # trait overrides it
        return not self.F.trait_impls.get(it.did)

    def opaque_call(self, key, args, st, guard):
        sargs = [self.snap(a, st) for a in args]
        r = mk("app", key, *sargs)
        self.calls.append((guard, key, sargs, r))
        self.havoc(key, args, st)
        return r, st

    def bind_generics(self, item, rec, crate, targs, tyenv, args):
        env = {}
        if item.kind == "fn":
            gens = item.d.get("generics", [])
            if isinstance(gens, list) and targs and len(gens) == len(targs):
                for g, t in zip(gens, targs):
                    s = self.tystr(crate.types[t], tyenv)
                    env[g] = s
        if item.in_trait:
            ts = rec.get("targs", [])
            if ts:
                env["Self"] = self.tystr(crate.types[ts[0]], tyenv)
        return env

    # ------------------------------------------------------- recurrences
    def solve_loop(self, entry, body, extra_vars=()):
        """entry: State at the header.  body(st)-> (back, exits):
        back = (guard lits, State) or None;  exits = list of (key, lits, State).
        Returns list of (key, lits, State) with loop results substituted."""
        H = {}
        header = entry
        assum0 = len(self.assumes)
        calls0 = len(self.calls)
        for rnd in range(12):
            del self.assumes[assum0:]
            del self.calls[calls0:]
            header = entry.copy()
            header.m.update(H)
            back, exits = body(header.copy())
            if back is None:
                return [(k, g, s) for k, g, s in exits]
            lits, bs = back
            changed = False
            for c in list(entry.m.keys()):
                hv = header.m[c]
                nv = bs.m.get(c, UNDEF)
                if nv is hv:
                    continue
                nv = under(nv, lits)
                g = generalize(hv, nv, fset(H))
                if g is not hv:
                    H[c] = g
                    changed = True
            # opaque cells written for the first time inside the body
            for c in bs.m:
                if isinstance(c, T) and c.op == "cell" and c not in entry.m:
                    entry.m[c] = c.a[0]
                    H[c] = fresh("h")
                    changed = True
            if not changed:
                break
        else:
            raise GiveUp("loop does not stabilise")
        # collect the fresh symbols, their initial values and their steps
        init, step, order = {}, {}, []
        for c, hv in H.items():
            pairs = []
            match(hv, entry.m[c], under(bs.m[c], lits), pairs)
            for h, i, s in pairs:
                if h not in init:
                    init[h], step[h] = i, s
                    order.append(h)
        return self.close_loop(order, init, step, lits, header, back, exits, assum0)

    def close_loop(self, order, init, step, lits, header, back, exits, mark):
        hs = set(order)
        memo = {}

        def inv(t):
            return not mentions(t, hs)

        for h in order:
            step[h] = under(step[h], lits)
        if self.loops == "system" and order:
            return self.opaque_loop(order, init, step, lits, exits)
        # -- induction variables
        ind = [h for h in order if (step[h].op == "add" and step[h].a[0] is h and isnum(step[h].a[1]) and step[h].a[1].a[0] == 1)]
        # -- normal exit: a literal  not(lt(k + c, n)) / le etc.
        trip = None
        kvar = None
        normal = []
        early = []
        cont_lits = [l for l in lits]
        for (key, g, s) in exits:
            t = None
            if trip is None or True:
                # the distinguishing literal is the last one negating a continue literal
                for l in g:
                    r = bound_of(not_(l), ind, inv)
                    if r is not None and not_(l) in cont_lits and only_prefix(g, l):
                        t = r
                        break
            if t is not None and trip is None:
                kvar, bound, tlit = t[0], t[1], not_(l)
                trip = natsub(bound, init[kvar])
                normal.append((key, g, s))
            else:
                early.append((key, g, s))
        if trip is None or (len(normal) != 1):
            return self.opaque_loop(order, init, step, lits, exits)
        j0 = init[kvar]
        # all unit induction variables advance together
        subk = {}
        j = fresh("j")
        closed = {kvar: lambda jj: add(j0, jj) if not isnum(j0) or j0.a[0] != 0 else jj}
        if isnum(j0) and j0.a[0] == 0:
            closed[kvar] = lambda jj: jj
        for h in ind:
            if h is not kvar:
                closed[h] = (lambda i0: (lambda jj: add(i0, jj)))(init[h])
        pend = [h for h in order if h not in closed]
        prog = True
        while prog and pend:
            prog = False
            for h in list(pend):
                cf = self.closed_form(h, init[h], step[h], hs, closed)
                if cf is not None:
                    closed[h] = cf
                    pend.remove(h)
                    prog = True
        if pend:
            # general recurrences
            self.general_rec(pend, init, step, closed, hs)
        if early:
            return self.early_exits(order, init, step, closed, kvar, trip, tlit, lits, normal, early, header, mark)
        key, g, s = normal[0]
        sub_m = {h: closed[h](trip) for h in order}
        ns = State({c: subst(v, sub_m, memo) if mentions(v, hs) else v for c, v in s.m.items()})
        self.fix_assumes(mark, hs, lambda t, q: subst(t, {h: closed[h](q) for h in order}), trip)
        return [(key, tuple(x for x in g if inv(x)), ns)]

    def fix_assumes(self, mark, hs, at, trip):
        """conditions asserted inside a loop hold at every one of its iterations
        (entries of a kind that starts with + state it for the whole loop)"""
        new = []
        for g, c, why, *w in self.assumes[mark:]:
            if not (mentions(c, hs) or any(mentions(x, hs) for x in g)):
                continue
            bad = not_(c)
            for x in reversed(g):
                bad = and_(x, bad)
            try:
                q = exists(trip, lamf(lambda n: at(bad, n)))
            except (GiveUp, RecursionError):
                continue
            if q is not FALSE:
                new.append(((), not_(q), "+" + why.lstrip("+"), *w))
        self.assumes += new

    def closed_form(self, h, i0, nxt, hs, closed):
        others = hs - {h}
        if mentions(nxt, others - set(closed)):
            return None

        def at(e, jj):
            m = {x: closed[x](jj) for x in others if x in closed and mentions(e, {x})}
            return subst(e, m) if m else e

        # constant after the first iteration (temporaries)
        if not mentions(nxt, {h}):
            if nxt.op == "undef":
                return lambda n: UNDEF
            def cf(n):
                last = at(nxt, sub(n, ONE))
                if isnum(n):
                    return last if n.a[0] > 0 else i0
                return mk("lastof", n, lamf(lambda jj: at(nxt, jj)), i0) if i0.op != "undef" else at(nxt, sub(n, ONE))
            return cf
        # additive
        e = split_add(h, nxt)
        if e is not None and not mentions(e, {h}):
            return lambda n: add_init(i0, sumt(n, lamf(lambda jj: at(e, jj))))
        e = split_mul(h, nxt)
        if e is not None and not mentions(e, {h}):
            return lambda n: mul_init(i0, prodt(n, lamf(lambda jj: at(e, jj))))
        e = split_ext(h, nxt)
        if e is not None and not mentions(e[1], {h}):
            return lambda n: ext_init(e[0], i0, n, lamf(lambda jj: at(e[1], jj)))
        # latch: set once a condition has held
        e = split_latch(h, nxt)
        if e is not None and not mentions(e[0], {h}) and not mentions(e[1], hs):
            return lambda n: ite(exists(n, lamf(lambda jj: at(e[0], jj))), e[1], i0)
        # push
        if nxt.op == "vpush" and nxt.a[0] is h and not mentions(nxt.a[1], {h}):
            ev = nxt.a[1]
            return lambda n: vconcat(i0, seq(n, lamf(lambda jj: at(ev, jj))))
        # in-place update of every value of a map, in key order
        if nxt.op == "withidx" and nxt.a[0] is h and not mentions(nxt.a[1], {h}):
            jj = fresh("j")
            kj = at(nxt.a[1], jj)
            if kj.op == "app" and kj.a[0] == "nthkey" and kj.a[2] is jj and kj.a[1] is i0:
                cur, kv = fresh("c"), fresh("k")
                e2 = subst(nxt.a[2], {proj_index(h, nxt.a[1]): cur})
                e3 = subst(at(e2, jj), {kj: kv})
                if not mentions(e2, {h}) and not mentions(e3, {jj}):
                    l = lam(lam(e3, cur), kv)
                    return lambda n: mk("mapvals", i0, l) if n is app("maplen", i0) else mk("rec", n, lam(lam(agg("tuple", 0, at(nxt, jj)), jj), h), i0)
        # push of every d-th step
        e = split_residue(h, nxt, hs)
        if e is not None:
            d, c, ev, v = e
            jj = fresh("j")
            ej = at(ev, jj)
        if e is not None and v in closed and closed[v](jj) is jj:
            cnt = lambda n: app_int("idiv", add(n, num(d - 1 - c)), num(d))
            return lambda n: vconcat(i0, seq(cnt(n), lamf(lambda k: subst(ej, {jj: add(mul(num(d), k), num(c))}))))
        # several writes per step, at consecutive positions of separate regions
        ws = split_writes(h, nxt)
        if ws is not None and len(ws) > 1:
            jj = fresh("j")
            ws = [(at(i, jj), at(x, jj)) for i, x in ws]
            offs = [affine(i, jj) for i, x in ws]
            if all(o is not None and not mentions(o, hs) for o in offs) and not any(mentions(x, hs) for i, x in ws):
                def cf(n):
                    def el(k):
                        ok = [and_(cmp("le", o, k), cmp("lt", k, add(o, n))) for o in offs]
                        r = proj_index(i0, k)
                        for w, o in enumerate(offs):
                            c = ok[w]
                            for v, q in enumerate(offs):
                                if v != w and q is not add(o, n) and o is not add(q, n):
                                    c = and_(c, or_(not_(ok[v]), cmp("le" if w > v else "lt", o, q)))
                            r = ite(c, subst(ws[w][1], {jj: sub(k, o)}), r)
                        return r
                    return seq_of(length(i0), el)
                return cf
        # conditional push / add are filters: keep structural via rec
        # in-place map:  h[j] = e(h[j], j)
        if nxt.op == "withidx" and nxt.a[0] is h and not mentions(nxt.a[1], {h}):
            ix, ev = nxt.a[1], nxt.a[2]
            jj = fresh("j")
            ixj = at(ix, jj)
            off = None
            if ixj is jj:
                off = ZERO
            elif ixj.op == "add" and ixj.a[0] is jj:
                off = ixj.a[1]
            if off is not None and not mentions(off, hs):
                # e may read h only at the same index
                cur = fresh("c")
                e2 = subst(ev, {proj_index(h, ix): cur})
                if not mentions(e2, {h}):
                    e3 = at(e2, jj)
                    if not mentions(e3, {jj}) or True:
                        l = lam(lam(e3, cur), jj)

                        def cf(n):
                            if off is ZERO:
                                el = lambda k: subst(e3, {jj: k, cur: proj_index(i0, k)})
                                if n is length(i0):
                                    return seq_of(n, el)
                                return seq_of(length(i0), lambda k: ite(cmp("lt", k, n), el(k), proj_index(i0, k)))
                            el = lambda k: subst(e3, {jj: sub(k, off), cur: proj_index(i0, k)})
                            return seq_of(length(i0), lambda k: ite(and_(cmp("le", off, k), cmp("lt", k, add(off, n))), el(k), proj_index(i0, k)))
                        return cf
        return None

    def general_rec(self, pend, init, step, closed, hs):
        """simultaneous recurrences without a closed form"""
        pset = set(pend)
        # per h: the set of pending symbols it depends on (transitively)
        dep = {h: {x for x in pset if mentions(step[h], {x})} | {h} for h in pend}
        ch = True
        while ch:
            ch = False
            for h in pend:
                n = set(dep[h])
                for x in dep[h]:
                    n |= dep[x]
                if n != dep[h]:
                    dep[h] = n
                    ch = True

        def mkcf(h):
            # canonical order: h first, then by first occurrence in its step
            ordr = [h]
            q = [h]
            while q:
                x = q.pop(0)
                for y in occ_order(step[x], pset):
                    if y not in ordr:
                        ordr.append(y)
                        q.append(y)
            jj = fresh("j")
            m = {x: closed[x](jj) for x in hs if x in closed}
            body = [subst(step[x], m) for x in ordr]
            tup = mk("agg", "tuple", 0, *body)
            l = lam(tup, jj)
            for x in reversed(ordr):
                l = lam(l, x)
            ins = [init[x] for x in ordr]
            return lambda n: mk("rec", n, l, *ins)
        new = {h: mkcf(h) for h in pend}
        closed.update(new)

    def early_exits(self, order, init, step, closed, kvar, trip, tlit, lits, normal, early, header, mark):
        """loop with an ordinary exhaustion exit and early exits: the early
        exit is taken at the first iteration its condition holds"""
        hs = set(order)
        out = []
        conds = []
        for key, g, s in early:
            gl = [x for x in g if x is not tlit]
            c = TRUE
            for x in gl:
                c = and_(c, x)
            conds.append((key, c, s))
        jj = fresh("j")

        def atj(t, n):
            m = {h: closed[h](n) for h in order}
            return subst(t, m)
        anyc = FALSE
        for key, c, s in conds:
            anyc = or_(anyc, c)
        lamc = lamf(lambda n: atj(anyc, n))
        ex = exists(trip, lamc)
        fi = mk("first", trip, lamc)
        self.fix_assumes(mark, hs, atj, ite(ex, add(fi, ONE), trip))
        for key, c, s in conds:
            ce = subst(atj(c, jj), {jj: fi})
            g = (ex,) if len(conds) == 1 else (ex, ce)
            m = {h: closed[h](fi) for h in order}
            ns = State({cc: under(subst(v, m) if mentions(v, hs) else v, ()) for cc, v in s.m.items()})
            if len(conds) == 1:
                # the condition holds at the exit iteration
                tr = {}
                for x in conj(ce):
                    tr[x if x.op != "not" else x.a[0]] = boolt(x.op != "not")
                ns = State({cc: subst(v, tr) for cc, v in ns.m.items()})
            out.append((key, g, ns))
        key, g, s = normal[0]
        m = {h: closed[h](trip) for h in order}
        ns = State({cc: subst(v, m) if mentions(v, hs) else v for cc, v in s.m.items()})
        out.append((key, (not_(ex),), ns))
        return out

    def opaque_loop(self, order, init, step, lits, exits):
        """loop of unknown trip count: uninterpreted, but keyed by its whole
        structure (initial values, steps, continue and exit conditions)"""
        cont = TRUE
        for l in lits:
            cont = and_(cont, l)
        body = [step[h] for h in order]
        gs = []
        for key, g, s in exits:
            c = TRUE
            for l in g:
                c = and_(c, l)
            gs.append(c)
        # canonical ordering of the loop symbols by first occurrence
        occ = []
        for t in [cont] + gs + body:
            for y in occ_order(t, set(order)):
                if y not in occ:
                    occ.append(y)
        ordr = occ + [h for h in order if h not in occ]
        used = [h for h in ordr]
        tup = mk("agg", "tuple", 0, cont, *(gs + [step[h] for h in ordr]))
        l = tup
        for x in reversed(ordr):
            l = lam(l, x)
        L = mk("wloop", l, *[init[h] for h in ordr])
        m = {h: mk("wout", L, num(n)) for n, h in enumerate(ordr)}
        out = []
        hs = set(order)
        for n, (key, g, s) in enumerate(exits):
            ns = State({cc: subst(v, m) if mentions(v, hs) else v for cc, v in s.m.items()})
            if len(exits) == 1:
                g2 = ()
            elif n == len(exits) - 1:
                g2 = tuple(not_(mk("wexit", L, num(q))) for q in range(n))
            else:
                g2 = tuple(not_(mk("wexit", L, num(q))) for q in range(n)) + (mk("wexit", L, num(n)),)
            out.append((key, g2, ns))
        return out


def condref(t):
    """a conditional whose alternatives are references"""
    while t.op == "ite":
        if not condref(t.a[1]):
            return False
        t = t.a[2]
    return t.op == "ref"


def conj(t):
    if t.op == "and":
        return conj(t.a[0]) + conj(t.a[1])
    return [t]


def only_prefix(g, l):
    return True


def occ_order(t, xs):
    out = []
    seen = set()

    def rec(t):
        if t in seen:
            return
        seen.add(t)
        if t in xs:
            out.append(t)
        for x in t.a:
            if isinstance(x, T):
                rec(x)
    rec(t)
    return out


def split_latch(h, nxt):
    """condition c and value x of a step that sets h to x when c holds"""
    if nxt.op == "ite":
        if nxt.a[2] is h:
            return nxt.a[0], nxt.a[1]
        if nxt.a[1] is h:
            return not_(nxt.a[0]), nxt.a[2]
        for k in (1, 2):
            r = split_latch(h, nxt.a[k])
            o = split_latch(h, nxt.a[3 - k])
            if r and o and r[1] is o[1]:
                return ite(nxt.a[0], *((r[0], o[0]) if k == 1 else (o[0], r[0]))), r[1]
            q = nxt.a[3 - k]
            if r and q is r[1]:
                return or_(nxt.a[0] if k == 2 else not_(nxt.a[0]), r[0]), r[1]
    if nxt.op in ("or", "and"):
        p, q = nxt.a
        v = boolt(nxt.op == "or")
        w = (lambda c: c) if nxt.op == "or" else not_
        if p is h:
            return w(q), v
        if q is h:
            return w(p), v
        for x, y in ((p, q), (q, p)):
            r = split_latch(h, x)
            if r and r[1] is v and x.op == nxt.op:
                return or_(r[0], w(y)), v
    return None


def split_add(h, t):
    """t == h + e  ->  e"""
    if t is h:
        return ZERO
    if t.op == "add":
        a, b = t.a
        if a is h:
            return b
        if b is h:
            return a
        x = split_add(h, a)
        if x is not None:
            return add(x, b)
        x = split_add(h, b)
        if x is not None:
            return add(a, x)
    if t.op == "sub":
        x = split_add(h, t.a[0])
        if x is not None:
            return sub(x, t.a[1])
    if t.op == "ite" and not mentions(t.a[0], {h}):
        x, y = split_add(h, t.a[1]), split_add(h, t.a[2])
        if x is not None and y is not None:
            return ite(t.a[0], x, y)
    return None


def split_mul(h, t):
    if t is h:
        return ONE
    if t.op == "mul":
        a, b = t.a
        if a is h:
            return b
        if b is h:
            return a
        x = split_mul(h, a)
        if x is not None:
            return mul(x, b)
        x = split_mul(h, b)
        if x is not None:
            return mul(a, x)
    if t.op == "div":
        x = split_mul(h, t.a[0])
        if x is not None:
            return div(x, t.a[1])
    if t.op == "ite" and not mentions(t.a[0], {h}):
        x, y = split_mul(h, t.a[1]), split_mul(h, t.a[2])
        if x is not None and y is not None:
            return ite(t.a[0], x, y)
    return None


def add_init(i0, s):
    return add(i0, s)


def mul_init(i0, s):
    return mul(i0, s)


def sumt(n, l):
    if l.a[1] is ZERO:
        return ZERO
    if isnum(n) and 0 <= n.a[0] <= 24:
        r = ZERO
        for k in range(int(n.a[0])):
            r = add(r, apply(l, num(k)))
        return r
    return mk("SUM", n, l)


def prodt(n, l):
    if l.a[1] is ONE:
        return ONE
    if isnum(n) and 0 <= n.a[0] <= 24:
        r = ONE
        for k in range(int(n.a[0])):
            r = mul(r, apply(l, num(k)))
        return r
    return mk("PROD", n, l)


def extseq(op, n, l):
    """largest / smallest of l(0..n)"""
    if l.op == "lam" and not mentions_bv(l):
        return l.a[1]
    if isnum(n) and 1 <= n.a[0] <= 8:
        r = apply(l, ZERO)
        for k in range(1, int(n.a[0])):
            r = fn("max" if op == "SMAX" else "min", *sorted((r, apply(l, num(k))), key=lambda t: t.id))
        return r
    return mk(op, n, l)


def mentions_bv(l):
    x = mk("var", "$probe")
    return mentions(apply(l, x), {x})


def ext_init(op, i0, n, l):
    """max/min of an initial value and l(0..n)"""
    if i0.op in ("const", "neg") and "inf" in show(i0):
        return extseq(op, n, l)
    if apply(l, num(-1)) is i0:
        return extseq(op, add(n, ONE), lamf(lambda j: apply(l, sub(j, ONE))))
    if apply(l, ZERO) is i0:
        return extseq(op, n, l)
    return fn("max" if op == "SMAX" else "min", *sorted((i0, extseq(op, n, l)), key=lambda t: t.id))


def app_int(f, *args):
    return mk("fn", f, *args)


def affine(i, j):
    """the offset o with i = j + o"""
    if i is j:
        return ZERO
    if i.op == "add":
        if i.a[0] is j and not mentions(i.a[1], {j}):
            return i.a[1]
        if i.a[1] is j and not mentions(i.a[0], {j}):
            return i.a[0]
    return None


def split_writes(h, t):
    out = []
    while t.op == "withidx":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    return list(reversed(out)) if t is h else None


def split_residue(h, t, hs):
    """t = if j % d == c then push(h, e) else h  ->  (d, c, e)"""
    if t.op != "ite":
        return None
    c, x, y = t.a
    neg = False
    while c.op == "not":
        c, neg = c.a[0], not neg
    if x is h:
        x, y, neg = y, x, not neg
    if y is not h or x.op != "vpush" or x.a[0] is not h or mentions(x.a[1], {h}) or c.op != "cmp" or c.a[0] != "eq":
        return None
    a, b = c.a[1], c.a[2]
    if isnum(a):
        a, b = b, a
    if not isnum(b) or a.op != "fn" or a.a[0] not in ("irem", "rem_euclid") or not isnum(a.a[2]) or a.a[1] not in hs:
        return None
    d, r = int(a.a[2].a[0]), int(b.a[0])
    if neg:
        if d != 2:
            return None
        r = 1 - r
    return (d, r, x.a[1], a.a[1]) if 0 <= r < d else None


def split_ext(h, t):
    """t == max(h, e) -> (SMAX, e)"""
    if t.op == "fn" and t.a[0] in ("max", "min") and len(t.a) == 3 and h in t.a[1:]:
        return "SMAX" if t.a[0] == "max" else "SMIN", t.a[2] if t.a[1] is h else t.a[1]
    if t.op == "ite" and t.a[0].op in ("cmp", "not"):
        c, x, y = t.a
        if c.op == "not":
            c, x, y = c.a[0], y, x
        if c.op == "cmp" and h in c.a[1:] and {x, y} == set(c.a[1:]) and c.a[0] in ("lt", "le"):
            # c = (p < q):  p when true -> min, q when true -> max
            p, q = c.a[1:]
            e = q if p is h else p
            return ("SMIN" if x is p else "SMAX"), e
    return None


TM._hooks["SMAX"] = lambda n, l: extseq("SMAX", n, l)
TM._hooks["SMIN"] = lambda n, l: extseq("SMIN", n, l)
TM._hooks["SUM"] = sumt
TM._hooks["PROD"] = prodt


def exists(n, l):
    if l.a[1] is FALSE:
        return FALSE
    if isnum(n) and 0 <= n.a[0] <= 40:
        r = FALSE
        for k in range(int(n.a[0])):
            r = or_(r, apply(l, num(k)))
        return r
    if l.op == "lam" and l.a[1].op in ("not", "and", "or"):
        l = mk("lam", l.a[0], TM.nnf(l.a[1]))
    return mk("exists", n, l)


TM._hooks["exists"] = exists

EMPTY = seq(ZERO, lamf(lambda j: UNDEF))


def vconcat(a, b):
    if length(a) is ZERO:
        return b
    if length(b) is ZERO:
        return a
    return mk("concat", a, b)


def _len_concat(v):
    return add(length(v.a[0]), length(v.a[1]))


def natsub(n, k):
    """number of iterations of k..n (natural number)"""
    return sub(n, k)


def bound_of(l, ind, inv):
    """continue-literal  k + c < n  (or k+c <= n)  ->  (k, n - c)"""
    if l.op != "cmp":
        if l.op == "not" and l.a[0].op == "cmp":
            o, a, b = l.a[0].a
            # !(n <= k)  is  k < n ;  !(n < k) is k <= n
            if o == "le":
                return _bound("lt", b, a, ind, inv)
            if o == "lt":
                return _bound("le", b, a, ind, inv)
            if o == "eq":
                r = _bound("lt", a, b, ind, inv) or _bound("lt", b, a, ind, inv)
                return r
        return None
    o, a, b = l.a
    if o in ("lt", "le"):
        return _bound(o, a, b, ind, inv)
    return None


def _bound(o, a, b, ind, inv):
    if not inv(b):
        return None
    k, c = a, ZERO
    if a.op == "add" and isnum(a.a[1]):
        k, c = a.a
    elif a.op == "add":
        if a.a[1] in ind and inv(a.a[0]):
            k, c = a.a[1], a.a[0]
        elif a.a[0] in ind and inv(a.a[1]):
            k, c = a.a
    if k not in ind:
        return None
    n = sub(b, c)
    if o == "le":
        n = add(n, ONE)
    return (k, n)


def under(t, lits):
    """simplify t under the branch literals"""
    m = {}
    for l in lits:
        if l.op == "not":
            m[l.a[0]] = FALSE
        else:
            m[l] = TRUE
    if not m or not mentions(t, set(m)):
        return t
    return subst(t, m)


def fset(H):
    s = set()
    for v in H.values():
        for x in subterms(v):
            if x.op == "fresh":
                s.add(x)
    return s


def generalize(hv, nv, fs):
    """least general pattern covering header value hv and next value nv"""
    if hv is nv:
        return hv
    if hv.op == "fresh" and hv in fs:
        return hv
    if hv.op == nv.op and hv.op in ("agg", "iter") and len(hv.a) == len(nv.a):
        same = all(isinstance(x, T) or x == y for x, y in zip(hv.a, nv.a)) and hv.a[0] != "array"
        if same:
            return mk(hv.op, *[generalize(x, y, fs) if isinstance(x, T) else x for x, y in zip(hv.a, nv.a)])
    if hv.op == "ref" and nv.op == "ref" and hv.a[0] == nv.a[0]:
        pass
    return fresh("h")


def match(pat, i, s, out):
    if pat.op == "fresh":
        out.append((pat, i, s))
        return
    if pat is i and pat is s:
        return
    if pat.op in ("agg", "iter"):
        for n, x in enumerate(pat.a):
            if isinstance(x, T):
                gi = i.a[n] if i.op == pat.op and len(i.a) > n else UNDEF
                gs = s.a[n] if s.op == pat.op and len(s.a) > n else UNDEF
                match(x, gi, gs, out)


def merge2(c, s1, s2):
    """state equal to s1 if c else s2"""
    if s1 is s2:
        return s1
    m = {}
    a, b = s1.m, s2.m
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            if isinstance(k, T):
                m[k] = ite(c, v, k.a[0])
            else:
                m[k] = v
        else:
            m[k] = v if v is w else ite(c, v, w)
    for k, w in b.items():
        if k not in a:
            m[k] = ite(c, k.a[0], w) if isinstance(k, T) else w
    return State(m)


def merge_edges(inc):
    """inc: list of (lits tuple, State).  Returns (lits, State)."""
    inc = list(inc)
    while len(inc) > 1:
        # pair with the longest common prefix
        best = None
        for i in range(len(inc)):
            for j in range(i + 1, len(inc)):
                a, b = inc[i][0], inc[j][0]
                n = 0
                while n < len(a) and n < len(b) and a[n] is b[n]:
                    n += 1
                if best is None or n > best[0]:
                    best = (n, i, j)
        n, i, j = best
        (ga, sa), (gb, sb) = inc[i], inc[j]
        ra, rb = ga[n:], gb[n:]
        ca = TRUE
        for x in ra:
            ca = and_(ca, x)
        cb = TRUE
        for x in rb:
            cb = and_(cb, x)
        if ca.op == "not" and cb.op != "not":
            st = merge2(cb, sb, sa)
        else:
            st = merge2(ca, sa, sb)
        g = ga[:n]
        if not (len(ra) == 1 and len(rb) == 1 and ra[0] is not_(rb[0])):
            u = or_simpl(ra, rb)
            if u is not TRUE:
                g = g + tuple(conj(u))
        inc = [x for q, x in enumerate(inc) if q not in (i, j)] + [(g, st)]
    return inc[0]


def or_simpl(ra, rb):
    if not ra or not rb:
        return TRUE
    # (l & x) | (!l & y)
    if ra[0] is not_(rb[0]):
        x = TRUE
        for l in ra[1:]:
            x = and_(x, l)
        y = TRUE
        for l in rb[1:]:
            y = and_(y, l)
        if x is TRUE:
            return or_(ra[0], y)
        if y is TRUE:
            return or_(rb[0], x)
        return ite(ra[0], x, y)
    ca = TRUE
    for l in ra:
        ca = and_(ca, l)
    cb = TRUE
    for l in rb:
        cb = and_(cb, l)
    return or_(ca, cb)


def norm_ty(s):
    s = s.strip()
    s = re.sub(r"'\w+\s?", "", s)
    s = re.sub(r"<>", "", s)
    s = re.sub(r"\s+", "", s)
    # drop crate/module prefixes
    return re.sub(r"(\w+::)+", "", s)


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<" and not (i == 0 or p[i - 1] in " <("):
            # generic list unless it opens a qualified path
            dd = 0
            j = i
            while j < len(p):
                if p[j] == "<":
                    dd += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    dd -= 1
                    if dd == 0:
                        break
                j += 1
            inner = p[i + 1:j]
            if inner.startswith("impl "):
                out.append("<" + inner + ">")
            elif out and "".join(out).endswith("::"):
                out[-1:] = []
                if out and out[-1] == ":":
                    out.pop()
            i = j + 1
            continue
        out.append(ch)
        i += 1
    return "".join(out)


_interior = {}


def interior(ty, F):
    """does a shared reference to this type permit mutation through it?"""
    k = ty.did or ty.s
    r = _interior.get(k)
    if r is None:
        _interior[k] = False
        r = ty.k == "adt" and bool(re.search(r"::(Ref)?Cell<|::Mutex<|::RwLock<", ty.s))
        a = F.adts.get(ty.did) if ty.did else None
        if a and a["local"] and not r:
            for v in a["variants"]:
                for f in v["fields"]:
                    if f[1] is not None and interior(a["crate"].types[f[1]], F):
                        r = True
        _interior[k] = r
    return r


class FnVal:
    def __init__(self, rec, crate, tyenv):
        self.rec, self.crate, self.tyenv = rec, crate, tyenv

    def key(self):
        return self.rec.get("rdid", self.rec["did"])

    def __eq__(self, o):
        return isinstance(o, FnVal) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.key()


class Frame:
    def __init__(self, ev, item, tyenv, guard):
        self.ev = ev
        self.item = item
        self.tyenv = tyenv
        self.guard0 = guard
        ev.nframe += 1
        self.id = ev.nframe
        self.cfg = cfg_of(item)

    # ----------------------------------------------------------- driver
    def run(self, st):
        if 0 not in self.cfg.live:
            raise Diverges(self.item.path)
        res = self.region(0, st, None)
        rets = res["ret"]
        if not rets:
            raise Diverges(self.item.path)
        g, s = merge_edges(rets)
        ret = s.m.get((self.id, 0), UNIT if self.item.lty(0).s == "()" else UNDEF)
        ret = self.escape(ret, s)
        # drop this frame's cells
        fid = self.id
        s.m = {k: v for k, v in s.m.items() if not (isinstance(k, tuple) and k[0] == fid)} \
            if not self.refs_escape(ret, s) else s.m
        return ret, s

    def refs_escape(self, ret, s):
        if ret.hasref and mentions_cell(ret, self.id):
            return True
        return False

    def escape(self, ret, s):
        return ret

    def region(self, start, st, loop):
        """execute from `start`; loop = (header, blocks) when evaluating a loop
        body (edges to header are back edges, edges leaving are exits)"""
        cfg = self.cfg
        pend = {start: [((), st)]}
        rets, backs, exits = [], [], {}
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            g, s = merge_edges(pend.pop(b))
            if b in cfg.loops and not (loop and b == loop[0] and first):
                outs = self.loop(b, s, g)
            else:
                outs = self.block(b, s, g)
            first = False
            for tgt, lits, s2 in outs:
                if tgt == "ret":
                    if loop is not None:
                        exits.setdefault("ret", []).append((lits, s2))
                    else:
                        rets.append((lits, s2))
                elif loop is not None and tgt == loop[0]:
                    backs.append((lits, s2))
                elif loop is not None and tgt not in loop[1]:
                    exits.setdefault(tgt, []).append((lits, s2))
                else:
                    pend.setdefault(tgt, []).append((lits, s2))
        return {"ret": rets, "back": backs, "exits": exits}

    def loop(self, h, st, g):
        ev = self.ev
        blocks = self.cfg.loops[h]
        saved = self.guard0

        def body(s):
            r = self.region(h, s, (h, blocks))
            back = merge_edges(r["back"]) if r["back"] else None
            exits = []
            for k, lst in r["exits"].items():
                gg, ss = merge_edges(lst)
                exits.append((k, gg, ss))
            return back, exits
        self.guard0 = saved + g
        try:
            outs = ev.solve_loop(st, body)
        finally:
            self.guard0 = saved
        return [(k, g + lits, s) for k, lits, s in outs]

    # ----------------------------------------------------------- block
    def block(self, b, s, g):
        ev = self.ev
        blk = self.item.blocks[b]
        self.g = g
        for stmt in blk["s"]:
            if stmt[0] == "=":
                v = self.rvalue(stmt[2], s)
                self.write(stmt[1], v, s)
            else:
                self.set_discr(stmt[1], stmt[2], s)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], g, s)] if t[1] in self.cfg.live else []
        if k == "drop":
            return [(t[2], g, s)] if t[2] in self.cfg.live else []
        if k == "return":
            return [("ret", g, s)]
        if k == "assert":
            if t[4] not in self.cfg.live:
                return []
            if t[3] in ("bounds", "div0", "rem0"):
                c = self.operand(t[1], s)
                c = c if t[2] else not_(c)
                if c is not TRUE:
                    ev.assumes.append((self.guard0 + g, c, t[3], self.item.path))
            return [(t[4], g, s)]
        if k == "switch":
            return self.switch(t, s, g)
        if k == "call":
            return self.call(t, s, g, blk)
        return []

    def switch(self, t, s, g):
        ev = self.ev
        d = self.operand(t[1], s)
        ty = self.item.ty(t[4])
        live = self.cfg.live
        blocks = self.item.blocks

        def dead(bb):
            return blocks[bb]["t"][0] == "unreachable" and not blocks[bb]["s"]
        arms = []
        for v, tgt in t[2]:
            arms.append((v, tgt))
        arms = [(v, tg) for v, tg in arms if not dead(tg)]
        other = t[3] if not dead(t[3]) else None
        lits = []
        prev = []
        if ty.k == "bool":
            vals = dict((int(v), tg) for v, tg in arms)
            outs = []
            d = simplify_by(d, g)
            f_t = vals.get(0, other)
            t_t = vals.get(1, other)
            outs = [(not_(d), f_t), (d, t_t)]
        else:
            outs = []
            neg_ = []
            d = simplify_by(d, g)
            n = len(arms)
            for q, (v, tg) in enumerate(arms):
                iv = int(v)
                if ty.k == "int":
                    bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}.get(ty.s, 64)
                    if iv >= 1 << (bits - 1):
                        iv -= 1 << bits
                c = self.eqv(d, iv)
                if other is None and q == n - 1:
                    outs.append((tuple(neg_), tg))
                else:
                    outs.append((tuple(neg_) + (c,), tg))
                neg_.append(not_(c))
            if other is not None:
                outs.append((tuple(neg_), other))
        # group by target, dropping impossible edges
        clean = []
        for c, tg in outs:
            if tg is None:
                continue
            cs = c if isinstance(c, tuple) else (c,)
            cs = tuple(x for x in cs if x is not TRUE)
            if any(x is FALSE for x in cs):
                continue
            clean.append((cs, tg))
        livee = [(cs, tg) for cs, tg in clean if tg in live]
        deadd = [(cs, tg) for cs, tg in clean if tg not in live]
        if deadd:
            c = FALSE
            for cs, tg in deadd:
                x = TRUE
                for y in cs:
                    x = and_(x, y)
                c = or_(c, x)
                self.ev.assumes.append((self.guard0 + g, not_(x), "panic:" + self.panic_name(tg), self.item.path))
        if len(livee) == 1 and deadd:
            return [(livee[0][1], g, s)]
        res = []
        for n, (cs, tg) in enumerate(livee):
            s2 = s if n == len(livee) - 1 else s.copy()
            res.append((tg, g + cs, s2))
        return res

    def panic_name(self, bb):
        seen = set()
        while bb not in seen:
            seen.add(bb)
            t = self.item.blocks[bb]["t"]
            if t[0] == "call" and t[4] is None:
                f = t[1]
                if f[0] == "k" and "v" in f[1] and "fn" in f[1]["v"]:
                    return f[1]["v"]["fn"]["name"]
                return "?"
            n = self.cfg.succ[bb]
            if not n:
                return t[0]
            bb = n[0]
        return "loop"

    def eqv(self, d, iv):
        if d.op == "dmap":
            for idx, val in enumerate(d.a[1]):
                if val == iv:
                    return self.eq_discr(d.a[0], idx)
            return FALSE
        if d.op in ("discr",):
            return self.eq_discr(d, iv)
        if d.op == "ite":
            return ite(d.a[0], self.eqv(d.a[1], iv), self.eqv(d.a[2], iv))
        if d.op == "b2i":
            return d.a[0] if iv == 1 else not_(d.a[0])
        return cmp("eq", d, num(iv))

    def eq_discr(self, d, idx):
        if d.op == "ite":
            return ite(d.a[0], self.eq_discr(d.a[1], idx), self.eq_discr(d.a[2], idx))
        if d.op == "num":
            return boolt(d.a[0] == idx)
        if d.op == "discr" and len(d.a) > 1 and d.a[1] == 2 and idx == 1:
            return not_(cmp("eq", d, ZERO))
        return cmp("eq", d, num(idx))

    def call(self, t, s, g, blk):
        ev = self.ev
        f = t[1]
        args = [self.operand(a, s) for a in t[2]]
        guard = self.guard0 + g
        if t[4] is None or t[4] not in self.cfg.live:
            return []
        try:
            if f[0] == "k" and "v" in f[1] and "fn" in f[1]["v"]:
                rec = f[1]["v"]["fn"]
                if ev.trace and ev.trace(rec):
                    ev.calls.append((guard, "trace:" + rec.get("rdid", rec["did"]), [ev.snap(a, s) for a in args], None))
                r, s = ev.call_fnrec(rec, self.item.crate, args, s, self.tyenv, guard, self.place_ty(t[3]))
            else:
                fv = self.operand(f, s) if f[0] != "k" else self.const(f[1])
                r, s = ev.call_closure(fv, args, s, guard)
        except Diverges:
            return []
        self.write(t[3], r, s)
        return [(t[4], g, s)]

    # ----------------------------------------------------------- places
    def place_ty(self, p):
        ty = self.item.lty(p[0])
        for e in p[1]:
            ty = self.proj_ty(ty, e)
            if ty is None:
                return None
        return ty

    def proj_ty(self, ty, e):
        if ty is None:
            return None
        k = e[0]
        if k == "*":
            if ty.k in ("ref", "ptr"):
                return ty.inner
            if ty.k == "adt" and ty.args:
                return ty.args[0]
            return None
        if k == ".":
            return self.item.ty(e[2])
        if k in ("[]", "[c]"):
            if ty.k in ("slice", "array"):
                return ty.inner
            return None
        return ty

    def resolve(self, p, s):
        """place -> (cell, path) ; path tuple of terms"""
        cell = (self.id, p[0])
        path = ()
        ty = self.item.lty(p[0])
        variant = 0
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = get_path(self.ev.read_cell(cell, s), path)
                if v.op == "ite" and v.hasref:
                    # conditional reference: materialise through a temp view
                    return ("cond", v, p[1][p[1].index(e) + 1:], ty)
                if v.op == "ref":
                    cell, path = v.a[0], tuple(v.a[1:])
                elif ty is not None and ty.k in ("ref", "ptr"):
                    cell, path = self.through(cell, path, v, ty)
                # Box deref: transparent
                ty = self.proj_ty(ty, e)
                variant = 0
            elif k == ".":
                if ty is not None and ty.k == "adt" and TRANSPARENT.match(ty.s):
                    ty = self.item.ty(e[2])
                    continue
                kind, n = self.kind_of(ty, variant)
                path = path + (pfld(variant, e[1], kind, n),)
                ty = self.item.ty(e[2])
                variant = 0
            elif k == "as":
                variant = e[1]
            elif k == "[]":
                i = s.m.get((self.id, e[1]), UNDEF)
                path = path + (pidx(i),)
                ty = self.proj_ty(ty, e)
            elif k == "[c]":
                if e[2]:
                    v = get_path(self.ev.read_cell(cell, s), path)
                    path = path + (pidx(sub(length(v), num(e[1]))),)
                else:
                    path = path + (pidx(num(e[1])),)
                ty = self.proj_ty(ty, e)
            else:
                raise GiveUp("place " + k)
        return cell, path, ty

    def through(self, cell, path, v, ty):
        """dereference of an opaque or snapshot reference value"""
        mut = ty.d.get("mut")
        c = mk("cell", v)
        if c in self.cur.m if hasattr(self, "cur") else False:
            return c, ()
        if (mut or interior(ty.inner, self.ev.F)) and v.op in ("var", "fld", "idx", "app", "fresh", "bv", "undef"):
            return c, ()
        # shared reference modelled by value: stay in place
        return cell, path

    def kind_of(self, ty, variant):
        if ty is None:
            return "?", 0
        if ty.k == "adt":
            return ty.did, self.ev.nfields(ty.did, variant)
        if ty.k == "tuple":
            return "tuple", len(ty.args)
        if ty.k == "closure":
            return "closure:" + (ty.did or ""), 0
        return ty.k, 0

    def read(self, p, s):
        self.cur = s
        r = self.resolve(p, s)
        if r[0] == "cond":
            return self.read_cond(r[1], r[2], r[3], s)
        cell, path, ty = r
        return get_path(self.ev.read_cell(cell, s), path)

    def read_cond(self, v, rest, ty, s):
        def one(rf):
            if rf.op == "ite":
                return ite(rf.a[0], one(rf.a[1]), one(rf.a[2]))
            base = self.ev.deref(rf, s)
            t2 = self.proj_ty(ty, ["*"])
            variant = 0
            for e in rest:
                if e[0] == ".":
                    kind, n = self.kind_of(t2, variant)
                    base = fld(base, variant, e[1], kind, n)
                    t2 = self.item.ty(e[2])
                    variant = 0
                elif e[0] == "as":
                    variant = e[1]
                elif e[0] == "*":
                    base = self.ev.deref(base, s)
                    t2 = self.proj_ty(t2, e)
                elif e[0] == "[]":
                    base = proj_index(base, s.m.get((self.id, e[1]), UNDEF))
                    t2 = self.proj_ty(t2, e)
                else:
                    raise GiveUp("cond place")
            return base
        return one(v)

    def write(self, p, v, s):
        self.cur = s
        if not p[1]:
            s.m[(self.id, p[0])] = v
            return
        r = self.resolve(p, s)
        if r[0] == "cond":
            self.write_cond(r[1], r[2], r[3], v, s)
            return
        cell, path, ty = r
        s.m[cell] = set_path(self.ev.read_cell(cell, s), path, v)

    def write_cond(self, v, rest, ty, val, s):
        conds = []

        def leaves(rf, c):
            if rf.op == "ite":
                leaves(rf.a[1], and_(c, rf.a[0]))
                leaves(rf.a[2], and_(c, not_(rf.a[0])))
            else:
                conds.append((rf, c))
        leaves(v, TRUE)
        for rf, c in conds:
            cell, path = self.ev.target(rf)
            t2 = self.proj_ty(ty, ["*"])
            variant = 0
            for e in rest:
                if e[0] == ".":
                    kind, n = self.kind_of(t2, variant)
                    path = tuple(path) + (pfld(variant, e[1], kind, n),)
                    t2 = self.item.ty(e[2])
                elif e[0] == "as":
                    variant = e[1]
                else:
                    raise GiveUp("cond write")
            old = self.ev.read_cell(cell, s)
            s.m[cell] = set_path(old, path, ite(c, val, get_path(old, path)))

    def set_discr(self, p, variant, s):
        v = self.read(p, s)
        ty = self.place_ty(p)
        if v.op == "agg":
            self.write(p, mk("agg", v.a[0], variant, *v.a[2:]), s)
        else:
            kind, n = self.kind_of(ty, variant)
            self.write(p, mk("agg", kind, variant, *([UNDEF] * n)), s)

    # ----------------------------------------------------------- values
    def operand(self, o, s):
        if o[0] in ("c", "m"):
            return self.read(o[1], s)
        if o[0] == "k":
            return self.const(o[1])
        raise GiveUp("operand")

    def const(self, c):
        v = c.get("v")
        ev = self.ev
        if v is not None and "opaque" not in v:
            return self.cval(v, c["ty"], c)
        if "item" in c:
            key = (c["item"], c.get("promoted"))
            if "promoted" in c:
                par = ev.F.items.get(c["item"])
                if par is None:
                    return mk("app", "const:" + c["item"])
                sub_ = ev.F.promoted_of(par, c["promoted"])
                key = (sub_.did, tuple(sorted(self.tyenv.items())))
                if key not in ev.const_cache:
                    ev.const_cache[key] = self.eval_const(sub_, self.tyenv)
                return ev.const_cache[key]
            it = ev.F.items.get(c["item"])
            if it is not None and it.blocks and not it.in_trait:
                if key not in ev.const_cache:
                    ev.const_cache[key] = self.eval_const(it, {})
                return ev.const_cache[key]
            return mk("app", "const:" + c["item"])
        if "param" in c:
            if re.fullmatch(r'"[^"\\\\]*"', c["param"]):
                return mk("str", c["param"][1:-1])     # a string pattern of a match
            return mk("var", "const " + c["param"])
        return opaque_const(c.get("v", {}).get("opaque", "?"))

    def eval_const(self, it, env):
        ev = self.ev
        try:
            r, s = ev.call_item(it, [], State(), env, ())
            if r.hasref:
                r = ev.snap(r, s)
            return r
        except GiveUp:
            return mk("app", "const:" + it.did)

    def cval(self, v, tyid, c=None):
        ev = self.ev
        if "int" in v:
            return num(int(v["int"]))
        if "fbits" in v:
            return fconst(int(v["fbits"]), v["size"])
        if "bool" in v:
            return boolt(v["bool"])
        if "char" in v:
            return mk("char", v["char"])
        if "str" in v:
            return mk("str", v["str"])
        if "unit" in v:
            return UNIT
        if "fn" in v:
            return mk("fnval", FnVal(v["fn"], self.item.crate, self.tyenv))
        if "agg" in v:
            ty = self.item.ty(v["ty"])
            fs = [self.cval(x, 0) for x in v["agg"]]
            if ty.k == "adt":
                if TRANSPARENT.match(ty.s) and fs:
                    return fs[0]
                return agg(ty.did, v.get("variant", 0), *fs)
            return agg("array" if ty.k == "array" else "tuple", 0, *fs)
        if "static" in v:
            return mk("app", "static:" + v["static"])
        if "zst" in v:
            ty = self.item.ty(v["zst"])
            if ty.k == "adt":
                return mk("agg", ty.did, 0)
            if ty.k == "closure":
                return mk("agg", "closure:" + ty.did, 0)
            return mk("app", "zst:" + ty.s)
        return opaque_const(v.get("opaque", v) if isinstance(v, dict) else v)

    def rvalue(self, r, s):
        ev = self.ev
        k = r[0]
        if k == "use":
            return self.operand(r[1], s)
        if k in ("ref", "reborrow"):
            return self.ref(r[1], r[2], s)
        if k == "bin":
            return self.binop(r[1], self.operand(r[2], s), self.operand(r[3], s), r)
        if k == "un":
            x = self.operand(r[2], s)
            if r[1] == "Neg":
                return neg(x)
            if r[1] == "Not":
                if self.operand_ty(r[2]).k == "bool":
                    return not_(x)
                return fn("bnot", x)
            if r[1] == "PtrMetadata":
                return length(ev.deref_val(x, s))
            return app("un:" + r[1], x)
        if k == "cast":
            return self.cast(r, s)
        if k == "discr":
            v = self.read(r[1], s)
            ty = self.place_ty(r[1])
            return self.discr_of(v, ty)
        if k == "agg":
            a = r[1]
            ops = [self.operand(o, s) for o in r[2]]
            if a["a"] == "array":
                return mk("agg", "array", 0, *ops)
            if a["a"] == "tuple":
                return agg("tuple", 0, *ops) if ops else UNIT
            if a["a"] == "adt":
                return agg(a["did"], a["variant"], *ops)
            if a["a"] == "closure":
                if not hasattr(ev, "_cenv"):
                    ev._cenv = {}
                ev._cenv["closure:" + a["did"]] = self.tyenv
                return mk("agg", "closure:" + a["did"], 0, *ops)
            return app("agg", *ops)
        if k == "repeat":
            x = self.operand(r[1], s)
            n = r[2]
            nt = self.const(n) if isinstance(n, dict) else (num(int(n)) if str(n).isdigit() else mk("var", str(n)))
            return seq_of(nt, lambda j: x)
        return app("rvalue:" + str(r[1])[:60])

    def operand_ty(self, o):
        if o[0] in ("c", "m"):
            t = self.place_ty(o[1])
            if t is not None:
                return t
            class X: k = "?"; s = "?"
            return X
        return self.item.ty(o[1]["ty"])

    def discr_of(self, v, ty):
        ev = self.ev
        if v.op == "ite":
            return ite(v.a[0], self.discr_of(v.a[1], ty), self.discr_of(v.a[2], ty))
        did = ty.did if ty is not None and ty.k == "adt" else None
        n = ev.nvariants(did) if did else 0
        if v.op == "agg":
            d = num(v.a[1])
        else:
            d = mk("discr", v, n)
        if did:
            a = ev.F.adts.get(did)
            if did == ORDERING:
                return self.dm(d, (-1, 0, 1))
            if a:
                ds = tuple(int(x["discr"]) if x["discr"] is not None else i for i, x in enumerate(a["variants"]))
                if ds != tuple(range(len(ds))):
                    return self.dm(d, ds)
        return d

    def dm(self, d, tab):
        if isnum(d):
            return num(tab[int(d.a[0])])
        return mk("dmap", d, tab)

    def ref(self, mut, p, s):
        ev = self.ev
        if mut:
            # &mut *x where x is an opaque reference: same reference
            if p[1] and p[1][-1][0] == "*":
                base = [p[0], p[1][:-1]]
                bty = self.place_ty(base)
                v = self.read(base, s)
                if v.op == "ref" or (v.op == "ite" and v.hasref):
                    return v
                if bty is not None and bty.k in ("ref", "ptr"):
                    if bty.d.get("mut"):
                        return v
                    return v
            self.cur = s
            r = self.resolve(p, s)
            if r[0] == "cond":
                raise GiveUp("&mut through conditional reference")
            cell, path, ty = r
            return mkref(cell, path)
        ty = self.place_ty(p)
        if ty is not None and interior(ty, ev.F):
            if p[1] and p[1][-1][0] == "*":
                v = self.read([p[0], p[1][:-1]], s)
                if v.op == "ref" or not mentions_interior(v):
                    return v
            self.cur = s
            r = self.resolve(p, s)
            if r[0] != "cond":
                return mkref(r[0], r[1])
        v = self.read(p, s)
        return v

    def cast(self, r, s):
        kind, o, ty = r[1], r[2], self.item.ty(r[3])
        if kind == "BoxDerefTransmute":
            # address of a box's contents: reference to the box cell itself
            pl = o[1]
            base = [pl[0], [e for e in pl[1]]]
            while base[1] and base[1][-1][0] == ".":
                base[1].pop()
            rr = self.resolve(base, s)
            if rr[0] == "cond":
                raise GiveUp("box")
            v = get_path(self.ev.read_cell(rr[0], s), rr[1])
            if v.op == "ref":
                return v
            return mkref(rr[0], rr[1])
        x = self.operand(o, s)
        if kind in ("IntToFloat", "FloatToFloat"):
            if ty.s == "f32" and not isnum(x):
                self.ev.narrowed.add((self.item, self.operand_ty(o).s, "f32"))
            return x
        if kind == "IntToInt":
            src = self.operand_ty(o)
            if INTBITS.get(src.s, 0) > INTBITS.get(ty.s, 128) and not isnum(x):
                self.ev.narrowed.add((self.item, src.s, ty.s))
            if src.k == "bool":
                return ite(x, ONE, ZERO)
            if x.op == "dmap":
                t0 = x.a[1][0]
                if all(v == t0 + i for i, v in enumerate(x.a[1])):
                    return add(x.a[0], num(t0))
                return mk("dmap", *x.a)
            return x
        if kind == "FloatToInt":
            if INTBITS.get(ty.s, 128) < 64 and not isnum(x):
                self.ev.narrowed.add((self.item, self.operand_ty(o).s, ty.s))
            if isnum(x):
                q = x.a[0]
                return num(int(q) if q >= 0 else -int(-q))
            return fn("trunc", x)
        if kind.startswith("PointerCoercion") or kind in ("PtrToPtr", "Transmute", "Subtype"):
            return x
        return app("cast:" + kind, x)

    def binop(self, op, a, b, r):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        lt = self.operand_ty(r[2])
        isint = lt.k in ("int", "uint")
        if base == "Add":
            v = add(a, b)
        elif base == "Sub":
            v = sub(a, b)
            if lt.k == "uint" and op in ("Sub", "SubWithOverflow"):
                c = cmp("le", b, a)
                if c is not TRUE:
                    self.ev.assumes.append((self.guard0 + self.g, c, "+underflow", self.item.path))
        elif base == "Mul":
            v = mul(a, b)
        elif base == "Div":
            v = idiv(a, b) if isint else div(a, b)
        elif base == "Rem":
            v = irem(a, b) if isint else fn("fmod", a, b)
        elif base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if lt.k == "adt":
                pass
            v = cmpv(base.lower(), a, b)
        elif base == "BitAnd":
            v = and_(a, b) if lt.k == "bool" else fn("band", a, b)
        elif base == "BitOr":
            v = or_(a, b) if lt.k == "bool" else fn("bor", a, b)
        elif base == "BitXor":
            v = not_(cmp("eq", a, b)) if lt.k == "bool" else fn("bxor", a, b)
        elif base == "Cmp":
            v = ordering(a, b)
        else:
            v = fn("op:" + base, a, b)
        if op.endswith("WithOverflow"):
            return mk("agg", "tuple", 0, v, FALSE)
        return v


def cmpv(op, a, b):
    # comparisons against variant-index values
    if op in ("eq", "ne"):
        for x, y in ((a, b), (b, a)):
            if x.op == "dmap" and isnum(y):
                for i, v in enumerate(x.a[1]):
                    if v == y.a[0]:
                        d = x.a[0]
                        r = cmp("eq", d, num(i))
                        return r if op == "eq" else not_(r)
                return boolt(op == "ne")
            if x.op == "dmap" and y.op == "dmap" and x.a[1] == y.a[1]:
                r = cmp("eq", x.a[0], y.a[0])
                return r if op == "eq" else not_(r)
    return cmp(op, a, b)


def idiv(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if isnum(b) and b.a[0] == 1:
        return a
    return fn("idiv", a, b)


def irem(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return num(r if a.a[0] >= 0 else -r)
    return fn("irem", a, b)


def _fn_rebuild(name, *a):
    if name == "idiv":
        return idiv(*a)
    if name == "irem":
        return irem(*a)
    return mk("fn", name, *a)


TM._hooks["fn"] = _fn_rebuild


def mentions_cell(t, fid):
    for x in subterms(t):
        if x.op == "ref" and isinstance(x.a[0], tuple) and x.a[0][0] == fid:
            return True
    return False


def mentions_interior(v):
    return v.op not in ("var", "fld", "idx", "app", "ref")


def simplify_by(d, g):
    if d.op in ("num", "bool", "var"):
        return d
    return under(d, g)


class Diverges(Exception):
    pass

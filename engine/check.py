"""Check driver:  python3-vt engine/check.py <PROPERTY> [--tier quick|thorough] [--show]

Loads the MIR facts of /repo's current tree, runs the property's analysis
(checks/<id>.py: run(C)), writes evidence/<ID>.json and exits 0 / 1."""
import sys, os, json, time, threading, traceback, importlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, interp, norm, term
from term import *
from spec import *

VERIF = facts.VERIF


class Ob:
    __slots__ = ("name", "status", "where", "detail", "rule")

    def __init__(self, name, status, where, detail="", rule=""):
        self.name, self.status, self.where, self.detail, self.rule = name, status, where, detail, rule


class Stop(Exception):
    pass


# properties about user-sized quantities
WIDE = ("P01", "F01", "C01", "L01")
# too narrow for a count of anything outside the calendar
NARROW = ("u8", "i8", "u16", "i16")


class Check:
    def __init__(self, pid, tier, F):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.F = F
        self.S = S(F)
        self.obs = []
        self.fns = set()
        self.findings = []
        self.ran = {}
        self.dom = []       # further assumptions under which calls must not panic
        self.nopanic = True
        self.checked = set()
        self.notes = []
        self.assumptions = []
        self.ncalls = 0
        self.t0 = time.time()
        self.budget = float(os.environ.get("RQ_BUDGET", "2400" if self.thorough else "600"))
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.known = {k["key"]: k for k in kf["findings"] if k["property"] == pid}

    # ------------------------------------------------------------ anchors
    def one(self, items, what):
        items = list({i.did: i for i in items}.values())
        if len(items) == 1:
            return items[0]
        if not items:
            self.add(what, "missing", "", "no such function in the tree")
        else:
            self.add(what, "missing", "", "ambiguous: " + ", ".join(i.path for i in items[:4]))
        return None

    def method(self, ty, name, trait=None, crate=None):
        return self.one(self.F.method(ty, name, trait, crate), "%s::%s" % (ty, name))

    def free(self, name, mod=None):
        return self.one(self.F.free(name, mod), name)

    # --------------------------------------------------------- evaluation
    def ev(self, item, args=None, state=None, tyenv=None, name=None, **kw):
        """value-number `item`; None when the analysis cannot (recorded)"""
        if item is None:
            return None
        e = interp.Ev(self.F, **kw)
        # cell contents of the opaque &mut arguments
        st = interp.State()
        for k, v in (state or {}).items():
            st.m[mk("cell", k)] = v
        try:
            r = e.run(item, args, tyenv=tyenv, state=st)
        except interp.Diverges as x:
            self.add(name or item.path, "undecided", item.where(), "diverges: %s" % x)
            return None
        except (interp.GiveUp, RecursionError) as x:
            if os.environ.get("RQ_TB"):
                import traceback
                traceback.print_exc()
            self.add(name or item.path, "undecided", item.where(), "not value-numbered: %s" % (str(x)[:100] or type(x).__name__))
            return None
        self.fns.add(item.did)
        self.fns.update(getattr(e, "visited", ()))
        self.ncalls += e.steps
        r.unknown = e.unknown
        self._narrow(e)
        self.ran.setdefault(item.did, []).append(r)
        return r

    def _narrow(self, e):
        """values are carried in double precision and, where quantities of any
        size are meant, in 64-bit integers: a conversion that loses either is
        reported where it stands"""
        for it, src, dst in e.narrowed:
            if dst == "f32" and it.name != "position_weights" and "position_weights" not in it.did:
                self.add("%s keeps double precision" % it.path, "violated", it.where(), "converts %s to f32" % src, "no narrowing conversion")
            elif dst != "f32" and (self.pid in WIDE or dst in NARROW and self.pid[0] not in "TZ"):
                self.add("%s keeps 64-bit quantities" % it.path, "violated", it.where(), "converts %s to %s" % (src, dst), "no narrowing conversion")

    def closure(self, f, args):
        """value of a closure at the given arguments"""
        e = interp.Ev(self.F)
        try:
            r, _ = e.call_closure(f, list(args), interp.State())
        except (interp.Diverges, interp.GiveUp, RecursionError, AttributeError, KeyError):
            return None
        return r

    # -------------------------------------------------------- obligations
    def part(self, name, f, *a, **k):
        """one part of a check; a failure inside it does not stop the others"""
        self.dom, self.nopanic = [], True
        try:
            return f(self, *a, **k)
        except SpecError as e:
            self.add(name, "missing", "", str(e))
        except Exception as e:
            if os.environ.get("RQ_VERBOSE"):
                traceback.print_exc()
            self.add(name, "undecided", "", "analysis stopped: %s %s" % (type(e).__name__, str(e)[:200]))

    def add(self, name, status, where, detail="", rule=""):
        where = where.where() if hasattr(where, "where") else (where or "")
        self.obs.append(Ob(name, status, where, detail, rule))
        if os.environ.get("RQ_VERBOSE"):
            print("  %-10s %s  %s" % (status, name, detail[:300]), flush=True)

    def eq(self, name, got, want, item=None, assume=(), pos=None, ints=None, known=None, rule="value", free=(), **kw):
        """obligation: two terms denote the same value under the assumptions.
        known = {finding key: the wrong term accepted as that finding}"""
        where = item.where() if hasattr(item, "where") else (item or "")
        if time.time() - self.t0 > self.budget:
            self.add(name, "undecided", where, "time budget", rule)
            return None
        posf = pos if callable(pos) or pos is None else (lambda t, s=set(pos): t in s)
        intf = ints if callable(ints) or ints is None else (lambda t, s=set(ints): t in s)
        got, want = lift(got), lift(want)
        t0 = time.time()
        v = self._cmp(got, want, assume, posf, intf, kw)
        if os.environ.get("RQ_TIME") and time.time() - t0 > 1:
            print("%.1f s  %s" % (time.time() - t0, name))
        if v.kind == "unknown" and (got.op in BOOLS or want.op in BOOLS):
            v = self._cmp(If(got, 1, 0), If(want, 1, 0), assume, posf, intf, kw)
        if v.kind == "equal":
            bad = self._panics(got, want, item, assume, posf, intf, kw.get("sampler"))
            if bad:
                self.add(name, "violated", where, bad, "no panic in the domain")
                return False
            self.add(name, "ok", where, "%d leaves" % v.leaves, rule)
            return True
        if v.kind == "unknown":
            self.add(name, "undecided", where, v.note + " :: got " + show(got)[:500] + " want " + show(want)[:500], rule)
            return None
        for key, wrong in (known or {}).items():
            if key in self.known:
                w = self._cmp(got, wrong, assume, posf, intf, kw)
                if w.kind == "equal":
                    self.finding(key, name, where)
                    return False
        ag, aw = appset(got), appset(want)
        for f in free:
            aw = aw | appset(f)
        # an operation of one side that the other lacks may be related to what the
        # other does in a way unknown here; an operation of the requirement alone
        # that stands for a primitive cannot be avoided
        extra = ag - aw
        if extra and v.leaf and not any(x[0] == "#" or x.startswith("fn ") for x in extra):
            # an operation the value does not depend on explains nothing
            other = term.subst(got, {x: mk("app", x.a[0] + "'", *x.a[1:]) for x in subterms(got) if x.op == "app" and x.a[0] in extra})
            if self._cmp(got, other, assume, posf, intf, kw).kind == "equal":
                extra = set()
        if extra or any(x.startswith("fn:") or x.startswith("#") for x in aw - ag):
            self.add(name, "undecided", where, "different uninterpreted operations %s / %s" % (sorted(ag - aw)[:3], sorted(aw - ag)[:3]), rule)
            return None
        self.add(name, "violated", where, "computes %s, required %s; they differ on a path of the value graph: %s"
                 % (show(got)[:1500], show(want)[:1500], v.leaf.show() if v.leaf else ""), rule)
        return False

    def _panics(self, got, want, item, assume, pos, ints, sampler):
        """the call that computes got panics at a valuation of the domain at which
        the required value exists"""
        if not hasattr(item, "did") or not self.nopanic:
            return None
        import evalt
        for r in self.ran.get(item.did, ()):
            if not (r.ret is got or (isinstance(r.ret, T) and got.op != "num" and got in set(subterms(r.ret))) or (isinstance(r.ret, T) and r.ret in set(subterms(got)))):
                continue
            key = (id(r), tuple(assume))
            if key in self.checked:
                continue
            self.checked.add(key)
            cl = []
            for g, k, *why in r.assumes:
                c = spec_or([not_(x) for x in g], k)
                if c is not TRUE and not appset(c) and not evalt.Eval(0).fv(c):
                    if "+bounds" in str(why):
                        # sequences that belong together have one length
                        ls = [x for x in dict.fromkeys(subterms(c)) if x.op == "len" and x.hl == 0]
                        for x in ls[1:]:
                            c = spec_or([not_(cmp("eq", ls[0], x))], c)
                    cl.append((c, why))
            w = evalt.refuted([c for c, _ in cl], want, list(assume) + self.dom, pos, ints, sampler) if cl else None
            if w:
                why = [y for c, y in cl if c is w[0]][0]
                return "panics (%s) unless %s, which the domain does not imply" % (why, show(w[0])[:600])
        return None

    def _cmp(self, got, want, assume, pos, ints, kw):
        if got is want:
            return norm.Verdict("equal", None, 1, "")
        try:
            v = norm.compare(got, want, assume=list(assume), pos=pos, ints=ints, **kw)
            if v.kind != "equal":
                v = self._calendar(got, want, assume) or v
            if v.kind == "unknown":
                e = Ext(pos, ints, kw)
                if e.same(got, want, list(assume), 0):
                    return norm.Verdict("equal", None, e.n, "componentwise")
            return v
        except (RecursionError, OverflowError, MemoryError, norm.NeedSplit, norm.TooBig, ZeroDivisionError) as x:
            return norm.Verdict("unknown", None, 0, type(x).__name__)

    def equal(self, a, b):
        """the two terms denote one value (no obligation is recorded)"""
        return self._cmp(a, b, (), None, None, {}).kind == "equal"

    def over_days(self, name, got, want, base, item=None, rule="every day"):
        """obligation: the term, a function of one date, has the required value
        on every day of its domain (want: function of the days' parts)"""
        import caldom
        where = item.where() if hasattr(item, "where") else (item or "")
        try:
            d = caldom.differs(lift(got), want, lift(base))
        except caldom.Outside as e:
            self.add(name, "undecided", where, "outside the calendar domain: %s" % e, rule)
            return None
        if d is None:
            self.add(name, "ok", where, "every day 1901-2199", rule)
            return True
        self.add(name, "violated", where, "on %s it yields %s, required %s (%d days differ)" % d, rule)
        return False

    def over_ints(self, name, got, want, v, values, item=None, rule="every value of a finite range"):
        """obligation: the term, a function of the one integer v, has the required
        value (want: function of the integer) on every listed integer"""
        import evalt
        where = item.where() if hasattr(item, "where") else (item or "")
        got = lift(got)
        bad, n = None, 0
        for x in values:
            n += 1
            ev = evalt.Eval(0)
            try:
                r = ev.ev(TM.subst(got, {lift(v): num(x)}), {})
                r = r if isinstance(r, (bool, int)) else float(r)
            except evalt.Bad as e:
                r = "undefined (%s)" % e
            except (evalt.Undef, TypeError, ValueError) as e:
                self.add(name, "undecided", where, "not evaluated at %s: %s" % (x, e), rule)
                return None
            w = want(x)
            if r != w and not (isinstance(r, (int, float)) and isinstance(w, (int, float)) and not isinstance(w, bool) and abs(r - w) < 1e-9 * max(1, abs(w))):
                bad = (x, r, w)
                break
        if bad is None:
            self.add(name, "ok", where, "%d values" % n, rule)
            return True
        self.add(name, "violated", where, "at %s it yields %s, required %s" % bad, rule)
        return False

    def _calendar(self, got, want, assume):
        """functions of one date: compare over the calendar's finite domain"""
        import caldom
        a = TRUE
        for c in assume:
            a = and_(a, c)
        bs = set()
        for t in (got, want, a):
            bs |= caldom.bases(t)
        if len(bs) != 1:
            return None
        try:
            w = caldom.differs(ite(a, got, want), want, bs.pop())
        except (caldom.Outside, TypeError, ValueError, IndexError):
            return None
        if w is None:
            return norm.Verdict("equal", None, 1, "calendar")
        return norm.Verdict("diff", CalW(w), 1)

    def prove(self, name, cond, item=None, assume=(), known_key=None, **kw):
        """obligation: a boolean term is true under the assumptions"""
        r = self.eq(name, cond, TRUE, item, assume, **kw)
        return r

    def fact(self, name, ok, item=None, detail="", rule="structure", known_key=None):
        where = item.where() if hasattr(item, "where") else (item or "")
        if ok is None:
            self.add(name, "undecided", where, detail, rule)
        elif ok:
            self.add(name, "ok", where, detail, rule)
        elif known_key and known_key in self.known:
            self.finding(known_key, name, where)
        else:
            self.add(name, "violated", where, detail, rule)
        return ok

    def defined(self, name, t, item=None, assume=(), **kw):
        """obligation: no real power/logarithm inside t is taken outside its
        domain on the assumptions (path conditions of t included)"""
        seen = set()
        out = []

        def walk(t, g):
            if (t, g) in seen or t.hl:
                return
            seen.add((t, g))
            if t.op == "ite":
                walk(t.a[0], g)
                walk(t.a[1], g + (t.a[0],))
                walk(t.a[2], g + (not_(t.a[0]),))
                return
            if t.op == "pow" and not (isnum(t.a[1]) and t.a[1].a[0].denominator == 1):
                if not isnum(t.a[0]) and isnum(t.a[1]):
                    out.append((g, cmp("le", ZERO, t.a[0])))
            if t.op == "fn" and t.a[0] == "ln" and not isnum(t.a[1]):
                out.append((g, cmp("lt", ZERO, t.a[1])))
            for x in t.a:
                if isinstance(x, T):
                    walk(x, g)
        walk(t, ())
        for g, c in out:
            self.eq(name + " defined", c, TRUE, item, list(assume) + list(g), rule="definedness", **kw)

    def undecided(self, name, item=None, detail=""):
        self.add(name, "undecided", item.where() if hasattr(item, "where") else (item or ""), detail)

    def finding(self, key, name, where):
        self.findings.append((key, name, where))
        self.add(name, "known", where, key)


BOOLS = ("bool", "cmp", "and", "or", "not", "exists")


class CalW:
    def __init__(self, w):
        self.w = w

    def show(self):
        return "on %s: %s vs %s (%d days of 1901-2199 differ)" % (self.w[0], self.w[1], self.w[2], self.w[3])


class Ext:
    """equality of structured values from equality of their components: vectors
    of equal length with equal elements, loops with equal bodies at every index,
    equal operations applied to equal operands"""

    def __init__(self, pos, ints, kw):
        self.pos, self.ints, self.kw = pos, ints, {k: v for k, v in kw.items() if k not in ("witness", "sampler")}
        self.n = 0
        self.idx = set()
        self.end = time.time() + 20

    def same(self, a, b, assume, d):
        if a is b:
            return True
        if d > 30 or time.time() > self.end or not isinstance(a, T) or not isinstance(b, T):
            return False
        if self.leaf(a, b, assume):
            return True
        a, b = expand_reads(a), expand_reads(b)
        if a.op != b.op:
            return self.leaf(a, b, assume)
        if a.op == "seq":
            if not self.same(a.a[0], b.a[0], assume, d + 1):
                return False
            j = self.index()
            return self.same(TM.apply(a.a[1], j), TM.apply(b.a[1], j), assume + self.bounds(j, a.a[0]), d + 1)
        if len(a.a) != len(b.a):
            return self.leaf(a, b, assume)
        if a.op == "lam":
            j = TM.fresh("any")
            return self.same(TM.apply(a, j), TM.apply(b, j), assume, d + 1)
        if a.op in ("rec", "SUM", "PROD", "SMAX", "SMIN"):
            if not all(self.same(x, y, assume, d + 1) for i, (x, y) in enumerate(zip(a.a, b.a)) if i != 1):
                return False
            x, y = a.a[1], b.a[1]
            for _ in a.a[2:] if a.op == "rec" else ():
                v = TM.fresh("any")
                if x.op != "lam" or y.op != "lam":
                    return False
                x, y = TM.apply(x, v), TM.apply(y, v)
            if x.op != "lam" or y.op != "lam":
                return False
            j = self.index()
            return self.same(TM.apply(x, j), TM.apply(y, j), assume + self.bounds(j, a.a[0]), d + 1)
        if a.op in ("num", "var", "bv", "bvc", "cmp", "not", "and", "or"):
            return self.leaf(a, b, assume)
        if all((x is y or x == y) if not isinstance(x, T) else self.same(x, y, assume, d + 1) for x, y in zip(a.a, b.a)):
            return True
        return self.leaf(a, b, assume)

    def index(self):
        j = TM.fresh("ix")
        self.idx.add(j)
        return j

    def bounds(self, j, n):
        r = [cmp("le", num(0), j)]
        if not (n.op == "const"):
            r.append(cmp("lt", j, n))
        return r

    def leaf(self, a, b, assume):
        self.n += 1
        ints = lambda t: t in self.idx or (self.ints is not None and self.ints(t))
        try:
            return norm.compare(a, b, assume=assume, pos=self.pos, ints=ints, witness=False, **dict({"maxleaves": 400}, **self.kw)).kind == "equal"
        except (RecursionError, OverflowError, MemoryError, norm.NeedSplit, norm.TooBig, ZeroDivisionError):
            return False


def spec_or(xs, k):
    for x in reversed(xs):
        k = or_(x, k)
    return k


BITS = {"band", "bor", "bxor", "shl", "shr"}


def appset(t):
    """the uninterpreted operations of a term"""
    from evalt import NATIVE, NATIVE_FN
    out = set()
    for x in subterms(t):
        if x.op == "app" and isinstance(x.a[0], str):
            out.add(x.a[0])
        elif x.op not in NATIVE:
            out.add("#" + x.op)
        elif x.op == "fn" and x.a[0] not in NATIVE_FN and x.a[0] not in BITS:
            out.add("fn " + x.a[0])
    return out


def finish(C, mod, err=None):
    by = {}
    for o in C.obs:
        by.setdefault(o.status, []).append(o)
    if os.environ.get("RQ_FNS"):
        with open(os.environ["RQ_FNS"], "a") as f:
            f.writelines("%s %s\n" % (C.pid, d) for d in sorted(C.fns))
    viol = by.get("violated", [])
    miss = by.get("missing", [])
    wall = round(time.time() - C.t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rules = {}
    for o in C.obs:
        rules.setdefault(o.rule or "value", {}).setdefault(o.status, 0)
        rules[o.rule or "value"][o.status] += 1
    ev = {
        "property": C.pid, "tier": C.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip() if mod else "",
            "functions_value_numbered": len(C.fns),
            "calls_resolved": C.ncalls,
            "obligations": len(C.obs),
            "discharged": len(by.get("ok", [])),
            "undecided": len(by.get("undecided", [])),
            "known_findings_seen": len(by.get("known", [])),
            "by_rule": rules,
            "samples": [{"obligation": o.name, "at": o.where, "status": o.status} for o in C.obs[:: max(1, len(C.obs) // 12)]][:14],
            "undecided_list": [{"obligation": o.name, "at": o.where, "why": o.detail[:200]} for o in by.get("undecided", [])][:60],
            "facts_digest": os.path.basename(C.F.dir),
            "notes": C.notes,
        },
        "assumptions": C.assumptions + [
            "rustc's MIR for the checked build is what the compiled library does; float operations are read as real arithmetic",
            "the std/third-party model table (engine/models.py) describes the called library functions"],
        "wall_s": wall, "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", C.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, name, where in C.findings:
        print("KNOWN-FINDING: property=%s %s (%s at %s)" % (C.pid, C.known[key]["what"], name, where))
    print("%s: %d obligations, %d discharged, %d undecided, %d known, %d violated, %d missing anchors (%.1f s)" % (
        C.pid, len(C.obs), len(by.get("ok", [])), len(by.get("undecided", [])), len(by.get("known", [])), len(viol), len(miss), wall))
    for o in by.get("undecided", [])[:40]:
        print("  undecided: %s [%s] %s" % (o.name, o.where, o.detail[:160]))
    if viol:
        rp = os.path.join(VERIF, "evidence", C.pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in viol:
                f.write("property %s\nobligation %s\nrule %s\nat %s\n%s\n\n" % (C.pid, o.name, o.rule, o.where, o.detail))
        for o in viol[:20]:
            print("  broken: %s [%s] %s" % (o.name, o.where, o.detail[:700]))
        print("VIOLATION property=%s replay=%s" % (C.pid, rp))
        return 1
    rp = os.path.join(VERIF, "evidence", C.pid + ".violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    floor = max(1, getattr(mod, "FLOOR", 1) // 3)
    if len(by.get("ok", [])) < floor:
        print("ANALYSIS-ERROR: only %d obligations discharged (floor %d): the analysis no longer finds its subject" % (len(by.get("ok", [])), floor))
        for o in miss[:20]:
            print("  missing: %s %s" % (o.name, o.detail))
        return 3
    for o in miss[:20]:
        print("  missing: %s %s" % (o.name, o.detail))
    return 0


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        F = facts.load()
    except facts.FactError as e:
        print("ANALYSIS-ERROR: %s" % e)
        return 3

    def namer(kind, v, i):
        a = F.adts.get(kind)
        if a and v < len(a["variants"]) and i < len(a["variants"][v]["fields"]):
            vn = a["variants"][v]["name"]
            return (vn + "." if len(a["variants"]) > 1 else "") + a["variants"][v]["fields"][i][0]
        return str(i)
    term.set_field_namer(namer)
    C = Check(pid, tier, F)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(C)
    except SpecError as e:
        C.add("spec", "missing", "", str(e))
    except Exception as e:
        traceback.print_exc()
        C.add("analysis", "undecided", "", "analysis stopped: %s %s" % (type(e).__name__, str(e)[:200]))
    return finish(C, mod)


if __name__ == "__main__":
    threading.stack_size(1024 * 1024 * 1024)
    rc = [3]

    def go():
        try:
            rc[0] = main()
        except Exception:
            traceback.print_exc()
            rc[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])

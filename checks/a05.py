"""No operation borrows a tape that is already borrowed: a dataflow analysis over
the MIR of every function tracks which borrow guards are live at each program
point; a call that (transitively, closures included) borrows a cell of the same
kind which may be the same one is a violation.  Covers every interior-mutability
cell and lock of the workspace."""
from spec import *

FLOOR = 60

# method of the cell: (kind of access, returns a guard)
ACCESS = {
    ("core::cell::RefCell", "borrow"): ("r", True), ("core::cell::RefCell", "borrow_mut"): ("w", True),
    ("core::cell::RefCell", "replace"): ("w", False), ("core::cell::RefCell", "replace_with"): ("w", False),
    ("core::cell::RefCell", "swap"): ("w", False), ("core::cell::RefCell", "take"): ("w", False),
    ("core::cell::RefCell", "clone"): ("r", False), ("core::cell::RefCell", "eq"): ("r", False),
    ("core::cell::RefCell", "partial_cmp"): ("r", False), ("core::cell::RefCell", "cmp"): ("r", False),
    ("std::sync::poison::mutex::Mutex", "lock"): ("w", True),
    ("std::sync::poison::rwlock::RwLock", "read"): ("r", True), ("std::sync::poison::rwlock::RwLock", "write"): ("w", True),
}
GUARD = {"core::cell::Ref": "r", "core::cell::RefMut": "w", "std::sync::poison::mutex::MutexGuard": "w",
         "std::sync::poison::rwlock::RwLockReadGuard": "r", "std::sync::poison::rwlock::RwLockWriteGuard": "w"}
CELL = tuple(sorted({c for c, _ in ACCESS}))


def tys(t, seen=None):
    """every type inside t"""
    seen = set() if seen is None else seen
    if id(t) in seen:
        return
    seen.add(id(t))
    yield t
    if t.k in ("ref", "ptr") or "t" in t.d:
        yield from tys(t.inner, seen)
    for a in t.args:
        yield from tys(a, seen)


class Fn:
    """one function's events: accesses of cells, with the guards live there"""

    def __init__(self, an, item):
        self.an, self.item = an, item
        self.vague = set()          # calls that may go to any of several functions
        d = item.d
        self.blocks = d["blocks"]
        n = len(d["locals"])
        self.guard = {}             # local -> kind, for locals that hold a guard
        self.fresh = set()          # locals that own a cell created here
        argc = d["argc"]
        for i in range(n):
            t = item.lty(i)
            if t.k in ("ref", "ptr"):
                continue
            for x in tys(t):
                if x.did in GUARD:
                    self.guard[i] = max(self.guard.get(i, "r"), GUARD[x.did])
            if i > argc or i == 0:
                if an.owns(t):
                    self.fresh.add(i)
        # a reference local that points into one owned local
        self.points = {}
        for b in self.blocks:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    src = self.root(s[2])
                    self.points.setdefault(s[1][0], set()).add(src)
            t = b["t"]
            if t[0] == "call" and not t[3][1]:
                self.points.setdefault(t[3][0], set()).add(None)

    def root(self, rv):
        if rv[0] == "ref":
            l, pr = rv[2]
            if any(p[0] == "*" for p in pr):
                return ("via", l)
            return ("own", l)
        if rv[0] == "use" and rv[1][0] in ("m", "c") and not rv[1][1][1]:
            return ("via", rv[1][1][0])
        return None

    def origin(self, op, depth=0):
        """the owned local an operand refers to, or None when it may be any"""
        if op[0] not in ("m", "c") or any(p[0] == "*" for p in op[1][1]):
            return None
        return self._origin(op[1][0], 0)

    def _origin(self, l, depth):
        if depth > 8:
            return None
        src = self.points.get(l, set())
        if len(src) != 1:
            return None
        s = next(iter(src))
        if s is None:
            return None
        if s[0] == "own":
            return s[1] if s[1] in self.fresh else None
        return self._origin(s[1], depth + 1)

    def accesses(self, t):
        """the accesses a call may make: (kind, cell type, origin local or None, is it a direct borrow)"""
        f = t[1]
        rec = f[1]["v"]["fn"] if f[0] == "k" and isinstance(f[1].get("v"), dict) and "fn" in f[1]["v"] else None
        out = []
        args = t[2]
        if rec is not None:
            self_ty = rec.get("rself_ty", rec.get("self_ty"))
            st = self.item.crate.types[self_ty] if isinstance(self_ty, int) else None
            nm = rec["name"]
            if st is not None and (st.strip().did, nm) in ACCESS:
                kind, _ = ACCESS[(st.strip().did, nm)]
                ta = rec.get("targs") or []
                inner = self.item.crate.types[ta[0]].s if ta else st.strip().args[0].s if st.strip().args else "?"
                for a in args if nm in ("swap", "eq", "partial_cmp", "cmp") else args[:1]:
                    out.append((kind, inner, self.origin(a)))
                return out
            did = rec.get("rdid", rec["did"])
            ts = self.an.targets(rec, did)
            if len(ts) > 1:
                self.vague.add(id(t))
            for callee in ts:
                for kind, inner, i in self.an.summary(callee):
                    o = self.origin(args[i]) if i is not None and i < len(args) else None
                    out.append((kind, inner, o))
        for a in args:
            for c in self.an.closures(self.optype(a)):
                for kind, inner, i in self.an.summary(c):
                    out.append((kind, inner, None))
        return out

    def optype(self, op):
        if op[0] in ("m", "c") and not op[1][1]:
            return self.item.lty(op[1][0])
        if op[0] == "k":
            return self.item.crate.types[op[1]["ty"]]
        return None

    def run(self):
        """(call block, access, guards live there)"""
        live = {0: frozenset()}
        work = [0]
        ev = {}
        while work:
            i = work.pop()
            b = self.blocks[i]
            if b.get("cleanup"):
                continue
            st = {g: v for g, v in live[i]}
            for s in b["s"]:
                self.moves(s[2] if s[0] == "=" else None, st, s[1] if s[0] == "=" else None)
                if s[0] == "dead" and s[1] in st:
                    del st[s[1]]
            t = b["t"]
            k = t[0]
            nxt = []
            if k == "call":
                moved = [a[1][0] for a in t[2] if a[0] == "m" and not a[1][1]]
                acc = self.accesses(t)
                ev[i] = (b["l"], acc, dict(st), t)
                src = None
                for m in moved:
                    if m in st:
                        src = st.pop(m)
                d = t[3][0]
                if not t[3][1] and d in self.guard:
                    if acc:
                        st[d] = (self.guard[d], acc[0][1], acc[0][2], b["l"])
                    elif src:
                        st[d] = (self.guard[d],) + src[1:]
                    # a guard obtained in a way not recognised is not tracked
                nxt = [t[4]] if len(t) > 4 and t[4] is not None else []
            elif k == "drop":
                if not t[1][1]:
                    st.pop(t[1][0], None)
                nxt = [t[2]]
            elif k == "switch":
                nxt = [x[1] for x in t[2]] + [t[3]]
            elif k == "goto":
                nxt = [t[1]]
            elif k == "assert":
                nxt = [x for x in t[1:] if isinstance(x, int)][-1:]
            for x in nxt:
                if x is None:
                    continue
                new = frozenset(st.items()) | live.get(x, frozenset())
                if x not in live or new != live[x]:
                    live[x] = new
                    work.append(x)
        return ev

    def moves(self, rv, st, dest):
        """a guard moved into another local"""
        if rv is None:
            return
        for l in operands(rv):
            if l in st:
                v = st.pop(l)
                if dest is not None and not dest[1] and dest[0] in self.guard:
                    st[dest[0]] = v


def operands(rv):
    """locals moved whole out of an rvalue"""
    out = []

    def go(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == "m" and isinstance(x[1], (list, tuple)) and len(x[1]) == 2 and x[1][1] == []:
                out.append(x[1][0])
            else:
                for y in x:
                    go(y)
    go(rv)
    return out


class Analysis:
    def __init__(self, F):
        self.F = F
        self.sum = {}
        self.fns = {}
        self.own = {}

    def owns(self, t):
        """the type holds a cell by value"""
        key = (t.crate.name if hasattr(t.crate, "name") else id(t.crate), t.s)
        if key in self.own:
            return self.own[key]
        self.own[key] = False
        r = t.k == "adt" and t.did in CELL
        a = self.F.adts.get(t.did) if not r and t.k == "adt" else None
        for v in a["variants"] if a else ():
            for f in v["fields"]:
                if f[1] is not None and self.owns(a["crate"].types[f[1]]):
                    r = True
        self.own[key] = r
        return r

    def targets(self, rec, did):
        it = self.F.items.get(did)
        if it is not None and not (it.in_trait and rec.get("trait") and "rdid" not in rec):
            return [it]
        if rec.get("trait") and ("rdid" not in rec or it is None and did == rec["did"]):
            nm = rec["name"]
            return [m for st, m, im in self.F.trait_impls.get(rec["did"], ())]
        return []

    def closures(self, t):
        if t is None:
            return []
        out = []
        for x in tys(t):
            if x.k == "closure" and x.did in self.F.items:
                out.append(self.F.items[x.did])
        return out

    def fn(self, item):
        if item.did not in self.fns:
            self.fns[item.did] = Fn(self, item)
        return self.fns[item.did]

    def summary(self, item):
        """(kind, cell type, parameter number whose cell it is, or None)"""
        if item.did in self.sum:
            return self.sum[item.did]
        self.sum[item.did] = set()
        if not item.d.get("blocks"):
            return self.sum[item.did]
        f = self.fn(item)
        out = set()
        for b in f.blocks:
            if b.get("cleanup"):
                continue
            if b["t"][0] == "call":
                for kind, inner, o in f.accesses(b["t"]):
                    if o is None:           # a cell created here is nobody else's
                        out.add((kind, inner, self.param(f, b["t"])))
        self.sum[item.did] = out
        return out

    def param(self, f, t):
        """the parameter whose cell the call's receiver is, when it is read off directly"""
        if not t[2] or t[2][0][0] not in ("m", "c"):
            return None
        l = t[2][0][1][0]
        for _ in range(8):
            if 1 <= l <= f.item.d["argc"]:
                return l - 1
            src = f.points.get(l, set())
            if len(src) != 1 or next(iter(src)) is None:
                return None
            l = next(iter(src))[1]
        return None


def run(C):
    an = Analysis(C.F)
    C.part("borrows", borrows, an)


def borrows(C, an):
    # summaries to a fixed point (recursion): a second round sees the first
    for _ in range(2):
        an.sum = {}
        for it in C.F.items.values():
            if it.d.get("blocks"):
                an.summary(it)
    import term
    for it in sorted(C.F.items.values(), key=lambda x: (x.file or "", x.line or 0)):
        if not it.d.get("blocks"):
            continue
        f = an.fn(it)
        sites, bad, vague = 0, [], []
        same = any(b["t"][0] == "call" and "ptr::eq" in str(b["t"][1]) for b in f.blocks)
        for i, (line, acc, st, t) in sorted(f.run().items()):
            sites += bool(acc)
            for kind, inner, o in acc:
                for g, (gk, gi, go, gl) in st.items():
                    if gi == inner and "w" in (kind, gk) and not ((o is not None or go is not None) and o != go):
                        w = "line %s borrows a %s%s while the borrow of line %s is still held: this panics" % (line, inner, " to write" if kind == "w" else "", gl)
                        (vague if same or id(t) in f.vague else bad).append(w)
        if sites:
            C.add("%s holds no borrow across another of the same cell" % it.path, "violated" if bad else "undecided" if vague else "ok", it.where(),
                  "; ".join(dict.fromkeys(bad or vague)) or "%d borrowing calls" % sites, "borrow typestate")

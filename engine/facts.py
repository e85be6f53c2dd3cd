"""Fact base: builds the rustc driver, runs it over /repo's current working
tree (cargo check, all workspace crates) and loads the resulting MIR facts.

The facts are keyed by a digest of every source/manifest file of the tree and
of the driver, so a run always describes the tree as it is now."""
import hashlib, json, os, re, subprocess, sys, time, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RQ_REPO", "/repo")
CACHE = os.path.join(VERIF, "target")


class FactError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WRAPPER",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def _files():
    out = []
    for base in ("crates", "bindings", "examples"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = [x for x in ds if x not in ("target", ".git", ".venv")]
            for f in fs:
                if f.endswith((".rs", ".toml")) or f == "build.rs":
                    out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def digest():
    h = hashlib.sha256()
    for p in _files() + [os.path.join(VERIF, "driver/src/main.rs")]:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise FactError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    _run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "driver"), env=env)
    return os.path.join(CACHE, "driver", "debug", "rqfacts")


def build(force=False):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest()
        out = os.path.join(CACHE, "facts", key)
        if os.path.exists(os.path.join(out, "DONE")) and not force:
            return out
        drv = build_driver()
        env = _env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env,
                                 stdout=subprocess.PIPE, text=True).stdout.strip()
        tmp = out + ".tmp%d" % os.getpid()
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["RQ_FACTS_DIR"] = tmp
        env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "check")
        # cargo's freshness cache would skip the wrapper for crates it thinks
        # are up to date: drop the workspace members' fingerprints first.
        chk = os.path.join(CACHE, "check", "debug")
        for sub in (".fingerprint", "build", "incremental", "deps"):
            d = os.path.join(chk, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if re.match(r"(lib)?(RustQuant|rustquant|bindings|examples)", n):
                        p = os.path.join(d, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        _run(["cargo", "+nightly", "check", "--offline", "--workspace", "--lib"], cwd=REPO, env=env)
        n = [f for f in os.listdir(tmp) if f.endswith(".json")]
        if len(n) < 15:
            raise FactError("only %d crates produced facts: %s" % (len(n), n))
        open(os.path.join(tmp, "DONE"), "w").write(key)
        fd = os.path.dirname(out)
        # keep only the newest few fact sets
        olds = sorted((os.path.join(fd, x) for x in os.listdir(fd) if ".tmp" not in x), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        return out


class Ty:
    __slots__ = ("s", "k", "d", "did", "crate")

    def __init__(self, crate, d):
        self.crate = crate
        self.d = d
        self.s = d["s"]
        self.k = d["k"]
        self.did = d.get("did")

    @property
    def inner(self):
        return self.crate.types[self.d["t"]]

    @property
    def args(self):
        return [self.crate.types[i] for i in self.d.get("args", [])]

    def strip(self):
        t = self
        while t.k in ("ref", "ptr"):
            t = t.inner
        return t


class Item:
    def __init__(self, crate, d):
        self.crate = crate
        self.d = d
        self.did = d["did"]
        self.path = d["path"]
        self.kind = d["kind"]
        self.name = d["name"]
        self.file = d["file"]
        self.line = d["line"]
        self.trait = d.get("trait")
        self.in_trait = d.get("in_trait")
        self.self_ty = crate.types[d["self_ty"]] if "self_ty" in d else None
        self.parent = d.get("parent")
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.cfg = None

    def ty(self, i):
        return self.crate.types[i]

    def lty(self, local):
        return self.crate.types[self.locals[local]]

    @property
    def trait_args(self):
        return [self.crate.types[i] for i in self.d.get("trait_args", [])]

    def argname(self, i):
        for n, p in self.d["names"]:
            if p[0] == i and not p[1]:
                return n
        return "arg%d" % i

    @property
    def ret(self):
        return self.lty(0)

    def where(self):
        return "%s:%d %s" % (self.file, self.line, self.path)

    @property
    def public(self):
        return self.d.get("vis") == "Public"

    def __repr__(self):
        return "<%s>" % self.path


class Sub:
    """a promoted body of an item"""
    def __init__(self, parent, d, i):
        self.crate = parent.crate
        self.d = d
        self.did = parent.did + "#p%d" % i
        self.path = parent.path + "#promoted"
        self.kind = "promoted"
        self.name = ""
        self.file, self.line = parent.file, parent.line
        self.trait = self.self_ty = self.parent = self.in_trait = None
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self.cfg = None
    ty = Item.ty
    lty = Item.lty
    ret = Item.ret


class Crate:
    def __init__(self, d):
        self.name = d["crate"]
        self.types = []
        self.types.extend(Ty(self, t) for t in d["types"])
        self.items = [Item(self, i) for i in d["items"]]
        self.adts = {a["did"]: a for a in d["adts"]}
        self.impls = d["impls"]


class Facts:
    def __init__(self, path=None):
        t0 = time.time()
        self.dir = path or build()
        self.crates = {}
        self.items = {}
        self.adts = {}
        self.by_path = {}
        self.promoted = {}
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith(".json"):
                continue
            c = Crate(json.load(open(os.path.join(self.dir, f))))
            self.crates[f[:-5]] = c
            for i in c.items:
                self.items[i.did] = i
                self.by_path.setdefault(i.path, []).append(i)
            for k, a in c.adts.items():
                if k not in self.adts or a["local"]:
                    self.adts[k] = a
                    a["crate"] = c
        import term
        term.set_enum_sizes(lambda d: len(self.adts[d]["variants"]) if d in self.adts and len(self.adts[d]["variants"]) > 1 else
                            2 if d == "core::option::Option" else 0)
        # trait method did -> {self type string: impl item}
        self.trait_impls = {}
        for c in self.crates.values():
            for im in c.impls:
                st = c.types[im["self_ty"]]
                for name, did, tdid in im["items"]:
                    if tdid and did in self.items:
                        self.trait_impls.setdefault(tdid, []).append((st, self.items[did], im))
        self.load_s = time.time() - t0

    def fns(self, pred=None):
        return [i for i in self.items.values() if i.kind == "fn" and (pred is None or pred(i))]

    def method(self, ty, name, trait=None, crate=None):
        """methods called `name` on self type whose path ends in `ty`"""
        out = []
        for i in self.items.values():
            if i.kind == "fn" and i.name == name and i.self_ty is not None:
                s = re.sub(r"<.*>$", "", i.self_ty.s)
                if (s == ty or s.endswith("::" + ty)) and (trait is None or (i.trait or "").endswith(trait)) \
                        and (crate is None or i.did.startswith(crate)):
                    out.append(i)
        if trait is None and any(not i.trait for i in out):
            out = [i for i in out if not i.trait]       # an inherent method wins, as in Rust
        return out

    def free(self, name, mod=None):
        return [i for i in self.items.values()
                if i.kind == "fn" and i.name == name and i.self_ty is None and i.in_trait is None
                and (mod is None or mod in i.did)]

    def promoted_of(self, item, n):
        k = (item.did, n)
        if k not in self.promoted:
            self.promoted[k] = Sub(item, item.d["promoted"][n], n)
        return self.promoted[k]


_F = None


def load():
    global _F
    if _F is None:
        _F = Facts()
    return _F


if __name__ == "__main__":
    t = time.time()
    print(build("--force" in sys.argv), round(time.time() - t, 1))

"""Mutation survey of the checks (development tool, not a check).

  python3-vt tools/mutate.py COPY SEED CHECKS FILE...

COPY is a scratch copy of the repository.  One small random mutation is planted
in every function of the FILEs at once, the facts are rebuilt, and every CHECK
(comma separated) is run.  Functions whose own obligations are not violated
are then tried alone.  Prints one line per mutant: violated / undecided / quiet."""
import sys, os, re, random, subprocess, json, importlib, threading, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY, SEED, CHECKS, FILES = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(","), sys.argv[4:]
os.environ["RQ_REPO"] = COPY
os.environ["RQ_BUDGET"] = "300"
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(1000000)


def blank(src):
    """comments, strings and attributes replaced by spaces"""
    out = list(src)

    def wipe(m):
        for i in range(m.start(), m.end()):
            if out[i] != "\n":
                out[i] = " "
    for rx in (r"//[^\n]*", r"/\*.*?\*/", r'"(?:\\.|[^"\\])*"', r"'(?:\\.|[^'\\])'", r"#!?\[[^\]]*\]"):
        s = "".join(out)
        for m in re.finditer(rx, s, re.S):
            wipe(m)
    return "".join(out)


def match(s, i):
    d = 0
    for k in range(i, len(s)):
        if s[k] == "{":
            d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0:
                return k
    return len(s)


def functions(src):
    b = blank(src)
    cut = []
    for m in re.finditer(r"\bmod\s+\w*test\w*\s*\{", b):
        cut.append((m.start(), match(b, m.end() - 1)))
    for m in re.finditer(r"#\[(cfg\(test\)|test)\]", src):
        j = b.find("{", m.end())
        if j > 0:
            cut.append((m.start(), match(b, j)))
    fs = []
    for m in re.finditer(r"\bfn\s+(\w+)", b):
        if any(x <= m.start() < y for x, y in cut):
            continue
        j = b.find("{", m.end())
        k = b.find(";", m.end())
        if j < 0 or (0 <= k < j):
            continue
        fs.append((m.group(1), j, match(b, j)))
    return b, fs


RULES = [
    (r"(?<=[\w\)\]] )\+(?= )", ["-"]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"(?<=[\w\)\]] )\*(?= )", ["/"]), (r"(?<=[\w\)\]] )/(?= )", ["*"]),
    (r"(?<= )<(?= )", ["<=", ">"]), (r"(?<= )<=(?= )", ["<"]), (r"(?<= )>(?= )", [">=", "<"]), (r"(?<= )>=(?= )", [">"]),
    (r"(?<= )==(?= )", ["!="]), (r"(?<= )!=(?= )", ["=="]), (r"(?<= )&&(?= )", ["||"]), (r"(?<= )\|\|(?= )", ["&&"]),
    (r"(?<=[\(= ,])-(?=[\w\(])", [""]), (r"(?<=[\( ])!(?=[\w\(])", [""]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"\.exp\(\)", [".ln()"]), (r"\.sqrt\(\)", [""]), (r"\.abs\(\)", [""]), (r"\.powi\(2\)", [".powi(3)"]),
    (r"\.sum\b", [".product"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [".skip(0)"]), (r"\.\.=", [".."]),
    (r"\b(\d+)\.0\b", ["N"]), (r"(?<![\w\.])(\d+)(?![\w\.])", ["N"]), (r"\b(\d+\.\d*[1-9])\b", ["N2"]),
]


def sites(b, j, k):
    out = []
    for rx, reps in RULES:
        for m in re.finditer(rx, b[j:k]):
            for r in reps:
                t = m.group(0)
                if r == "N":
                    r = t.replace(m.group(1), str(int(m.group(1)) + 1))
                elif r == "N2":
                    r = t + "1"
                out.append((j + m.start(), j + m.end(), r))
    return out


def line(src, p):
    return src.count("\n", 0, p) + 1


def main():
    rnd = random.Random(SEED)
    muts = []
    orig = {}
    for f in FILES:
        p = os.path.join(COPY, f)
        src = orig[f] = open(p).read()
        b, fs = functions(src)
        for name, j, k in fs:
            inner = [(x, y) for n, x, y in fs if j < x and y < k]
            ss = [s for s in sites(b, j, k) if not any(x <= s[0] < y for x, y in inner)]
            if ss:
                s = rnd.choice(ss)
                l = line(src, s[0])
                muts.append(dict(f=f, fn=name, s=s, line=l, lo=line(src, j), hi=line(src, k), show="%s -> %s   | %s" % (src[s[0]:s[1]], s[2], src.split("\n")[l - 1].strip()[:110])))
    print(len(muts), "mutants", flush=True)

    def apply(ms):
        for f in orig:
            src = orig[f]
            for m in sorted((m for m in ms if m["f"] == f), key=lambda m: -m["s"][0]):
                src = src[:m["s"][0]] + m["s"][2] + src[m["s"][1]:]
            with open(os.path.join(COPY, f), "w") as h:
                h.write(src)

    import facts, check, term, norm

    def compile(ms):
        ms = list(ms)
        for _ in range(12):
            apply(ms)
            try:
                facts.build()
                return ms
            except facts.FactError as e:
                bad = set()
                cur = None
                for l in str(e).split("\n"):
                    if re.match(r"(error|warning)", l):
                        cur = l.startswith("error")
                    x = re.search(r"--> (\S+?):(\d+):", l)
                    if x and cur:
                        for i, m in enumerate(ms):
                            if m["f"].endswith(x.group(1)) or x.group(1).endswith(m["f"]):
                                if m["lo"] <= int(x.group(2)) <= m["hi"]:
                                    bad.add(i)
                if not bad:
                    print(str(e)[-3000:])
                    raise
                for i in bad:
                    ms[i]["st"] = "nocompile"
                ms = [m for i, m in enumerate(ms) if i not in bad]
        raise SystemExit("does not compile")

    def run():
        facts._F = None
        F = facts.load()

        def namer(kind, v, i):
            a = F.adts.get(kind)
            if a and v < len(a["variants"]) and i < len(a["variants"][v]["fields"]):
                return a["variants"][v]["fields"][i][0]
            return str(i)
        term.set_field_namer(namer)
        obs = []
        for c in CHECKS:
            C = check.Check(c.upper(), "quick", F)
            mod = importlib.import_module(c)
            try:
                mod.run(C)
            except Exception as e:
                C.add("analysis", "undecided", "", "%s %s" % (type(e).__name__, str(e)[:100]))
            obs += C.obs
        return obs

    def attribute(ms, obs):
        for m in ms:
            st = set()
            for o in obs:
                x = re.match(r"(\S+?):(\d+) ", o.where or "")
                if x and x.group(1).endswith(m["f"].split("/", 1)[-1]) and m["lo"] - 6 <= int(x.group(2)) <= m["lo"] + 1:
                    st.add(o.status)
            m["st"] = "violated" if "violated" in st else "undecided" if "undecided" in st else "own-ok" if "ok" in st else "none"

    if os.environ.get("MUT_BASE"):
        apply([])
        facts.build()
        base = [o for o in run() if o.status != "ok"]
        print("base:", [(o.status, o.name) for o in base][:20])
    live = compile(muts)
    obs = run()
    attribute(live, obs)
    base_und = None
    for m in live:
        if m["st"] == "violated" or os.environ.get("MUT_FAST"):
            continue
        one = compile([m])
        if not one:
            continue
        obs = run()
        v = [o for o in obs if o.status == "violated"]
        u = [o for o in obs if o.status in ("undecided", "missing")]
        m["st"] = "violated*" if v else "undecided" if len(u) > NU else "quiet"
        m["by"] = (v or u)[0].name if (v or (u and m["st"] == "undecided")) else ""
        m["why"] = u[0].detail[:160] if m["st"] == "undecided" else ""
        print(". %-10s %s:%d %s  %s  %s %s" % (m["st"], m["f"].split("/")[-1], m["line"], m["fn"], m["show"], m["by"], m["why"]), flush=True)
    apply([])
    n = {}
    for m in muts:
        n[m["st"]] = n.get(m["st"], 0) + 1
        if not m["st"].startswith(("violated", "nocomp")):
            print("%-10s %s:%d %s  %s  %s %s" % (m["st"], m["f"].split("/")[-1], m["line"], m["fn"], m["show"], m.get("by", ""), m.get("why", "")), flush=True)
    print(n)


import faulthandler, signal
faulthandler.register(signal.SIGUSR1, all_threads=True)
NU = int(os.environ.get("MUT_NU", "0"))
threading.stack_size(1 << 30)


def go():
    try:
        main()
    finally:
        sys.stdout.flush()
    os._exit(0)


t = threading.Thread(target=go)
t.start()
t.join()

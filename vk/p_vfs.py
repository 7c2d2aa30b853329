"""F01-F03: the virtual file system."""
from vk.core import *

B = lambda s: list(s.encode("latin1"))
POL = ["none", "all", "newer", "older"]
CONST = "CONSTANTS TZ=%d NOW=2000000000\n"
STEMS = ["a", "b", "file.tex", "a_b", "x^1", "foo", "fo", "Foo[1]", "_work", "data", "z", "\xe4\xd6", "a b", "a.b"]


def spell(rng, s):
    s = "".join(c.upper() if rng.random() < .4 else c.lower() for c in s) if s.isascii() else s
    if rng.random() < .15:
        s += rng.choice([" ", "  ", "\t", " \r\n"])
    return s


class Gen:
    """Random operations over a few names, biased towards paths that exist."""

    def __init__(self, rng, stems):
        self.rng, self.stems = rng, stems
        self.paths = [[]]

    def name(self):
        return spell(self.rng, self.rng.choice(self.stems))

    def path(self, extra=0, fancy=True):
        r = self.rng
        p = list(r.choice(self.paths)) if r.random() < .8 else []
        for _ in range(extra if r.random() < .8 else r.randint(0, 3)):
            p.append(r.choice(self.stems))
        parts = [spell(r, x) for x in p]
        s = "/".join(parts)
        if fancy and r.random() < .2:
            s = "/" + s
        if fancy and r.random() < .1:
            s = s.replace("/", "//", 1)
        return p, s

    def tree(self, depth, host=False, ts=(1, 2, 3, 4)):
        r = self.rng
        nm = self.name()
        if host:
            nm = nm.replace("\r", "").replace("\n", "")
        if depth == 0 or r.random() < .45:
            c = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 5]))]
            return {"k": "f", "nm": B(nm), "t": r.choice(ts), "c": c, "ch": []}
        return {"k": "d", "nm": B(nm), "t": r.choice(ts), "c": [], "ch": self.children(depth - 1, host, ts)}

    def children(self, depth, host=False, ts=(1, 2, 3, 4)):
        out, seen = [], set()
        for _ in range(self.rng.randint(0, 3)):
            n = self.tree(depth, host, ts)
            k = bytes(n["nm"]).decode("latin1").rstrip(" \t\r\n").lower()
            if k not in seen:
                seen.add(k)
                out.append(n)
        return out

    def note(self, prefix, n):
        p = prefix + [bytes(n["nm"]).decode("latin1").rstrip(" \t\r\n").lower()]
        self.paths.append(p)
        for c in n["ch"]:
            self.note(p, c)

    def op(self, kinds):
        r = self.rng
        k = r.choices(list(kinds), weights=list(kinds.values()))[0]
        if k == "mkdir":
            p, s = self.path(1)
            self.paths += [p[:i] for i in range(1, len(p) + 1)]
            return {"op": "mkdir", "path": B(s)}
        if k == "mount":
            p, s = self.path(0)
            t = self.tree(r.randint(0, 3))
            self.note(p, t)
            return {"op": "mount", "tree": t, "parent": B(s), "policy": r.choice(POL)}
        if k == "host":
            p, s = self.path(0)
            t = {"k": "d", "nm": B("h"), "t": 1, "c": [], "ch": self.children(2, True, (100, 200, 300))}
            if not any(c["k"] == "d" or c["c"] for c in t["ch"]):
                t["ch"] = [{"k": "f", "nm": B(r.choice(self.stems)), "t": r.choice([100, 2, 4]), "c": [1], "ch": []}]
            for c in t["ch"]:
                self.note(p, c)
            return {"op": "host", "tree": t, "parent": B(s), "policy": r.choice(POL)}
        if k == "remove":
            p, s = self.path(0 if r.random() < .8 else 1)
            if not p or s.rstrip(" \t\r\n").endswith("/"):
                return self.op(kinds)
            return {"op": "remove", "path": B(s)}
        if k == "resolve":
            p, s = self.path(0 if r.random() < .7 else 1)
            if r.random() < .1:
                s += "/"
            if r.random() < .05:
                s += "/ /x"
            return {"op": "resolve", "path": B(s)}
        if k == "find":
            return {"op": "find", "name": B(self.name())}
        if k == "disk":
            return {"op": "disk", "img": image(r, self.image_tree(2)), "via": r.choice(["file", "read"]), "policy": r.choice(POL)}
        if k == "save":
            return {"op": "save", "game": r.choice([1, 2]), "time": r.choice(TIMES)}
        raise KeyError(k)

    def image_tree(self, depth):
        ch = []
        while not ch:
            ch = [c for c in self.children(depth) if solid(c)]
        for c in ch:
            self.note([], c)
        return ch


TIMES = [315532800, 951782400 - 1, 951782400, 951868800, 1000000000, 1078012799, 1230767999, 1230768000, 1400000001, 1583020799]
DOSW = lambda y, mo, d, h, mi, s: ((y - 1980) << 25) | (mo << 21) | (d << 16) | (h << 11) | (mi << 5) | (s // 2)
DOS = [DOSW(1980, 1, 1, 0, 0, 0), DOSW(2001, 2, 28, 23, 59, 58), DOSW(2000, 2, 29, 12, 1, 2), DOSW(2008, 3, 1, 0, 0, 0), DOSW(2010, 12, 31, 23, 59, 58)]


def solid(n):
    """No directory without entries below n (the catalog cannot express one)."""
    n["ch"] = [c for c in n["ch"] if solid(c)]
    return n["k"] == "f" or bool(n["ch"])


def entry(nm, off, size, typ, attr=0):
    nm = bytes(nm).rstrip(b" \t\r\n")
    return nm.ljust(64, b" ")[:64] + off.to_bytes(4, "little") + size.to_bytes(4, "little") + typ.to_bytes(4, "little") + attr.to_bytes(4, "little")


def header(sig, n, nf, dos, size, cat, flags):
    return b"comment\x1a".ljust(256, b"\x1a") + sig + b"".join(x.to_bytes(4, "little") for x in (n, nf, dos, size, cat, flags))


SIG = b"PSVDSC_V2.00"
SIGS = [SIG + b"\r\n\r\n", SIG + b"\n\r\n\r", SIG + b"\x1a" * 4]


def layout(rng, ch):
    """Catalog as a list of [name, kind, child-run or data, last], in one of the possible orders."""
    runs, order = [], []

    def run(children):
        idx = len(runs)
        runs.append(None)
        ents = []
        ch2 = list(children)
        rng.shuffle(ch2)
        for i, c in enumerate(ch2):
            ents.append([c["nm"], c["k"], c["c"] if c["k"] == "f" else c["ch"], i + 1 == len(ch2)])
        runs[idx] = ents
        for e in ents:
            if e[1] == "d":
                e[2] = run(e[2])
        return idx
    run(ch)
    rest = list(range(1, len(runs)))
    rng.shuffle(rest)
    order = [0] + rest
    start, n = {}, 0
    for k in order:
        start[k] = n
        n += len(runs[k])
    return [(e, start) for k in order for e in runs[k]], n


def image(rng, ch, dos=None, mutate=None):
    ents, n = layout(rng, ch)
    zero = rng.random() < .2
    base = 296 if zero else 296 + rng.choice([0, 0, 8])
    data, cat = b"", b""
    dpos = base + 80 * n
    spec = []
    for e, start in ents:
        nm, k, x, last = e
        if k == "f":
            spec.append([nm, dpos + len(data), len(x), 0x40000000 if last else 0])
            data += bytes(x)
        else:
            spec.append([nm, start[x], 0, 0xC0000000 if last else 0x80000000])
    sig, flags, cut, catoff = rng.choice(SIGS), rng.choice([0x50, 0x50, 0x50, 0, 7]), None, 0 if zero else base
    if mutate:
        m = mutate
        i = rng.randrange(len(spec))
        if m == "sig":
            sig = rng.choice([b"PSVDSC_V2.00\r\n\n\r", b"PSVDSC_V1.00\r\n\r\n", b"\0" * 16, SIG + b"    ", SIG.lower() + b"\r\n\r\n"])
        elif m == "zip":
            flags = 0xA0
        elif m == "outside":
            fs = [e for e in spec if e[3] < 0x80000000]
            if fs:
                e = rng.choice(fs)
                e[1], e[2] = rng.choice([(0xFFFFFFF0, 0x20), (e[1], 0x7FFFFFFF), (e[1], e[2] + len(data) + 1), (0x80000000, 0x80000000), (len(data) + dpos + 1, 0), (len(data) + dpos, 0), (0xFFFFFFFF, 1), (e[1], 0xFFFFFFFF)])
        elif m == "nolast":
            for e in spec:
                if rng.random() < .5 or e is spec[-1]:
                    e[3] &= ~0x40000000
        elif m == "cycle":
            ds = [e for e in spec if e[3] >= 0x80000000]
            if ds:
                rng.choice(ds)[1] = rng.choice([0, rng.randrange(n)])
            else:
                spec[i][3] |= 0x80000000
                spec[i][1] = 0
        elif m == "farrun":
            ds = [e for e in spec if e[3] >= 0x80000000] or [spec[i]]
            e = rng.choice(ds)
            e[3] |= 0x80000000
            e[1] = rng.choice([n, n + 1, 1000, 0x7FFFFFFF, 0xFFFFFFFF, 0x33333334, 0x0CCCCCCD, 0x03333333])
        elif m == "cut":
            cut = rng.randrange(296, base + 80 * n)
        elif m == "cuthead":
            cut = rng.choice([0, 1, 200, 272, 280, 291])
        elif m == "catoff":
            catoff = rng.choice([0xFFFFFFFF, 0x80000000, len(data) + dpos, len(data) + dpos - 79, 297, 216])
    cat = b"".join(entry(*e) for e in spec)
    img = header(sig, n, sum(1 for e in spec if e[3] < 0x80000000), dos or rng.choice(DOS), 0, catoff, flags)
    img = img + b"\xee" * (base - 296) + cat + data
    if cut is not None:
        img = img[:cut]
    return list(img)


def wild_runs_ok(img):
    """Mutated catalogs that fan out (shared sub-runs) may describe huge trees; keep those that stay small."""
    b = bytes(img)
    budget = [400]
    cat = int.from_bytes(b[288:292], "little") or 296

    def run(i, path):
        while True:
            budget[0] -= 1
            o = cat + 80 * i
            if budget[0] < 0:
                return False
            if o + 80 > len(b):
                return None
            off = int.from_bytes(b[o + 64:o + 68], "little")
            t = int.from_bytes(b[o + 72:o + 76], "little")
            if not b[o:o + 64].strip():
                return False                       # nameless entries are outside the property
            if t & 0x80000000:
                if off in path:
                    return None
                r = run(off, path | {off})
                if r is not True:
                    return r
            if t & 0x40000000:
                return True
            i += 1
    return run(0, {0}) is not False


def broken_images(rng, n):
    out = []
    while len(out) < n:
        g = Gen(rng, rng.sample(STEMS, 4))
        m = rng.choice(["sig", "zip", "outside", "outside", "outside", "nolast", "cycle", "cycle", "farrun", "farrun", "cut", "cut", "cuthead", "catoff"])
        img = image(rng, g.image_tree(2), mutate=m)
        if len(img) < 296 or wild_runs_ok(img):
            out.append((g, m, img))
    return out


WIDE = STEMS + ["n%d" % i for i in range(12)] + ["N%d.TEX" % i for i in range(6)] + ["q" * 63, "r" * 64, "s" * 40 + ".3ds"]


def wide(rng, top, depth, width, files=(0, 1, 3, 40)):
    """A large tree: many siblings, many directories, some long names and big files."""
    def kids(d):
        out = []
        for nm in rng.sample(WIDE, rng.randint(1, width) if d < depth else width):
            if d and rng.random() < .4:
                out.append({"k": "d", "nm": B(nm), "t": rng.choice([1, 2, 3]), "c": [], "ch": kids(d - 1)})
            else:
                out.append({"k": "f", "nm": B(nm), "t": rng.choice([1, 2, 3]), "c": [rng.randrange(256) for _ in range(rng.choice(files))], "ch": []})
        return [x for x in out if solid(x)] or [{"k": "f", "nm": B("one"), "t": 1, "c": [7], "ch": []}]
    return {"k": "d", "nm": B(top), "t": 2, "c": [], "ch": kids(depth)}


def history(rng, kinds, n, big=False):
    g = Gen(rng, rng.sample(STEMS, 4))
    if big:
        t = wide(rng, g.stems[0], rng.choice([1, 2, 3]), rng.choice([5, 9]))
        g.note([], t)
        g.stems += rng.sample(WIDE, 4)
        return [{"op": "mount", "tree": t, "parent": [], "policy": "all"}] + [g.op(kinds) for _ in range(n)]
    return [g.op(kinds) for _ in range(n)]


def go(c, scns, tz=0, env=None):
    traces = c.drive("drv_vfs", scns, env=env)
    c.validate("Trace_Vfs", traces, CONST % tz, scns, "drv_vfs", env=env)
    for t in traces[:2]:
        if t:
            c.sample([{k: v for k, v in e.items() if k in ("op", "path", "policy", "res")} for e in t[:6]])


def model(c, nodes, length, emit):
    return c.model("MC_Vfs", "SPECIFICATION MCSpec\nVIEW View\nCONSTRAINT Bound\n%sINVARIANTS TreeWellFormed FindAgrees\nPROPERTY StepsHonourTheRules\n"
                   "CHECK_DEADLOCK FALSE\nCONSTANTS TZ=0 NOW=2000000000 MaxNodes=%d MaxLen=%d Emitting=%s\n"
                   % ("ACTION_CONSTRAINT Emit\n" if emit else "", nodes, length, "TRUE" if emit else "FALSE"),
                   "trees of at most %d nodes, histories of %d calls" % (nodes, length), workers=1 if emit else NCPU)


def run_F01(c):
    build("drv_vfs")
    q = c.tier == "quick"
    if q:
        model(c, 5, 5, False)
    else:
        model(c, 8, 7, False)
    scns = c.scenarios_from(model(c, 4, 3, True))
    c.cov["model_scenarios_available"] = len(scns)
    scns = pick(c.rng, scns, 1500 if q else 20000)
    kinds = {"mkdir": 3, "mount": 3, "remove": 2, "resolve": 4, "find": 2, "host": .2}
    scns += [history(c.rng, kinds, c.rng.randint(5, 30)) for _ in range(250 if q else 6000)]
    scns += [history(c.rng, kinds, 12, True) for _ in range(20 if q else 400)]
    go(c, scns)


def run_F02(c):
    build("drv_vfs")
    q = c.tier == "quick"
    model(c, 5 if q else 8, 5 if q else 7, False)
    scns = [s for s in c.scenarios_from(model(c, 4, 4 if not q else 3, True)) if s[-1]["op"] == "mount"]
    scns = pick(c.rng, scns, 1200 if q else 20000)
    for _ in range(250 if q else 5000):
        scns.append(history(c.rng, {"mkdir": .5, "mount": 6, "host": 1, "disk": 2, "remove": .3}, c.rng.randint(2, 8)))
    for _ in range(15 if q else 300):
        scns.append(history(c.rng, {"mount": 6, "host": 1, "disk": 1, "remove": .3}, 5, True))
    go(c, scns)


def run_F03(c):
    build("drv_vfs")
    q = c.tier == "quick"
    model(c, 5 if q else 7, 5 if q else 6, False)
    scns = []
    for _ in range(150 if q else 3000):
        g = Gen(c.rng, c.rng.sample(STEMS, 5))
        s = [{"op": "mount", "tree": t, "parent": [], "policy": "all"} for t in g.image_tree(3)]
        if c.rng.random() < .3:
            s += [g.op({"disk": 1})]
        s.append(g.op({"save": 1}))
        if c.rng.random() < .5:
            s.append(g.op({"save": 1}))
        s.append({"op": "fresh"})
        s.append({"op": "disk", "saved": 0, "via": c.rng.choice(["file", "read"]), "policy": c.rng.choice(POL)})
        s.append(g.op({"save": 1}))
        scns.append(s)
    for i in range(12 if q else 120):
        g = Gen(c.rng, c.rng.sample(STEMS, 5))
        ts = [wide(c.rng, nm, c.rng.choice([1, 2, 2, 3, 5]), c.rng.choice([4, 7]) if i % 3 else 3, (0, 1, 40) if i % 4 else (3, 5000)) for nm in c.rng.sample(STEMS, c.rng.choice([1, 3, 5]))]
        s = [{"op": "mount", "tree": t, "parent": [], "policy": "all"} for t in ts]
        s += [g.op({"save": 1}), {"op": "fresh"}, {"op": "disk", "saved": 0, "via": c.rng.choice(["file", "read"]), "policy": "none"}, g.op({"save": 1})]
        scns.append(s)
    scns.append([{"op": "save", "game": 1, "time": 1000000000}, {"op": "disk", "saved": 0, "via": "read", "policy": "all"}])
    for g, m, img in broken_images(c.rng, 250 if q else 6000):
        s = []
        if c.rng.random() < .4:
            s.append(g.op({"mount": 1}))
            s[-1]["parent"] = []
        s.append({"op": "disk", "img": img, "via": c.rng.choice(["file", "read"]) if img else "read", "policy": c.rng.choice(POL)})
        s.append(g.op({"find": 1}))
        scns.append(s)
    go(c, scns)
    # the same round trips with local time different from UTC
    go(c, scns[: 40 if q else 400], tz=7200, env={"TZ": "XXX-2"})


RUN = {"F01": run_F01, "F02": run_F02, "F03": run_F03}

"""M01, M02: model scripts."""
import struct
from vk.core import *

MC = "SPECIFICATION MCSpec\nINVARIANT Once Same\nCHECK_DEADLOCK FALSE\n%sCONSTANTS MaxLen=%d Emitting=%s\nKinds={%s}\nLayouts={%s}\n"
KINDS = ["ani", "fps", "evs", "open", "alias", "short", "blend", "flags", "comb", "dis", "tag"]
LAYOUTS = ["plain", "upper", "lines", "notes", "tight"]


def mc(n, emit, kinds=KINDS, layouts=LAYOUTS):
    q = lambda xs: ", ".join('"%s"' % x for x in xs)
    return MC % ("ACTION_CONSTRAINT Emit\n" if emit else "", n, "TRUE" if emit else "FALSE", q(kinds), q(layouts))


TYPES = ["DEF_CREATE_ITEM", "DEF_INSERT_ITEM", "DEF_REMOVE_ITEM", "DEF_DESTROY_ITEM", "DEF_PLACE_ITEM", "DEF_EXCHANGE_ITEM", "DEF_FIGHTMODE", "DEF_PLACE_MUNITION",
         "DEF_REMOVE_MUNITION", "DEF_DRAWSOUND", "DEF_UNDRAWSOUND", "DEF_SWAPMESH", "DEF_DRAWTORCH", "DEF_INV_TORCH", "DEF_DROP_TORCH", "DEF_HIT_LIMB", "HIT_LIMB", "DEF_HIT_DIR", "DEF_DIR",
         "DEF_DAM_MULTIPLY", "DEF_PAR_FRAME", "DEF_OPT_FRAME", "DEF_HIT_END", "DEF_WINDOW"]
FRAMED = TYPES[-5:]
SLOTTED = ["DEF_REMOVE_ITEM", "DEF_DESTROY_ITEM", "DEF_REMOVE_MUNITION", "DEF_DRAWSOUND", "DEF_UNDRAWSOUND", "DEF_INV_TORCH", "DEF_HIT_DIR", "DEF_DIR"]   # told apart by compiled scripts only
EIGHTHS = {0: "", 1: "125", 2: "25", 3: "375", 4: "5", 5: "625", 6: "75", 7: "875"}


# ------------------------------------------------------------------------------- declarations: (kind, fields, events)
def name(r, empty=.08):
    if r.random() < empty:
        return ""
    s = "".join(r.choice("ABCxyz019_ .-(") for _ in range(r.choice([1, 2, 5, 12])))
    if r.random() < .15:
        s += "(%d).ASC" % r.randrange(9)
    if r.random() < .05:
        s += r.choice(["//", "{", "}", ";", ":", "/x", "ani"])
    return s


def integer(r):
    return r.choice([0, 1, 2, -1, 9, 10, 255, -300, 65536, 2147483647, -2147483647, r.randrange(1000), r.randrange(1000)])


def eighth(r, neg=False):
    """a number as eighths"""
    v = r.choice([0, 8, 80, 200, 1, 3, r.randrange(0, 4000), r.randrange(0, 30000)])
    return -v if neg and r.random() < .2 else v


def flags(r):
    return r.choice([".", "M.", "MI", "MR", "M", "E", "R", "F", "I", "P", "MEFI", "MRFIP", "..", "m.", ".I", "M.I", "MREFIP", "X", "_M"])


def frames(r):
    n = r.choice([0, 1, 1, 2, 5])
    s = r.choice([" ", "\t", "  "]).join(str(r.choice([r.randrange(30), 0, -3, 100000])) for _ in range(n))
    return s + r.choice(["", "", "", " ", "\t", "x", " x 3", "-"]) if r.random() < .5 else s


def event(r, same):
    k = r.choice(["tag", "tag", "tag", "sfx", "grnd", "pfx", "stop", "morph", "shake"])
    e = {"k": k, "frame": integer(r)}
    if k == "tag":
        t = e["type"] = r.choice(TYPES + (["UNKNOWN", "def_window", "DEF_HIT_LIMB "] if not same else []))
        e["a"] = None if r.random() < .2 else frames(r) if t in FRAMED else r.choice(["FIST", "1H", "1h", "2H", "2h", "BOW", "CBOW", "MAG", "", "bow", "NONE"]) if t == "DEF_FIGHTMODE" else name(r)
        e["b"] = None if e["a"] is None or r.random() < .4 else name(r)
        e["attach"] = not same and r.random() < .2
        e["noframe"] = r.random() < .2
        if e["noframe"]:
            e["frame"] = 0
        if same and t in SLOTTED:
            e["a"] = e["b"] = None
    elif k == "sfx":
        e.update(name=name(r), range=None if r.random() < .4 else eighth(r, True), empty=r.random() < .3)
    elif k == "grnd":
        e.update(name=name(r), empty=not same and r.random() < .3)
    elif k == "pfx":
        e.update(index=None if r.random() < .4 else integer(r), name=name(r), at=name(r), attach=r.random() < .4)
    elif k == "stop":
        e.update(index=integer(r))
    elif k == "morph":
        e.update(ani=name(r), node=None if r.random() < .4 else name(r))
    else:
        e.update(f=[integer(r) for _ in range(4)])
    return e


def decl(r, same):
    k = r.choice(["ani", "ani", "ani", "alias", "blend", "comb", "dis", "tag"])
    d = {"k": k, "name": name(r), "layer": integer(r) if not same or r.random() < .5 else 1, "next": name(r), "bin": eighth(r), "bout": eighth(r), "flags": flags(r)}
    if k == "ani":
        d.update(model=name(r), back=r.random() < .4, first=integer(r), last=integer(r), fps=None if r.random() < .5 else eighth(r), cvs=None if r.random() < .6 else eighth(r),
                 events=[event(r, same) for _ in range(r.choice([0, 0, 1, 2, 5]))])
    elif k == "alias":
        d.update(alias=name(r), back=r.choice([None, False, True]))
    elif k == "comb":
        d.update(model=name(r), last=integer(r))
    elif k == "blend":
        n = r.randrange(3)
        d.update(n=n, bin=d["bin"] if n > 0 else 0, bout=d["bout"] if n > 1 else 0, flagged=r.random() < .3)
    return d


def script(r, same=False):
    n = r.choice([0, 1, 2, 3, 6, 10])
    return {"name": name(r), "skel": None if r.random() < .3 else (name(r), r.random() < .4), "meshes": [name(r) for _ in range(r.choice([0, 1, 2]))],
            "decls": [decl(r, same) for _ in range(n)], "more": [name(r) for _ in range(r.choice([0, 0, 1]))]}


# ------------------------------------------------------------------------------------------------------------ as text
class Text:
    """Writes tokens in a random layout."""
    def __init__(self, r):
        self.r, self.out = r, []
        self.case = r.choice(["as is", "lower", "upper", "mixed"])
        self.nl = r.choice(["\n", "\n", "\r\n"])
        self.wild = r.choice([0, .1, .4])
        self.toks = []

    def kw(self, w, fixed=False):
        if not fixed:
            w = w.lower() if self.case == "lower" else w.upper() if self.case == "upper" else "".join(self.r.choice([c.lower(), c.upper()]) for c in w) if self.case == "mixed" else w
        self.toks.append(("kw", w))

    def str(self, s):
        self.toks.append(("str", s))

    def int(self, n):
        self.toks.append(("int", str(n)))

    def num(self, e):
        s = ("-" if e < 0 else "") + str(abs(e) // 8)
        f = EIGHTHS[abs(e) % 8]
        if f or self.r.random() < .3:
            s += "." + f + "0" * self.r.choice([0, 0, 1] if f else [0, 1, 2])
        self.toks.append(("num", s))

    def p(self, c):
        self.toks.append(("p", c))

    def line(self):
        self.toks.append(("line", ""))

    def blank(self):
        r = self.r
        if r.random() >= self.wild:
            return r.choice([" ", " ", "\t", "  "])
        return r.choice([" ; ", " ) ", " (", " // note \"x { } ani" + self.nl, "/* x" + self.nl, self.nl, self.nl + self.nl, "\t\v\f ", ";;", "(("])

    def text(self, toks=None):
        r, out, glued = self.r, "", False
        toks = toks if toks is not None else self.toks
        for i, (k, v) in enumerate(toks):
            if k == "line":
                out += self.nl + r.choice(["", "\t", "\t\t"])
                continue
            word = k in ("kw", "int", "num")
            sep = self.blank()
            if r.random() < .3 and not (word and out and (out[-1].isalnum() or out[-1] in "_-.")) and not (out and out[-1] == "/"):
                sep = "" if r.random() < .5 else "("
            out += sep
            if k == "str":
                last = i + 1 == len(toks) or toks[i + 1][0] == "line"
                out += '"' + v
                if last and r.random() < .3 and not v.endswith((" ", ")", '"')) and v:
                    out += r.choice([")", "", ") ", "\t", " )"[1:]]) + (self.nl if i + 1 < len(toks) or r.random() < .7 else "")
                else:
                    out += '"'
            else:
                out += v
        out += r.choice(["", "", self.nl, " ", "// end", self.nl + "// end" + self.nl, ")", " /"])
        return list(out.encode("latin-1"))


def write_event(t, e, r):
    k = e["k"]
    t.kw({"tag": "*eventTag", "sfx": "*eventSFX", "grnd": "*eventSFXGrnd", "pfx": "*eventPFX", "stop": "*eventPFXStop", "morph": "*eventMMStartAni", "shake": "*eventCamTremor"}[k])
    if not (k == "tag" and e["noframe"]):
        t.int(e["frame"])
    if k == "tag":
        t.str(e["type"])
        for x in (e["a"], e["b"]):
            if x is not None:
                t.str(x)
        if e["attach"]:
            t.kw("ATTACH")
    elif k == "sfx":
        t.str(e["name"])
        if e["range"] is not None:
            t.kw("R"), t.p(":"), t.num(e["range"])
        if e["empty"]:
            t.kw(r.choice(["EMPTY_SLOT", "EMTPY_SLOT"]))
    elif k == "grnd":
        t.str(e["name"])
        if e["empty"]:
            t.kw("EMPTY_SLOT")
    elif k == "pfx":
        if e["index"] is not None:
            t.int(e["index"])
        t.str(e["name"]), t.str(e["at"])
        if e["attach"]:
            t.kw("ATTACH") if r.random() < .6 else t.str("ATTACH")
    elif k == "stop":
        t.int(e["index"])
    elif k == "morph":
        t.str(e["ani"])
        if e["node"] is not None:
            t.str(e["node"])
    else:
        for x in e["f"]:
            t.int(x)
    t.line()


def write_decl(t, d, r, last):
    k = d["k"]
    t.kw({"ani": "ani", "alias": "aniAlias", "blend": "aniBlend", "comb": "aniComb", "dis": "aniDisable", "tag": "modelTag"}[k])
    if k == "tag":
        t.str(r.choice(["DEF_HIT_LIMB", "def_hit_limb"]))
    t.str(d["name"])
    if k in ("ani", "alias", "comb"):
        t.int(d["layer"]), t.str(d["next"]), t.num(d["bin"]), t.num(d["bout"]), t.kw(d["flags"], True)
        if r.random() < .1:
            t.p(":")
    if k == "ani":
        t.str(d["model"]), t.kw("R" if d["back"] else "F"), t.int(d["first"]), t.int(d["last"])
        for w, f in (("FPS", "fps"), ("CVS", "cvs")):
            if d[f] is not None:
                t.kw(w), t.p(":"), t.num(d[f])
        braces = r.random() < .7 or (last and d["events"])
        if braces and (d["events"] or r.random() < .5):
            t.p("{"), t.line()
        else:
            braces = False
            t.line()
        for e in d["events"]:
            write_event(t, e, r)
        if braces and not (d["events"] and not last and r.random() < .1):
            t.p("}")
    elif k == "alias":
        t.str(d["alias"])
        if d["back"] is not None:
            t.kw("R" if d["back"] else "F")
    elif k == "comb":
        t.str(d["model"]), t.int(d["last"])
    elif k == "blend":
        if r.random() < .3:
            t.int(d["layer"])
        t.str(d["next"])
        for x in (d["bin"], d["bout"])[:d["n"]]:
            t.num(x)
        if d["flagged"] and "ani" not in d["flags"].lower():
            t.kw(d["flags"], True)
            if r.random() < .2:
                t.p(":")
    if k in ("comb", "blend") and r.random() < .2:
        t.p("{")
        for e in [event(r, False) for _ in range(r.randrange(2))]:
            write_event(t, e, r)
        t.p("}")
    t.line()


def text_of(r, s, bad=False, odd=.06):
    t = Text(r)
    t.kw("Model"), t.str(s["name"]), t.p("{"), t.line()
    if s["skel"]:
        t.kw("meshAndTree"), t.str(s["skel"][0])
        if s["skel"][1]:
            t.kw("DONT_USE_MESH")
        t.line()
    for m in s["meshes"]:
        t.kw("registerMesh"), t.str(m), t.line()
    if s["decls"] or r.random() < .5:
        parts = [s["decls"]]
        if len(s["decls"]) > 2 and r.random() < .2:
            parts = [s["decls"][:2], s["decls"][2:]]
        for ds in parts:
            t.kw("aniEnum"), t.p("{"), t.line()
            for i, d in enumerate(ds):
                if r.random() < odd:
                    t.kw(r.choice(["aniSync", "aniMaxFPS", "anis", "foo", "*eventTag"]), True), t.p(":"), t.int(5), t.str("x"), t.line()
                write_decl(t, d, r, i + 1 == len(ds))
            if ds is not parts[-1] or s["more"] or r.random() < .8:
                t.p("}"), t.line()
    for m in s["more"]:
        t.kw("registerMesh"), t.str(m), t.line()
    if r.random() < .8:
        t.p("}")
        if odd and r.random() < .2:
            t.line(), t.kw("registerMesh"), t.str("LATE")
    elif odd and r.random() < .2:
        t.kw("foo"), t.line(), t.kw("registerMesh"), t.str("LATE")
    if bad:
        toks = list(t.toks)
        idx = [i for i, x in enumerate(toks) if x[0] != "line"]
        i = r.choice(idx)
        x = r.random()
        if x < .5:
            del toks[i]
        elif x < .7:
            toks[i] = r.choice([("kw", "R"), ("int", "7"), ("num", "0.5"), ("str", "S"), ("p", "{"), ("p", "}"), ("p", ":"), ("p", "=")])
        elif x < .85:
            toks.insert(i, r.choice([("kw", "ani"), ("int", "7"), ("num", "0.5"), ("str", "S"), ("p", "{"), ("p", "}"), ("p", ":"), ("p", "?")]))
        else:
            toks = toks[:i]
        return t.text(toks)
    return t.text()


# -------------------------------------------------------------------------------------------------------- as chunks
def code_of(r, s, same=False):
    out = b""
    i4 = lambda n: struct.pack("<i", n)
    f4 = lambda e: struct.pack("<f", e / 8)
    L = lambda x: (x or "").encode("latin-1") + b"\n"

    def ck(t, b, more=True):
        nonlocal out
        if more and r.random() < .05:
            b += bytes(r.randrange(256) for _ in range(r.randrange(5)))
        if r.random() < (.15 if not same else .05):
            n = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7])))
            out += struct.pack("<HI", r.choice([0xF510, 0xF550, 0xF5A6, 0xF5A8, 0xF580 + 1, 0xFFFE]), len(n)) + n
        out += struct.pack("<HI", t, len(b)) + b

    if same or r.random() < .9:
        out += struct.pack("<HI", 0xF000, 5) + i4(1) + b"\n"
    else:
        out += struct.pack("<HI", 0xD000, 3) + b"abc"
    if r.random() < .5:
        ck(0xF100, bytes(16) + b"X.MDS\n"), ck(0xF200, b"")
    if s["skel"]:
        ck(0xF300, struct.pack("<I", s["skel"][1] * r.choice([1, 7, 0x100, 0x3f800000])) + L(s["skel"][0]))
    for m in s["meshes"]:
        ck(0xF400, L(m))
    ck(0xF500, b"")

    def ev(e):
        k = e["k"]
        b = i4(e["frame"])
        if k == "tag":
            b += L(e["type"]) + L(e["a"]) + L(e["b"]) + b"\n\n"
        elif k in ("sfx", "grnd"):
            rg = e.get("range")
            b += L(e["name"]) + f4(8000 if rg is None or k == "grnd" and same else rg) + (struct.pack("<I", r.choice([1, 0x3f800000, 0x100])) if e["empty"] else i4(0))
        elif k == "pfx":
            b += i4(e["index"] or 0) + L(e["name"]) + L(e["at"]) + struct.pack("<I", r.choice([1, 0x3f800000, 0x10000]) if e["attach"] else 0)
        elif k == "stop":
            b += i4(e["index"])
        elif k == "morph":
            b += L(e["ani"]) + L(e["node"]) + f4(8) + f4(r.choice([0, 8]))
        else:
            b += b"".join(i4(x) for x in e["f"])
        ck({"sfx": 0xF5A1, "grnd": 0xF5A2, "tag": 0xF5A3, "pfx": 0xF5A4, "stop": 0xF5A5, "morph": 0xF5A9, "shake": 0xF5AA}[k], b)

    loose = []
    for d in s["decls"]:
        k = d["k"]
        if k in ("ani", "alias", "comb"):
            b = L(d["name"]) + i4(d["layer"]) + L(d["next"]) + f4(d["bin"]) + f4(d["bout"]) + L(d["flags"])
        if k == "ani":
            b += L(d["model"]) + (b"R\n" if d["back"] else b"F\n") + i4(d["first"]) + i4(d["last"])
            b += f4(200 if d["fps"] is None else d["fps"]) + f4(0 if same else r.choice([0, 0, eighth(r)])) + f4(8 if d["cvs"] is None else d["cvs"])
            ck(0xF520, b)
            if d["events"] or r.random() < .2:
                ck(0xF5A0, i4(len(d["events"])))
            for e in d["events"]:
                ev(e)
            if r.random() < .8:
                ck(0xF5AF, b"")
        elif k == "alias":
            ck(0xF530, b + L(d["alias"]) + (b"R\n" if d["back"] else b"F\n"))
        elif k == "comb":
            ck(0xF570, b + L(d["model"]) + i4(d["last"]))
        elif k == "blend":
            ck(0xF540, L(d["name"]) + L(d["next"]) + f4(d["bin"]) + f4(d["bout"]))
        elif k == "dis":
            ck(0xF580, L(d["name"]))
        else:
            ck(0xF590, i4(0) + L(r.choice(["DEF_HIT_LIMB", "HIT_LIMB"])) + L(d["name"]) + b"\n\n\n")
        if not same and r.random() < .1:
            ev(event(r, False))                 # an event away from its animation, or before all
    if r.random() < .7:
        ck(0xF5FF, b"")
    for m in s["more"]:
        ck(0xF400, L(m))
    if r.random() < .7:
        ck(0xF2FF, b""), ck(0xFFFF, b"", False)
    return list(out)


def load(b, same=False):
    return {"op": "load", "bytes": b, "same": same}


def go(c, scns):
    traces = c.drive("drv_mds", scns)
    c.sample(*[t[:1] for t in traces[:1] if t])
    c.validate("Trace_Mds", traces, scenarios=scns, driver="drv_mds")


def models(c):
    q = c.tier == "quick"
    ms = c.scenarios_from(c.model("MC_Mds", mc(2, True), "all pairs of declarations in five layouts, and one declaration with any part missing"))
    ms.sort(key=json.dumps)
    if not q:
        c.model("MC_Mds", mc(3, False), "lists of three declarations", timeout=800)
    c.cov["model_scenarios_available"] = len(ms)
    return ms


def run_M01(c):
    build("drv_mds")
    r, q = c.rng, c.tier == "quick"
    ms = models(c)
    k = 1 if q else 8
    scns = [[dict(o) for o in m if o["bytes"][1] < 0xD0] for m in pick(r, ms, 1500 * k)]
    scns += [[load(text_of(r, script(r))) for _ in range(r.choice([1, 1, 2]))] for _ in range(1200 * k)]
    scns += [[load(text_of(r, script(r), True))] for _ in range(800 * k)]
    for _ in range(200 * k):
        s = script(r, True)
        scns.append([load(text_of(r, s, odd=0)), load(text_of(r, s, odd=0), True)])
    go(c, scns)


def run_M02(c):
    build("drv_mds")
    r, q = c.rng, c.tier == "quick"
    ms = models(c)
    k = 1 if q else 8
    scns = [[dict(o) for o in m] for m in pick(r, [m for m in ms if len(m) == 2], 1500 * k)]
    scns += [[load(code_of(r, script(r))) for _ in range(r.choice([1, 1, 2]))] for _ in range(1200 * k)]
    for _ in range(800 * k):
        s = script(r, True)
        a, b = load(text_of(r, s, odd=0)), load(code_of(r, s, True))
        if r.random() < .5:
            a, b = b, a
        scns.append([a, {**b, "same": True}])
    go(c, scns)


RUN = {"M01": run_M01, "M02": run_M02}

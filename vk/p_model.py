"""X01, X02: fonts, hierarchies, animations and meshes of models."""
import struct
from vk.core import *
from vk import p_objects as po
from vk.p_bsp import w, ws, u16, u32, wb, wsb, chunk, obb, obb_bytes

MC = "SPECIFICATION MCSpec\nINVARIANT Readable Disjoint\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n%sCONSTANTS MaxLen=%d Kinds=%s Emitting=%s Small=%s\n"


def cat(ls):
    return [b for x in ls for b in x]


def b16(s): return cat(u16(x) for x in s)
def line(s): return s + [10]
def date(d): return wb(d[0]) + b16(d[1:]) + [0, 0]


# ---- bytes (checked against the specification when the trace is validated)
def font_bytes(x):
    gs = x["glyphs"]
    return [49, 10] + line(x["name"]) + wb(x["height"]) + u32(len(gs)) + [g["w"] for g in gs] + cat(wsb(g["uv"][:2]) for g in gs) + cat(wsb(g["uv"][2:]) for g in gs)


def hier_part(x, p):
    k, e = p["k"], p["extra"]
    if k == "hierarchy":
        d = u32(p["ver"]) + u16(len(x["nodes"]))
        for n in x["nodes"]:
            d += line(n["name"]) + u16(n["parent"]) + wsb([n["m"][4 * (i % 4) + i // 4] for i in range(16)])
        return chunk(0xD100, d + wsb(x["bbox"]) + wsb(x["cbox"]) + wsb(x["root"]) + wb(x["sum"]) + e)
    if k == "source":
        return chunk(0xD110, date(x["date"]) + line(x["path"]) + e)
    return chunk(0xD120 if k == "end" else p["id"], e)


def f64(n):
    b = struct.unpack("<I", struct.pack("<f", n / 64))[0]
    return u32(b)


def anim_part(x, p):
    k, e = p["k"], p["extra"]
    if k == "source":
        return chunk(0xA010, date(x["date"]) + line(x["path"]) + line(x["script"]) + e)
    if k == "header":
        return chunk(0xA020, u16(p["ver"]) + line(x["name"]) + wb(x["layer"]) + u32(x["frames"]) + u32(x["nodes"]) + wb(x["fps"]) + wb(x["fpss"]) + f64(x["min"]) + f64(x["scale"])
                     + wsb(x["bbox"]) + line(x["next"]) + e)
    if k == "events":
        d = u32(len(x["events"]))
        for v in x["events"]:
            d += wb(v["type"]) + wb(v["frame"]) + line(v["tag"]) + cat(line(t) for t in v["text"]) + wsb(v["vals"]) + wb(v["prob"])
        return chunk(0xA030, d + e)
    if k == "samples":
        return chunk(0xA090, wb(x["sum"]) + wsb(x["idx"]) + cat(b16(s) for s in x["samples"]) + e)
    return chunk(0xA000 if k == "marker" else p["id"], e)


def cstr(s): return s + [0]
def bl(b): return [1 if b else 0]
def en(x): return [x[1] % 256]


def block(x, b):
    if b == 1:
        return cat(wsb(p) for p in x["pos"])
    if b == 2:
        return cat(wsb(p) for p in x["nor"])
    s, k = x["subs"][(b - 3) // 10], (b - 3) % 10 + 1
    return [lambda: cat(b16(t) for t in s["tri"]), lambda: cat(wsb(t["n"]) + wsb(t["t"]) + u16(t["i"]) + u16(x["lay"]["junk"]) for t in s["wedges"]), lambda: wsb(s["colors"]),
            lambda: b16(s["tpi"]), lambda: cat(wsb(t) for t in s["planes"]), lambda: b16(s["wmap"]), lambda: b16(x["lay"]["updates"]), lambda: cat(b16(t) for t in s["tedges"]),
            lambda: cat(b16(t) for t in s["edges"]), lambda: wsb(s["scores"])][k - 1]()


def count(x, b):
    if b < 3:
        return len(x["pos" if b == 1 else "nor"])
    s, k = x["subs"][(b - 3) // 10], (b - 3) % 10
    return len(x["lay"]["updates"]) if k == 6 else len(s[["tri", "wedges", "colors", "tpi", "planes", "wmap", "", "tedges", "edges", "scores"][k]])


def mat_bytes(m, g, i, extra):
    d = u16(17408 if g == 1 else 39939) + u32(i) + [37, 0] + cstr(list(b"zCMaterial"))
    d += cstr(m["name"]) + en(m["group"]) + [m["color"][2], m["color"][1], m["color"][0], m["color"][3]] + wb(m["smooth_angle"]) + cstr(m["texture"]) + cstr(m["scale_txt"])
    d += wb(m["texture_anim_fps"]) + en(m["texture_anim_map_mode"]) + cstr(m["dir_txt"]) + bl(m["disable_collision"]) + bl(m["disable_lightmap"]) + bl(m["dont_collapse"]) + cstr(m["detail_object"])
    if g == 2:
        d += wb(m["detail_object_scale"]) + bl(m["force_occluder"]) + bl(m["environment_mapping"]) + wb(m["environment_mapping_strength"]) + en(m["wave_mode"]) + en(m["wave_speed"])
        d += wb(m["wave_max_amplitude"]) + wb(m["wave_grid_size"]) + bl(m["ignore_sun"]) + en(m["alpha_func"])
    d += wsb(m["default_mapping"]) + extra
    return cstr(m["name"]) + u32(len(d) + 4) + d


def mrm_bytes(x):
    L = x["lay"]
    out, at = [], {}
    for b, g in zip(L["order"], L["gaps"]):
        out += [221] * g
        at[b] = len(out)
        out += block(x, b)
    out += [221] * L["tail"]
    n = len(x["subs"])
    d = u16(L["ver"]) + u32(len(out)) + out + [n] + cat(u32(at[b]) + u32(count(x, b)) for b in range(1, 3 + 10 * n)) + L["head"]
    d += cat(mat_bytes(s["mat"], L["mg"], i, L["mextra"]) for i, s in enumerate(x["subs"]))
    return d + ([] if L["ver"] == 773 else [x["alpha"]]) + wsb(x["bbox"]) + obb_bytes(x["obb"]) + [221] * 16


def mrm_part(x, p):
    if p["k"] == "mesh":
        return chunk(0xB100, mrm_bytes(x) + p["extra"])
    return chunk(0xB1FF if p["k"] == "end" else p["id"], p["extra"])


def skin_part(x, p):
    k, e = p["k"], p["extra"]
    if k == "header":
        return chunk(0xE100, u32(p["ver"]) + e)
    if k == "proto":
        return chunk(0xB100, mrm_bytes(x["mesh"]) + e)
    if k == "nodes":
        d = cat(u32(len(q)) + cat(wb(v["w"]) + wsb(v["p"]) + [v["n"]] for v in q) for q in x["weights"]) + p["slack"]
        return chunk(0xB1FF, u32(len(d)) + d + u32(len(x["wn"])) + cat(wsb(n["n"]) + wb(n["i"]) for n in x["wn"]) + u16(len(x["nodes"])) + wsb(x["nodes"]) + cat(obb_bytes(b) for b in x["boxes"]) + e)
    return chunk(0xE110 if k == "end" else p["id"], e)


def skin_bytes(x):
    return cat(skin_part(x, p) for p in x["parts"])


def mesh_part(x, p):
    k, e = p["k"], p.get("extra")
    if k == "header":
        return chunk(0xD000, u32(p["ver"]) + e)
    if k == "source":
        return chunk(0xD010, date(p["date"]) + line(p["path"]) + e)
    if k == "nodes":
        return chunk(0xD020, u16(len(x["atts"])) + cat(line(x["atts"][i - 1]["name"]) for i in x["order"]) + e)
    if k == "proto":
        return chunk(0xB100, mrm_bytes(x["atts"][x["order"][p["i"] - 1] - 1]["mesh"]) + e)
    if k == "skins":
        h, b = wb(x["sum"]) + u16(len(x["skins"])), cat(skin_bytes(s) for s in x["skins"])
        return u16(0xD030) + u32(len(h) + (len(b) if p["inside"] else 0)) + h + b
    return chunk(0xD040 if k == "end" else p["id"], e)


def morph_part(x, p):
    k, e = p["k"], p["extra"]
    if k == "sources":
        return chunk(0xE010, u16(len(x["sources"])) + cat(date(s["date"]) + line(s["name"]) for s in x["sources"]) + e)
    if k == "header":
        return chunk(0xE020, u32(p["ver"]) + line(x["name"]) + e)
    if k == "proto":
        return chunk(0xB100, mrm_bytes(x["mesh"]) + e)
    if k == "morph":
        return chunk(0xB1FF, cat(wsb(p) for p in x["mpos"]) + e)
    if k == "anims":
        d = u16(len(x["anims"]))
        for a in x["anims"]:
            d += line(a["name"]) + wsb(a["t"][:3]) + wb(a["layer"]) + wb(a["t"][3]) + [a["flags"]] + u32(len(a["verts"])) + u32(a["frames"]) + wsb(a["verts"]) + cat(wsb(s) for s in a["samples"])
        return chunk(0xE030, d + e)
    return chunk(p["id"], e)


def file_bytes(k, x, ps):
    if k == "font":
        return font_bytes(x)
    if k == "skin":
        return skin_bytes(x)
    if k == "model":
        return cat(hier_part(x["hier"], p) for p in ps["hier"]) + cat(mesh_part(x["mesh"], p) for p in ps["mesh"])
    f = {"hier": hier_part, "anim": anim_part, "mrm": mrm_part, "mmesh": mesh_part, "morph": morph_part}[k]
    return cat(f(x, p) for p in ps)


# ---- random contents
class G:
    def __init__(self, r, K, big=False):
        self.r, self.K, self.big = r, K, big

    def n(self):
        return self.r.choice([0, 1, 1, 2, 3, 5]) if not self.big else self.r.choice([3, 17, 40])

    def some(self, f):
        return [f() for _ in range(self.n())]

    def u(self):
        r = self.r
        return r.choice([0, 1, 255, 256, 65535, r.randrange(65536), r.randrange(65536)])

    def us(self, k):
        return [self.u() for _ in range(k)]

    def v3(self):
        return ws(self.r, 3)

    def date(self):
        r = self.r
        return [r.choice([[0, 2002], [0, 2058], [0, 10], w(r)])] + self.us(5)

    def text(self):
        return po.text(self.r)

    def font(self):
        r = self.r
        return {"name": self.text(), "height": w(r), "glyphs": [{"w": r.randrange(256), "uv": ws(r, 4)} for _ in range(r.choice([0, 1, 3, 10]) if not self.big else r.choice([255, 256, 257, 300, 1000]))]}

    def hier(self):
        r = self.r
        return {"nodes": [{"name": self.text(), "parent": r.choice([-1, 0, 1, 32767, -32768, r.randrange(-32768, 32768)]), "m": ws(r, 16)} for _ in range(self.n() if not self.big else r.choice([40, 127, 128, 255, 256, 300]))], "bbox": ws(r, 6), "cbox": ws(r, 6),
                "root": self.v3(), "sum": w(r), "date": self.date(), "path": self.text()}

    def raw(self):
        r = self.r
        while True:
            k = r.choice([400, 5000, 32767, 32768])
            q = [min(65535, max(0, 32767 + r.choice([0, k, -k, r.randrange(-k, k + 1), r.randrange(-k, k + 1)]))) for _ in range(3)]
            u = [((v - 32767) * 21000 // 65535) for v in q]
            if abs(sum(v * v for v in u) / 1e8 - 1) > .003:
                return q + self.us(3)

    def anim(self):
        r = self.r
        f, n = self.n(), r.choice([0, 1, 2, 4])
        return {"name": self.text(), "next": self.text(), "layer": w(r), "frames": f, "nodes": n, "fps": w(r), "fpss": w(r), "min": r.choice([0, -64, r.randrange(-20000, 20000)]),
                "scale": r.choice([0, 1, 2, 5]), "bbox": ws(r, 6), "sum": w(r), "path": self.text(), "date": self.date(), "script": self.text(),
                "samples": [self.raw() for _ in range(f * n)], "idx": [w(r) for _ in range(n)],
                "events": self.some(lambda: {"type": [0, r.randrange(12)], "frame": w(r), "tag": self.text(), "text": [self.text() for _ in range(4)], "vals": ws(r, 4), "prob": w(r)})}

    def mat(self):
        g = po.Gen(self.r, self.K, small=True)
        m = dict(g.objs[g.mk("zCMaterial") - 1]["f"])
        fl = lambda x: struct.unpack("<f", bytes(wb(x)))[0]
        for k, t in (("texture_scale", "scale_txt"), ("texture_anim_map_dir", "dir_txt")):
            m[t] = list(("%.9g %.9g" % tuple(fl(x) for x in m[k])).encode())
        return m

    def sub(self, made):
        r, S = self.r, self.some
        m = self.mat()
        if made:
            m = {k: v for k, v in m.items() if k not in ("scale_txt", "dir_txt")}
        return {"mat": m, "tri": S(lambda: self.us(3)), "wedges": S(lambda: {"n": self.v3(), "t": ws(r, 2), "i": self.u()}), "colors": ws(r, self.n()), "tpi": self.us(self.n()),
                "planes": S(lambda: ws(r, 4)), "tedges": S(lambda: self.us(3)), "edges": S(lambda: self.us(2)), "scores": ws(r, self.n()), "wmap": self.us(self.n())}

    def mrm(self, made, npos=None):
        r = self.r
        nsub = r.choice([0, 1, 1, 2, 3])
        x = {"pos": [self.v3() for _ in range(self.n() if npos is None else npos)], "nor": self.some(self.v3), "subs": [self.sub(made) for _ in range(nsub)], "alpha": r.choice([0, 1] if made else [0, 1, 2, 255]),
             "bbox": ws(r, 6), "obb": obb(r, r.choice([0, 0, 1]))}
        if not made:
            order = list(range(1, 3 + 10 * nsub))
            if r.random() < .7:
                r.shuffle(order)
            gaps = [r.choice([0, 0, 0, 1, 4]) if r.random() < .5 else 0 for _ in order]
            mg = r.choice([1, 2])
            head = b"ZenGin Archive\nver 1\nzCArchiverGeneric\nBINARY\nsaveGame 0\n" + r.choice([b"date 7.1.2001 3:4:5\nuser roman\n", b"date 1.1.1 1:1:1\nuser a b\n", b""]) + b"END\nobjects %d%sEND\n\n" % (nsub, r.choice([b"\n", b"        \n"]))
            x["lay"] = {"ver": r.choice([773, 0x905, 0x805]), "order": order, "gaps": gaps, "tail": r.choice([0, 0, 3]), "junk": self.u(), "updates": self.us(r.choice([0, 2])), "mg": mg, "head": list(head),
                        "mextra": [] if r.random() < .8 else [1, 2, 3]}
        return x

    def skin(self, made):
        r = self.r
        m = self.mrm(made)
        nn = self.n()
        x = {"mesh": m, "boxes": [obb(r, r.choice([0, 1])) for _ in range(nn)], "nodes": [w(r) for _ in range(nn)], "wn": self.some(lambda: {"n": self.v3(), "i": w(r)}),
             "weights": [[{"w": w(r), "p": self.v3(), "n": r.randrange(256)} for _ in range(r.choice([0, 1, 2, 4]))] for _ in m["pos"]]}
        if not made:
            x["parts"] = self.pieces([self.p("header", ver=r.choice([4, 0])), self.p("proto"), self.p("nodes", slack=r.choice([[], [], [9, 9, 9], [0]]))], [0xE120, 0xE1FF]) + [self.p("end")]
        return x

    def mmesh(self, made):
        r = self.r
        names = sorted({tuple(self.text()) for _ in range(r.choice([0, 1, 2, 4]))})
        names = [list(n) for n in names if n and n[0] > 32]                       # blanks in front of a name are skipped
        x = {"sum": w(r), "skins": [self.skin(made) for _ in range(r.choice([0, 1, 2]))], "atts": [{"name": n, "mesh": self.mrm(made)} for n in names]}
        if not made:
            x["order"] = list(range(1, len(names) + 1))
            r.shuffle(x["order"])
        return x

    def morph(self):
        r = self.r
        def a():
            f, v = r.choice([0, 1, 2, 3]), r.choice([0, 1, 2, 5])
            return {"name": self.text(), "layer": w(r), "t": ws(r, 4), "flags": r.randrange(256), "frames": f, "verts": [w(r) for _ in range(v)], "samples": [self.v3() for _ in range(f * v)]}
        m = self.mrm(False)
        return {"name": self.text(), "mesh": m, "mpos": [self.v3() for _ in m["pos"]], "sources": self.some(lambda: {"date": self.date(), "name": self.text()}), "anims": self.some(a)}

    # parts of files
    def p(self, k, **more):
        return dict(more, k=k, extra=[] if self.r.random() < .8 else [self.r.randrange(256) for _ in range(self.r.choice([1, 7]))])

    def pieces(self, ps, unknown, drop=()):
        """ps in this order, except those of drop that are left out; unknown chunks in between"""
        r = self.r
        out = []
        for q in ps:
            if q["k"] in drop and r.random() < .12:
                continue
            if r.random() < .12:
                out.append(dict(self.p("unknown"), id=r.choice(unknown)))
            out.append(q)
        return out

    def hier_parts(self, end=True, drop=("hierarchy", "source")):
        ps = [self.p("hierarchy", ver=self.r.choice([3, 3, 2])), self.p("source")]
        self.r.shuffle(ps)
        return self.pieces(ps, [0xD130, 0xD1FF, 0xD000], drop) + ([self.p("end")] if end else [])

    def mesh_parts(self, x, drop=True):
        r = self.r
        n = len(x["atts"])
        a = [self.p("header", ver=0x04030506), self.p("source", date=self.date(), path=self.text())]
        b = [self.p("nodes")] + [self.p("proto", i=i + 1) for i in range(n)]
        c = [{"k": "skins", "inside": r.random() < .5}]
        r.shuffle(a)
        return self.pieces(a + (b + c if r.random() < .7 else c + b), [0xD050, 0xB200], ("header", "source", "skins") if drop else ("source",)) + [self.p("end")]

    def file(self, k):
        """Contents and parts; whether the file says where it ends"""
        r = self.r
        if k == "font":
            return self.font(), [], True
        if k == "hier":
            e = r.random() < .85
            return self.hier(), self.hier_parts(e), e
        if k == "anim":
            ps = [self.p("header", ver=12), self.p("samples")]
            for q in (self.p("marker"), self.p("source"), self.p("events")):
                ps.insert(r.randrange(len(ps) + 1), q)
            return self.anim(), self.pieces(ps, [0xA080, 0xA0FF], ("marker", "source", "header", "events", "samples")), False
        if k == "mrm":
            return self.mrm(False), self.pieces([self.p("mesh")], [0xB101, 0xB200], ("mesh",) if r.random() < .1 else ()) + [self.p("end")], True
        if k == "skin":
            x = self.skin(False)
            if r.random() < .2:
                x["parts"] = [p for p in x["parts"] if p["k"] not in r.choice([("header",), ("nodes",)])]
            return x, [], True
        if k == "mmesh":
            x = self.mmesh(False)
            return x, self.mesh_parts(x), True
        if k == "model":
            x = {"hier": self.hier(), "mesh": self.mmesh(False)}
            return x, {"hier": self.hier_parts(True, ()), "mesh": self.mesh_parts(x["mesh"], False)}, True
        x = self.morph()
        ps = [self.p("proto"), self.p("morph")]
        for q in (self.p("sources"), self.p("header", ver=1), self.p("anims")):
            ps.insert(r.randrange(len(ps) + 1), q)
        return x, self.pieces(ps, [0xE040, 0xE0FF], ("morph", "sources", "header", "anims")), False

    def made(self, k):
        if k == "model":
            return {"hier": self.hier(), "mesh": self.mmesh(True)}
        return getattr(self, k)(*([True] if k in ("mrm", "skin", "mmesh") else []))


def load(r, k, pad, ends):
    return {"op": "load", "k": k, "pad": pad, "after": [] if not ends else r.choice([[], [], [1, 2, 3], [0xD1, 0, 0, 0, 0, 0, 0]])}


def scenario(r, K, k, big=False):
    g = G(r, K, big)
    s, ends = [], True
    for i in range(r.choice([1, 2, 3])):
        pad = r.choice([0, 0, 5])
        if k in ("anim", "morph") or r.random() < .5:
            x, ps, ends = g.file(k)
            s.append({"op": "file", "k": k, "x": x, "parts": ps, "pad": pad, "bytes": [238] * pad + file_bytes(k, x, ps)})
        else:
            ends = True
            s.append({"op": "save", "k": k, "x": g.made(k), "v": r.choice([1, 2]), "pad": pad})
        s.append(load(r, k, pad, ends))
        whole = not (k == "skin" and s[-2]["op"] == "file" and any(all(p["k"] != m for p in x["parts"]) for m in ("proto", "nodes")))
        if k not in ("anim", "morph") and whole and r.random() < .4:
            pad = r.choice([0, 3])
            s += [{"op": "save", "k": k, "v": r.choice([1, 2]), "pad": pad}, load(r, k, pad, True)]
    return s


def fill(s):
    out = []
    for o in s:
        o = dict(o)
        o.setdefault("pad", 0)
        if o["op"] == "file":
            o["bytes"] = file_bytes(o["k"], o["x"], o["parts"])
        elif o["op"] == "load":
            o["after"] = []
        out.append(o)
    return out


def run(c, kinds, n):
    build("drv_model")
    K = po.kinds(c)
    q = c.tier == "quick"
    ks = "{%s}" % ",".join('"%s"' % k for k in kinds)
    ms = c.scenarios_from(c.model("MC_Model", MC % ("ACTION_CONSTRAINT Emit\n", 4, ks, "TRUE", "TRUE"), "all histories of four steps over small contents of each kind, all selections and orders of parts", workers=1))
    c.model("MC_Model", MC % ("", 4 if q else 6, ks, "FALSE", "FALSE"), "all histories of %d steps over contents of each kind, all selections and orders of parts" % (4 if q else 6))
    c.cov["model_scenarios_available"] = len(ms)
    scns = [fill(m) for m in pick(c.rng, ms, 600 if q else 6000)]
    for k in kinds:
        scns += [scenario(c.rng, K, k) for _ in range(n if q else 12 * n)] + [scenario(c.rng, K, k, True) for _ in range((8 if k in ("font", "hier") else 3) if q else 40)]
    traces = c.drive("drv_model", scns)
    c.sample(*[t[:2] for t in traces[:1] if t])
    c.validate("Trace_Model", traces, scenarios=scns, driver="drv_model")


RUN = {"X01": lambda c: run(c, ["font", "hier", "anim"], 150), "X02": lambda c: run(c, ["mrm", "skin", "mmesh", "model", "morph"], 90)}

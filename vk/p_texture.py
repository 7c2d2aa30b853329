"""T01: textures."""
import struct
from vk.core import *

MC = "SPECIFICATION MCSpec\nINVARIANT Chain Refused Whole\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n%sCONSTANTS MaxSize=%d MaxLen=%d Emitting=%s\n"
P8, DXT1 = 9, 10


def dim(d, i):
    return max(1, d >> i)


def size(f, w, h, i=0):
    w, h = dim(w, i), dim(h, i)
    return w * h * 4 if f <= 3 else w * h * 3 if f <= 5 else w * h * 2 if f <= 8 else w * h if f == P8 else max(1, w // 4) * max(1, h // 4) * (8 if f == DXT1 else 16)


def word(r):
    return r.choice([[0, 0], [0, 1], [0, 128], [0xffff, 0xffff], [r.randrange(65536), r.randrange(65536)]])


def dims(r, f, small=False):
    if f >= DXT1:
        return r.choice([1, 2, 4, 8] + ([] if small else [16])), r.choice([1, 2, 4, 8] + ([] if small else [16]))
    return r.choice([1, 2, 3, 4, 5, 7, 8] + ([] if small else [16, 9, 6])), r.choice([1, 2, 3, 4, 5, 7, 8] + ([] if small else [16, 9, 6]))


def levels(w, h):
    return max(w, h).bit_length()


def data(r, n, solid=False):
    if solid and n % 4 == 0:
        c = [r.choice([0, 255, r.randrange(256)]) for _ in range(3)] + [255]
        return c * (n // 4)
    return [r.choice([0, 255, r.randrange(256), r.randrange(256)]) for _ in range(n)]


def bytes_of(x):
    u = lambda n: list(struct.pack("<I", n))
    w = lambda p: list(struct.pack("<HH", p[1], p[0]))
    b = list(b"ZTEX") + u(0) + u(x["fmt"]) + u(x["w"]) + u(x["h"]) + u(x["mips"]) + w(x["rw"]) + w(x["rh"]) + w(x["avg"])
    if x["fmt"] == P8:
        for c in x["pal"]:
            b += [c[2], c[1], c[0], c[3]]
    for l in reversed(x["levels"]):
        b += l
    return b


def file_ops(r):
    f = r.randrange(15)
    w, h = dims(r, f)
    n = r.choice([0, 1, levels(w, h), levels(w, h) + 1, r.randrange(1, levels(w, h) + 1), min(3, levels(w, h))])
    x = {"fmt": f, "w": w, "h": h, "mips": n, "rw": word(r), "rh": word(r), "avg": word(r), "pal": [[r.randrange(256) for _ in range(4)] for _ in range(256)] if f == P8 else [],
         "levels": [data(r, size(f, w, h, i)) for i in range(max(1, n))]}
    after = data(r, r.choice([0, 0, 5]))
    b = bytes_of(x)
    bad = r.random() < .05
    if bad:
        b[r.randrange(8)] ^= r.choice([1, 32, 255])
    return [{"op": "file", "x": x, "bytes": b + after, "bad": bad, "after": after}], len(after), bad


def file_scn(r):
    s = []
    for _ in range(r.choice([1, 1, 2, 3])):
        o, left, bad = file_ops(r)
        s += o + [{"op": "load", "after": left}]
        if bad:
            continue
        if r.random() < .3:
            s.append({"op": "load", "after": left})
        if r.random() < .6:
            s += [{"op": "save"}, {"op": "load", "after": 0}]
    return s


def build_scn(r, pair=None):
    f, t = pair or (r.randrange(15), r.randrange(15))
    dxt = f >= DXT1 or t >= DXT1
    w, h = dims(r, DXT1 if dxt else f, True)
    s = [{"op": "builder", "w": w, "h": h}]
    n = r.choice([1, 2, levels(w, h), levels(w, h), levels(w, h) + 1])
    k = 0
    while k < n:
        g = f if r.random() < .8 or pair else r.randrange(15 if dxt else 10)
        m = size(g, w, h, k)
        if r.random() < .1:
            m = r.choice([m + 1, m - 1, m * 2, size(g, w, h, k + 1), 0, size((g + 4) % 10, w, h, k)])
        s.append({"op": "add", "fmt": g, "data": data(r, m, t >= DXT1 and r.random() < .6)})
        k += m == size(g, w, h, k)
    s.append({"op": "build", "fmt": t})
    if build_ok(s):
        s += [{"op": "save"}, {"op": "load", "after": 0}]
        if r.random() < .3:
            s += [{"op": "build", "fmt": r.choice([t, r.randrange(9)])}]
    return s


def build_ok(s):
    t = s[-1]["fmt"]
    w, h, k, fs = s[0]["w"], s[0]["h"], 0, []
    for o in s[1:-1]:
        if len(o["data"]) == size(o["fmt"], w, h, k):
            fs.append(o["fmt"])
            k += 1
    ok = lambda f: f == t or (f in (0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 14) and t in (0, 1, 2, 3, 4, 5, 8, 10, 12, 14))
    return t != P8 and k > 0 and all(ok(f) for f in fs)


def fill(r, s):
    out = []
    for o in s:
        o = dict(o)
        if o["op"] == "add":
            o["data"] = data(r, o.pop("size"))
        if o["op"] == "load":
            o["after"] = 0
        out.append(o)
    return out


def run_T01(c):
    build("drv_texture")
    r, q = c.rng, c.tier == "quick"
    ms = c.scenarios_from(c.model("MC_Texture", MC % ("ACTION_CONSTRAINT Emit\n", 2, 5, "TRUE"), "all histories of five steps of building, saving and loading textures of up to 2x2", workers=1))
    c.model("MC_Texture", MC % ("", 9 if q else 17, 5, "FALSE"), "all sizes up to %d" % (9 if q else 17))
    if not q:
        c.model("MC_Texture", MC % ("", 2, 6, "FALSE"), "all histories of six steps of building, saving and loading textures of up to 2x2")
    c.cov["model_scenarios_available"] = len(ms)
    k = 1 if q else 8
    scns = [fill(r, m) for m in pick(r, ms, 1200 * k)]
    scns += [file_scn(r) for _ in range(600 * k)]
    scns += [build_scn(r, (f, t)) for f in range(15) for t in range(15) for _ in range(2 * k)] + [build_scn(r) for _ in range(400 * k)]
    traces = c.drive("drv_texture", scns)
    c.sample(*[t[:2] for t in traces[:1] if t])
    c.validate("Trace_Texture", traces, scenarios=scns, driver="drv_texture")


RUN = {"T01": run_T01}

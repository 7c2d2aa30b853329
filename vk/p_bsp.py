"""B01: BSP trees and meshes."""
import struct
from vk.core import *
from vk import p_objects as po

MC = "SPECIFICATION MCSpec\nINVARIANT Linked Leaves Readable Fans\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n%sCONSTANTS MaxNodes=%d MaxLen=%d Kind=\"%s\" Emitting=%s\n"


def w(r):
    return [r.randrange(65536), r.randrange(65536)] if r.random() < .7 else r.choice([[0, 0], [0, 1], [0xffff, 0xffff], [0x7f80, 0], [0x8000, 0], [0x7fc0, 1]])


def ws(r, n):
    return [w(r) for _ in range(n)]


def i32(r, n):
    return [0, r.randrange(n)] if r.random() < .8 else w(r)


def some(r, f, k=(0, 1, 1, 2, 3, 7)):
    return [f() for _ in range(r.choice(k))]


# ---- bytes (checked against the specification when the trace is validated)
def u16(n): return list(struct.pack("<H", n & 0xffff))
def u32(n): return list(struct.pack("<I", n))
def wb(x): return u16(x[1]) + u16(x[0])
def wsb(s): return [b for x in s for b in wb(x)]
def chunk(i, d): return u16(i) + u32(len(d)) + d


def flatten(n, out, parent=-1):
    me = len(out)
    e = {"n": n, "front": -1, "back": -1, "leaf": not n["front"] and not n["back"]}
    out.append(e)
    for k in ("front", "back"):
        if n[k]:
            e[k] = flatten(n[k][0], out, me)
    return me


def tree_bytes(t, parts, g):
    ns = []
    for x in t["root"]:
        flatten(x, ns)
    out = []
    for p in parts:
        k, x = p["k"], p["extra"]
        if k == "header":
            out += chunk(0xC000, u16(2) + u32(t["mode"]) + x)
        elif k == "polygons":
            out += chunk(0xC010, u32(len(t["polys"])) + wsb(t["polys"]) + x)
        elif k == "tree":
            d = u32(len(ns)) + u32(sum(e["leaf"] for e in ns))
            for e in ns:
                n = e["n"]
                d += wsb(n["bbox"]) + u32(n["pi"]) + u32(n["pc"])
                if not e["leaf"]:
                    f = 0 if e["front"] < 0 else 5 if ns[e["front"]]["leaf"] else 1
                    b = 0 if e["back"] < 0 else 10 if ns[e["back"]]["leaf"] else 2
                    d += [f + b] + wb(n["plane"][3]) + wsb(n["plane"][:3]) + ([n["lod"]] if g == 1 else [])
            out += chunk(0xC040, d + x)
        elif k == "light":
            out += chunk(0xC045, [b for p3 in t["lights"] for b in wsb(p3)] + x)
        elif k == "outdoors":
            d = u32(len(t["sectors"]))
            for s in t["sectors"]:
                d += s["name"] + [10] + u32(len(s["nodes"])) + u32(len(s["portals"])) + wsb(s["nodes"]) + wsb(s["portals"])
            out += chunk(0xC050, d + u32(len(t["portals"])) + wsb(t["portals"]) + x)
        elif k == "end":
            out += chunk(0xC0FF, [66] + x)
        else:
            out += chunk(p["id"], x)
    return out


def obb_bytes(b):
    d = wsb(b["center"]) + wsb(b["axes"]) + wsb(b["half"]) + u16(len(b["kids"]))
    for k in b["kids"]:
        d += obb_bytes(k)
    return d


def mesh_bytes(m, parts, g, wide):
    out = []
    img = lambda i: list(b"ZTEX") + u32(0) + u32(1) + u32(i["w"]) + u32(i["h"]) + u32(1) + u32(i["w"]) + u32(i["h"]) + u32(0) + i["data"]
    mp = lambda l: wsb(l["o"]) + wsb(l["n"])
    for p in parts:
        k, x = p["k"], p["extra"]
        if k == "marker":
            out += chunk(0xB000, u16(9 if g == 1 else 265) + wb(m["date"][0]) + [b for v in m["date"][1:] for b in u16(v)] + u16(0) + m["name"] + [10] + x)
        elif k == "bbox":
            out += chunk(0xB010, wsb(m["bbox"]) + obb_bytes(m["obb"]) + x)
        elif k == "own_maps":
            out += chunk(0xB025, u32(len(m["maps"])) + [b for l in m["maps"] for b in mp(l) + img(m["imgs"][l["img"] - 1])] + x)
        elif k == "shared_maps":
            out += chunk(0xB026, u32(len(m["imgs"])) + [b for i in m["imgs"] for b in img(i)] + u32(len(m["maps"])) + [b for l in m["maps"] for b in mp(l) + u32(l["img"] - 1)] + x)
        elif k == "vertices":
            out += chunk(0xB030, u32(len(m["verts"])) + [b for v in m["verts"] for b in wsb(v)] + x)
        elif k == "features":
            out += chunk(0xB040, u32(len(m["feats"])) + [b for f in m["feats"] for b in wsb(f["t"]) + wb(f["l"]) + wsb(f["n"])] + x)
        elif k == "polygons":
            d = u32(len(m["polys"]))
            for q in m["polys"]:
                f = q["fl"]
                low = f["portal"] + 4 * f["occluder"] + 8 * f["sector"] + 32 * f["outdoor"] + 64 * f["ghost"]
                fb = [low + 16 * f["relight"] + 128 * f["dynlit"]] if g == 2 else [low + 16 * f["lod"] + 128 * (f["axis"] % 2), f["axis"] // 2]
                d += u16(q["m"]) + u16(q["lm"]) + wb(q["d"]) + wsb(q["n"]) + fb + u16(f["index"]) + [q["cnt"]]
                for j in range(q["off"], q["off"] + q["cnt"]):
                    d += (wb(m["vi"][j]) if g == 2 or wide else u16(m["vi"][j][1])) + wb(m["fi"][j])
            out += chunk(0xB050, d + x)
        elif k == "end":
            out += chunk(0xB060, x)
        else:
            out += chunk(p["id"], x)
    return out


# ---- random trees and meshes
def node(r, npolys, budget):
    pi = r.randrange(npolys + 1)
    n = {"front": [], "back": [], "pi": pi, "pc": r.randrange(min(4, npolys - pi) + 1), "lod": r.choice([0, 1, 2, 255]), "plane": ws(r, 4), "bbox": ws(r, 6)}
    if budget > 1:
        k = r.random()
        a = r.randrange(1, budget) if budget > 2 else 1
        if k < .6 and budget > 2:
            n["front"], n["back"] = [node(r, npolys, a)], [node(r, npolys, budget - 1 - a)] if budget - 1 - a > 0 else []
        elif k < .8:
            n["front"] = [node(r, npolys, budget - 1)]
        else:
            n["back"] = [node(r, npolys, budget - 1)]
    return n


def leaves(n):
    ks = n["front"] + n["back"]
    return sum(leaves(k) for k in ks) if ks else 1


def tree(r, polys=None):
    if polys is None:
        polys = [i32(r, 12) for _ in range(r.choice([0, 1, 3, 6, 12]))]
    root = [node(r, len(polys), r.choice([1, 1, 2, 3, 4, 6, 9, 14]))] if r.random() < .93 else []
    nl = sum(leaves(x) for x in root)
    return {"mode": r.choice([0, 1, 1, 2]), "root": root, "polys": polys, "lights": [ws(r, 3) for _ in range(nl)] if r.random() < .6 else [],
            "sectors": some(r, lambda: {"name": po.text(r), "nodes": some(r, lambda: i32(r, 9)), "portals": some(r, lambda: i32(r, 9))}), "portals": some(r, lambda: i32(r, 9))}


def obb(r, depth=2):
    return {"center": ws(r, 3), "axes": ws(r, 9), "half": ws(r, 3), "kids": [obb(r, depth - 1) for _ in range(r.choice([0, 1, 2]))] if depth else []}


def flags(r):
    b = lambda p=.5: int(r.random() < p)
    return {"portal": r.choice([0, 0, 0, 1, 2, 3]), "occluder": b(), "sector": b(), "relight": b(), "outdoor": b(.15), "ghost": b(.15), "dynlit": b(),
            "index": r.choice([0, 1, -1, 32767, -32768, r.randrange(-32768, 32768)]), "lod": b(), "axis": r.randrange(4)}


def material(r, K):
    g = po.Gen(r, K, small=True)
    f = g.objs[g.mk("zCMaterial") - 1]["f"]
    return {k: v for k, v in f.items() if k not in ("scale_txt", "dir_txt")}


def mesh(r, K, g=0):
    nmap = r.choice([0, 1, 2, 4])
    imgs = []
    for _ in range(r.choice([1, 2, 3])):
        iw, ih = r.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        imgs.append({"w": iw, "h": ih, "data": [r.randrange(256) for _ in range(4 * iw * ih)]})
    np_ = r.choice([0, 1, 2, 4, 8])
    cnts = [r.choice([0, 1, 2, 3, 3, 4, 5, 7]) if r.random() < .98 else 255 for _ in range(np_)]
    total = sum(cnts) + r.choice([0, 0, 3])
    vi = [[0, r.choice([0, 1, 65535, r.randrange(65536)])] if g == 1 or r.random() < .5 else w(r) for _ in range(total)]
    polys, off = [], 0
    for c in cnts:
        o = off if r.random() < .8 else r.randrange(total - c + 1)          # corners may be shared
        polys.append({"m": r.choice([0, 1, 65535, r.randrange(65536)]), "lm": r.choice([-1, 0, 1, 32767, -32768]), "d": w(r), "n": ws(r, 3), "fl": flags(r), "cnt": c, "off": o})
        off += c
    return {"date": [w(r)] + [r.randrange(65536) for _ in range(5)], "name": po.text(r), "bbox": ws(r, 6), "obb": obb(r, r.choice([0, 0, 1, 3])), "mats": [material(r, K) for _ in range(r.choice([0, 1, 2, 4]))],
            "verts": some(r, lambda: ws(r, 3)), "feats": some(r, lambda: {"t": ws(r, 2), "l": w(r), "n": ws(r, 3)}),
            "maps": [{"img": r.randrange(len(imgs)) + 1, "n": ws(r, 6), "o": ws(r, 3)} for _ in range(nmap)], "imgs": imgs if nmap else [], "polys": polys, "vi": vi, "fi": [w(r) for _ in range(total)]}


KNOWN_T = {0xC000, 0xC010, 0xC040, 0xC050, 0xC045, 0xC0FF}
KNOWN_M = {0xB000, 0xB010, 0xB020, 0xB025, 0xB026, 0xB030, 0xB040, 0xB050, 0xB060}


def parts(r, must, order, end, known):
    ps = [k for k in order if k in must or r.random() < .75]
    out = []
    for k in ps:
        if r.random() < .15:
            i = r.choice([0, 0xffff, r.randrange(65536)])
            if i not in known:
                out.append({"k": "unknown", "id": i, "extra": [r.randrange(256) for _ in range(r.choice([0, 1, 5, 30]))]})
        out.append({"k": k, "id": 0, "extra": [r.randrange(256) for _ in range(r.choice([1, 4, 13]))] if r.random() < .15 else []})
    if end:
        out.append({"k": "end", "id": 0, "extra": []})
    return out


def tree_file(r, g, t=None, end=True):
    t = t or tree(r)
    n = sum(leaves(x) for x in t["root"])
    order = ["header", "polygons", "tree"]
    if len(t["lights"]) == n:
        order.append("light")
    order.insert(r.randrange(len(order) + 1), "outdoors")
    ps = parts(r, {"polygons", "tree"}, order, end, KNOWN_T)
    if not t["root"] or r.random() < .05:
        ps = [p for p in ps if p["k"] not in ("tree", "light")] if r.random() < .5 else ps
    return {"op": "tree_file", "t": t, "parts": ps, "v": g, "bytes": tree_bytes(t, ps, g)}


def mesh_file(r, K, g, wide, m=None, end=True):
    m = dict(m or mesh(r, K, 0 if wide or g == 2 else 1), mats=[])
    order = ["bbox", "vertices", "features", "polygons"]
    if m["imgs"]:
        order.append(r.choice(["own_maps", "shared_maps"]))
    r.shuffle(order)
    ps = parts(r, {"marker"}, ["marker"] + order, end, KNOWN_M)
    return {"op": "mesh_file", "m": m, "parts": ps, "v": g, "wide": wide, "bytes": mesh_bytes(m, ps, g, wide)}


def after(r):
    return [r.randrange(256) for _ in range(r.choice([0, 0, 1, 6, 20]))]


def listed(r):
    if r.random() < .1:
        return []
    s = [i for i in range(10) if r.random() < .7] + ([r.randrange(10) for _ in range(3)] if r.random() < .3 else [])
    s = sorted(s)
    return [[[0, i] for i in s] + ([[0, 65535], [1, 0]] if r.random() < .3 else [])]


def tree_scn(r):
    s = []
    for _ in range(r.choice([1, 2, 3])):
        g = r.choice([1, 2])
        if r.random() < .5:
            if r.random() < .8 or not s:
                s.append({"op": "tree_set", "t": tree(r)})
            s.append({"op": "tree_save", "v": g})
            end = True
        else:
            end = r.random() < .9
            s.append(tree_file(r, g, end=end))
        for _ in range(r.choice([1, 1, 2])):
            s.append({"op": "tree_load", "v": g, "after": after(r) if end else []})
    return s


def mesh_scn(r, K):
    s = []
    safe = False                                          # whether the mesh in memory fits into files of Gothic 1
    for _ in range(r.choice([1, 2, 3])):
        g = r.choice([1, 2])
        wide = False
        if r.random() < .5:
            if r.random() < .8 or not safe:
                s.append({"op": "mesh_set", "m": mesh(r, K, 1)})
                safe = True
            s.append({"op": "mesh_save", "v": g})
            end = True
        else:
            wide = g == 1 and r.random() < .4
            end = r.random() < .9
            s.append(mesh_file(r, K, g, wide, end=end))
            safe = False
        for _ in range(r.choice([1, 1, 2])):
            s.append({"op": "mesh_load", "v": g, "wide": wide if g == 1 else r.random() < .3, "listed": listed(r), "after": after(r) if end else []})
            safe = safe and True
    return s


def world_scn(r, K):
    s = []
    for _ in range(r.choice([1, 1, 2])):
        g = r.choice([1, 2])
        m = mesh(r, K, 1)
        t = tree(r, [[0, r.randrange(len(m["polys"]) + 2)] for _ in range(r.choice([0, 2, 6, 12]))])
        if r.random() < .5:
            s += [{"op": "tree_set", "t": t}, {"op": "mesh_set", "m": m}, {"op": "world_save", "v": g, "fmt": r.choice(po.FMTS)}]
        else:
            wide = g == 1 and r.random() < .5
            s += [tree_file(r, g, t), mesh_file(r, K, g, wide, m if not wide else None), {"op": "world_file", "v": g, "user": "XZEN" if wide else r.choice(["x", "XZE", "xzen"])}]
        s.append({"op": "world_load", "v": g, "detect": r.random() < .5})
    return s


def obb_scn(r):
    k = r.choice([2, 20, 300])
    n = lambda: r.randrange(-k, k + 1)
    return [{"op": "obb", "c": [n() for _ in range(3)], "a": [n() for _ in range(9)], "h": [n() for _ in range(3)]} for _ in range(5)]


def fill(r, s, K):
    """Scenarios of the model: what the model leaves out is filled in."""
    out, wide = [], False
    for o in s:
        o = dict(o)
        if o["op"] == "tree_file":
            o["bytes"] = tree_bytes(o["t"], o["parts"], o["v"])
        elif o["op"] == "tree_load":
            o["after"] = after(r)
        elif o["op"] == "mesh_load":
            o.update(listed=[sorted(o["listed"])], wide=False, after=after(r))
        out.append(o)
    return out


def run_B01(c):
    build("drv_mesh")
    K = po.kinds(c)
    r = c.rng
    q = c.tier == "quick"
    A = "ACTION_CONSTRAINT Emit\n"
    ms = c.scenarios_from(c.model("MC_Bsp", MC % (A, 3, 3, "tree", "TRUE"), "all histories of three steps over all trees of up to three nodes", workers=1))
    me = c.scenarios_from(c.model("MC_Bsp", MC % (A, 1, 3, "mesh", "TRUE"), "all meshes of up to two polygons, saved, loaded and triangulated against all lists", workers=1))
    c.model("MC_Bsp", MC % ("", 5 if q else 6, 3, "tree", "FALSE"), "all tree shapes of up to %d nodes, made or composed, saved and loaded" % (5 if q else 6))
    if not q:
        c.model("MC_Bsp", MC % ("", 2, 4, "tree", "FALSE"), "all histories of four steps over all trees of up to two nodes")
    c.cov["model_scenarios_available"] = len(ms) + len(me)
    k = 1 if q else 8
    scns = [fill(r, m, K) for m in pick(r, ms, 600 * k) + pick(r, me, 500 * k)]
    scns += [tree_scn(r) for _ in range(400 * k)] + [mesh_scn(r, K) for _ in range(400 * k)] + [world_scn(r, K) for _ in range(200 * k)] + [obb_scn(r) for _ in range(20 * k)]
    traces = c.drive("drv_mesh", scns)
    c.sample(*[t[:2] for t in traces[:1] if t])
    c.validate("Trace_Bsp", traces, scenarios=scns, driver="drv_mesh")


RUN = {"B01": run_B01}

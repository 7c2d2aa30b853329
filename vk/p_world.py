"""W01: worlds: object trees and way-nets."""
from vk.core import *
from vk import p_objects as po

MC = "SPECIFICATION MCSpec\nINVARIANT TreeRight LossRight PointsOnce\nCHECK_DEADLOCK FALSE\n%sCONSTANTS N=%d P=%d E1=%d Emitting=%s\n"
UNKNOWN = {"from": "zCVobSpot:zCVob", "to": "zCVobSpox:zCVob"}
TREE = ["zCVob", "zCVobLevelCompo", "oCItem", "zCVobSpot", "zCVobSpot", "zCVobStartpoint", "zCTrigger", "oCMobInter", "oCMobContainer", "zCVobSound", "zCVobLight", "zCVobAnimate", "zCZoneZFog", "oCNpc",
        "zCMover", "zCVobStair", "zCPFXController", "zCVobScreenFX", "oCTouchDamage"]


def way_net(r, objs, points, free, edges):
    """points: fields; free: flags; edges: pairs of 1-based positions"""
    first = len(objs) + 1
    for f, fr in zip(points, free):
        objs.append({"cls": "zCWaypoint", "f": {**f, "free_point": fr}})
    order = list(range(first, first + len(points)))
    objs.append({"cls": "zCWayNet", "f": {"points": order, "edges": [[first + a - 1, first + b - 1] for a, b in edges]}})
    return len(objs)


def point(r, name=None):
    return {"name": po.text(r) if name is None else name, "water_depth": po.anyint(r), "under_water": r.random() < .5,
            "position": [po.number(r) for _ in range(3)], "direction": [po.number(r) for _ in range(3)]}


def random_net(r, objs):
    if r.random() < .1:
        return 0
    n = r.choice([0, 1, 2, 3, 5, 8])
    edges = [[r.randint(1, n), r.randint(1, n)] for _ in range(r.choice([0, 1, 2, 4, 9]))] if n else []
    if edges and r.random() < .3:
        edges.append(r.choice(edges))
    used = {x for e in edges for x in e}
    free = [i not in used or r.random() < .3 for i in range(1, n + 1)]
    return way_net(r, objs, [point(r) for _ in range(n)], free, edges)


def owned(objs, K, keep):
    """Weak references do not keep what they refer to once the archive is gone: leave only those to objects in keep."""
    def rec(k, v):
        if isinstance(k, list):
            return [x for x in (rec(k[1], y) for y in v) if x != 0 or k[1] != "weak"]
        return v if k != "weak" or v in keep else 0
    for o in objs:
        for f in o["f"]:
            if f in K[o["cls"]]:
                o["f"][f] = rec(K[o["cls"]][f], o["f"][f])


def world(r, K, forge, save):
    g = po.Gen(r, K, small=True, share=0 if forge else .4, null=.6, depth=2, plain=r.random() < .7)
    forest = []
    nodes = []
    for _ in range(r.choice([0, 1, 2, 3, 6, 10])):
        cls = r.choice(TREE)
        i = g.mk(cls)
        g.objs[i - 1]["f"]["children"] = []
        if nodes and r.random() < .65:
            g.objs[r.choice(nodes) - 1]["f"]["children"].append(i)
        else:
            forest.append(i)
        nodes.append(i)
    npcs = [g.mk("oCNpc") for _ in range(r.choice([0, 0, 1, 2]))]
    if not forge:
        npcs += [i for i in g.by.get("oCNpc", []) if i not in npcs and r.random() < .3]
    spawns = [{"npc": r.choice([0, g.mk("oCNpc")] + npcs), "position": [po.number(r) for _ in range(3)], "timer": po.number(r)} for _ in range(r.choice([0, 0, 1, 2]))]
    player = g.mk("oCCSPlayer") if r.random() < .4 else 0
    sky = g.mk("zCSkyControler_Outdoor") if r.random() < .5 else 0
    objs = g.objs
    owned(objs, K, set() if forge else set(nodes) | set(npcs if save else []))
    net = random_net(r, objs)
    objs.append({"cls": "oCWorld", "f": {"world_vobs": forest, "way_net": net, "npcs": npcs, "npc_spawns": spawns, "npc_spawn_enabled": r.random() < .5,
                                         "npc_spawn_flags": po.anyint(r), "player": player, "sky_controller": sky}})
    return objs


def reads(r, k, forge):
    s = []
    if forge:
        s.append({"op": "forge", "cls": "zCVobSpot", **UNKNOWN})
    if not forge or r.random() < .5:
        s.append({"op": "read"})
    for _ in range(r.choice([1, 1, 2])):
        s.append({"op": "read_world", "detect": not k["save"] and r.random() < .5})
    return s


def no_world(r, K):
    """something else where a world is expected"""
    s = scenario(r, K, 1)
    objs = world(r, K, False, True)
    s += [{"op": "graph", "objs": objs}, {"op": "write", "roots": [r.choice([len(objs) - 1] + [i + 1 for i, o in enumerate(objs[:-1]) if o["cls"] != "zCWayNet"])], **po.conf(r)}]
    s += [{"op": "read_world", "detect": r.random() < .7}]
    save = r.random() < .5
    objs = world(r, K, False, save)
    k = po.conf(r, save=save)
    s += [{"op": "graph", "objs": objs}, {"op": "write", "roots": [len(objs)], **k}, {"op": "read_world", "detect": r.random() < .3}, {"op": "read_world", "detect": not k["save"]}]
    return s


def scenario(r, K, n=None):
    s = []
    for _ in range(n or r.choice([1, 1, 2])):       # one world after the other into the same object
        forge = r.random() < .4
        save = r.random() < .7
        objs = world(r, K, forge, save)
        s.append({"op": "graph", "objs": objs})
        for _ in range(r.choice([1, 2])):
            k = po.conf(r, save=save)
            s += [{"op": "write", "roots": [len(objs)], **k}] + reads(r, k, forge)
    return s


def from_model(r, m):
    n = len(m["parent"])
    objs = [{"cls": "zCVobSpot" if i + 1 in m["unknown"] else "zCVob", "f": {"vob_name": [65 + i], "children": [j + 1 for j in range(n) if m["parent"][j] == i + 1]}} for i in range(n)]
    net = way_net(r, objs, [point(r, [97 + j]) for j in range(len(m["free"]))], m["free"], [[a - m["first"] + 1, b - m["first"] + 1] for a, b in m["edges"]])
    objs.append({"cls": "oCWorld", "f": {"world_vobs": [j + 1 for j in range(n) if m["parent"][j] == 0], "way_net": net, "npcs": [], "npc_spawns": [], "npc_spawn_enabled": False,
                                         "npc_spawn_flags": [0, 0], "player": 0, "sky_controller": 0}})
    s = [{"op": "graph", "objs": objs}]
    for f in po.FMTS:
        k = po.conf(r, f)
        s += [{"op": "write", "roots": [len(objs)], **k}, {"op": "read"}, {"op": "forge", "cls": "zCVobSpot", **UNKNOWN}, {"op": "read_world", "detect": not k["save"] and r.random() < .5}]
    return s


def deep(r):
    """Long chains and bushes of objects below ones of unknown classes."""
    n = r.randint(4, 14)
    parent = [0]
    for i in range(1, n):
        k = r.random()
        parent.append(i if k < .55 else r.randint(1, i) if k < .9 else 0)
    return {"parent": parent, "unknown": [i + 1 for i in range(n) if r.random() < r.choice([.15, .5])], "free": [True], "edges": [], "first": n + 1}


# Cutscenes on the list of the player are referred to weakly, so they are gone as soon as the world is loaded
PLAYLIST = [{"op": "graph", "objs": [{"cls": "zCWayNet", "f": {}}, {"cls": "zCCSCutsceneContext", "f": {}}, {"cls": "oCCSPlayer", "f": {"playlists": [2]}},
                                     {"cls": "oCWorld", "f": {"way_net": 1, "player": 3}}]},
            {"op": "write", "roots": [4], "game": 2, "save": True, "pack": True, "fmt": "binsafe"}, {"op": "read"}, {"op": "read_world", "detect": False}]


def run_W01(c):
    K = po.kinds(c)
    q = c.tier == "quick"
    ms = c.scenarios_from(c.model("MC_World", MC % ("ACTION_CONSTRAINT Emit\n", 3, 2, 1, "TRUE"), "all forests of 3 objects, known or not, × all nets of 2 points and up to 1 edge", workers=1))
    ms += c.scenarios_from(c.model("MC_World", MC % ("ACTION_CONSTRAINT Emit\n", 1, 3, 2, "TRUE"), "one object, all nets of 3 points and up to 2 edges", workers=1))
    if not q:
        c.model("MC_World", MC % ("", 4, 2, 2, "FALSE"), "all forests of 4 objects × all nets of 2 points and up to 2 edges", timeout=800)
    c.cov["model_scenarios_available"] = len(ms)
    scns = [from_model(c.rng, m) for m in pick(c.rng, ms, 250 if q else 3000)]
    scns += [from_model(c.rng, deep(c.rng)) for _ in range(60 if q else 600)]
    scns += [scenario(c.rng, K) for _ in range(300 if q else 3000)]
    scns += [no_world(c.rng, K) for _ in range(40 if q else 400)]
    po.go(c, scns)
    c.probe("playlist", "drv_objects", "Trace_Objects", PLAYLIST)


RUN = {"W01": run_W01}

"""O01, A03: objects and object graphs in archives."""
import struct
from vk.core import *

FMTS = ["ascii", "binary", "binsafe"]
VISUALS = ["zCDecal", "zCMesh", "zCProgMeshProto", "zCParticleFX", "zCAICamera", "zCModel", "zCMorphMesh"]
NOT_ROOTS = {"oCWorld", "zCWayNet"}
# Enumerations and numbers that share bits with others when packed
LIMIT = {"sprite_camera_facing_mode": 3, "dynamic_shadows": 2, "anim_mode": 3, "sleep_mode": 3, "bias": 32, "spread_type": 5, "news_id": 201, "type": 256, "run_behaviour": 256, "run_behavior": 256,
         "s_mover_state": 256}
KINDS = None


def kinds(c):
    global KINDS
    if KINDS is None:
        build("drv_objects")
        KINDS = c.drive("drv_objects", [[{"op": "kinds"}]])[0][0]["classes"]
    return KINDS


def wordof(u):
    return [u >> 16 & 0xffff, u & 0xffff]


def fbits(x):
    return wordof(struct.unpack("<I", struct.pack("<f", x))[0])


def number(r):
    """A float whose decimal form with six digits after the point is exact."""
    k = r.choice([0, 1, -1, 64, -64, 3, 2 ** 24 - 1, 1 - 2 ** 24, r.randrange(-2 ** 24 + 1, 2 ** 24), r.randrange(-6400, 6400), r.randrange(-6400, 6400)])
    return fbits(k / 64)


def short_number(r):
    """A float that a handful of decimal digits express exactly."""
    return fbits(r.choice([0, 1, -1, 0.5, 0.25, 2.5, -0.75, 10, 99, 100, 1.125, 12.5, 0.0625]))


def anyint(r):
    return wordof(r.choice([0, 1, 2, 0xffffffff, 0x80000000, 0x7fffffff, 200, 512, 0x200 | r.randrange(512), r.randrange(1 << 32), r.randrange(1000), 65536]))


def text(r, exclude=b""):
    n = r.choice([0, 1, 1, 3, 8, 15, 30]) if r.random() < .98 else r.choice([127, 128, 255, 256, 300, 700])
    s = [r.choice([32, 35, 40, 41, 46, 47, 58, 61, 63, 65, 91, 93, 95, 97, 109, 122, 126, 59, 37, 200, 228, r.randrange(33, 127)]) for _ in range(n)]
    s = [x for x in s if x not in exclude]
    if r.random() < .1:
        s = list(r.choice([b"[]", b"[% 0 0]", b"CHEST.ASC", b"FIRE.pfx", b"string:x", b"[a zCVob 1 2]"]))
    return [x for x in s if x not in exclude]


class Gen:
    """Builds graphs of objects: mk(cls) adds an object with random fields and returns its number."""

    def __init__(self, r, kinds, small=False, share=.3, null=.3, depth=3, plain=False, bias=.5, long=.03):
        self.bias, self.long = bias, long           # probability of true; of a long list
        self.r, self.kinds, self.objs, self.small, self.share, self.null, self.depth, self.plain = r, kinds, [], small, share, null, depth, plain
        self.by = {}

    def ref(self, classes, depth, null=None):
        r = self.r
        if r.random() < (self.null if null is None else null):
            return 0
        have = [i for k in classes for i in self.by.get(k, [])]
        if have and self.share and (r.random() < self.share or depth <= 0):
            return r.choice(have)
        if depth <= 0:
            return 0
        return self.mk(r.choice(classes), depth - 1)

    def targets(self, cls, field):
        return {"visual": VISUALS, "ai": ["oCAIHuman", "oCAIVobMove"], "event_manager": ["zCEventManager"], "cutscene": ["zCCSCutsceneContext"],
                "npc": ["oCNpc"], "main_role": ["oCNpc"], "vob": ["zCVob", "oCItem", "oCNpc"], "owner": ["oCNpc", "zCVob"], "carry_vob": ["oCItem", "zCVob", "oCNpc"],
                "enemy": ["oCNpc", "zCVob"], "talents": ["oCNpcTalent"], "items": ["oCItem"], "s_items": ["oCItem"], "s_other_vob": ["zCVob", "oCNpc", "oCItem", "zCTrigger"],
                "trajectory_frames": ["zCCamTrj_KeyFrame"], "target_frames": ["zCCamTrj_KeyFrame"], "message": ["oCMsgConversation"],
                "block": ["zCCSAtomicBlock", "zCCSAtomicBlock", "zCCSBlock"], "blocks": ["zCCSBlock"], "props": ["zCCSProps"],
                "alt_stage": ["zCVob", "oCItem"], "stage": ["zCVob"], "playlists": ["zCCSCutsceneContext"], "pool_items": ["zCCSPoolItem"]}.get(field)

    def value(self, kind, cls, field, depth):
        r = self.r
        if isinstance(kind, list):
            if kind[0] == "arr":
                return [self.value(kind[1], cls, field, depth) for _ in range(kind[2])]
            n = r.choice([0, 0, 1, 2, 3, 4]) if not self.small else r.choice([0, 1, 2])
            if field in ("slaves", "targets") and r.random() < .05 and not self.small:
                n = r.choice([9, 10, 11, 30])
            if not self.small and r.random() < self.long:
                n = r.choice([5, 7, 8, 9, 16, 17, 33] + ([65, 130, 257] if kind[1] not in ("ref", "weak", "news", "slot", "rigid") else []))
            return [self.value(kind[1], cls, field, depth) for _ in range(n)]
        if kind == "bool":
            return r.random() < self.bias
        if self.bias in (0, 1) and kind in ("enum", "int", "byte") and r.random() < .9:
            top = LIMIT.get(field, {"enum": 6, "byte": 256, "int": 1 << 32}[kind]) - 1
            v = 0 if self.bias == 0 else top
            return v if kind == "byte" else wordof(v)
        if kind == "float":
            return short_number(r) if field in ("range_animation_scale", "texture_scale", "texture_anim_map_dir") else number(r)
        if kind == "str":
            return text(r, b";" if field == "packed" else b"")
        if kind == "enum":
            return wordof(r.randrange(LIMIT.get(field, 6)))
        if kind == "int":
            return wordof(r.randrange(LIMIT[field])) if field in LIMIT else anyint(r)
        if kind == "byte":
            return r.randrange(LIMIT.get(field, 256))
        if kind == "color":
            return [r.randrange(256) for _ in range(4)]
        if kind in ("ref", "weak"):
            t = self.targets(cls, field)
            # lists of objects have no holes, except the inventory of NPCs
            return self.ref(t, depth, 0 if isinstance(self.kinds[cls][field], list) and field not in ("items", "s_items") else None)
        if kind == "target":
            return {"name": text(r), "delay": number(r)}
        if kind == "news":
            return {"told": r.random() < .5, "spread_time": number(r), "spread_type": wordof(r.randrange(5)), "news_id": wordof(r.choice([1, 2, 195, 200])),
                    "gossip": r.random() < .5, "guild_victim": r.random() < .5, "witness_name": text(r), "offender_name": text(r), "victim_name": text(r)}
        if kind == "slot":
            return {"used": r.random() < .6, "name": text(r), "item": self.ref(["oCItem"], depth), "in_inventory": r.random() < .5}
        if kind == "rigid":
            return [] if r.random() < .5 else [{"vel": [number(r) for _ in range(3)], "mode": r.randrange(256), "gravity_enabled": r.random() < .5,
                                                "gravity_scale": number(r), "slide_direction": [number(r) for _ in range(3)]}]
        raise CheckError("no generator for %s" % kind)

    def mk(self, cls, depth=None):
        depth = self.depth if depth is None else depth
        o = {"cls": cls, "f": {}}
        self.objs.append(o)
        me = len(self.objs)
        self.by.setdefault(cls, []).append(me)
        if self.plain and cls == "oCNpc":          # a small one: NPCs have more than a hundred values
            o["f"] = {"items": [self.ref(["oCItem"], depth) for _ in range(self.r.randrange(3))]}
        for f, k in self.kinds[cls].items():
            if f in ("children",) or f in o["f"]:
                continue
            if self.plain and not ("ref" in json.dumps(k) or "weak" in json.dumps(k) or f in ("vob_name", "name", "physics_enabled", "visual_name", "is_static")):
                continue
            if self.plain and f in ("carry_vob", "enemy") and depth <= 1:
                o["f"][f] = self.ref(self.targets(cls, f), 0)
                continue
            o["f"][f] = self.value(k, cls, f, depth)
        if cls == "zCCSCamera":
            o["f"]["position_count"], o["f"]["target_count"] = wordof(len(o["f"]["trajectory_frames"])), wordof(len(o["f"]["target_frames"]))
        if cls == "oCItem" and (o["f"].get("ai") or o["f"].get("event_manager")) and "s_flags" in o["f"]:
            # whether a short key follows an item depends on its flags, which are not known yet to an NPC that is stored within the item
            o["f"]["s_flags"] = [o["f"]["s_flags"][0], o["f"]["s_flags"][1] & ~0x200]
        if cls == "zCCSLib":                       # libraries are sorted by name when loaded
            named = {}
            for i in o["f"]["blocks"]:
                named.setdefault(tuple(self.objs[i - 1]["f"]["name"]), i)
            o["f"]["blocks"] = [named[n] for n in sorted(named)]
        return me


def conf(r, fmt=None, game=None, save=None, pack=None):
    return {"game": r.choice([1, 2]) if game is None else game, "save": r.random() < .6 if save is None else save,
            "pack": r.random() < .7 if pack is None else pack, "fmt": fmt or r.choice(FMTS)}


def stores(roots, *confs):
    s = []
    for k in confs:
        s += [{"op": "write", "roots": roots, **k}, {"op": "read"}]
    return s


def go(c, scns):
    traces = c.drive("drv_objects", scns)
    c.validate("Trace_Objects", traces, "", scns, "drv_objects")
    for t in traces[-2:]:
        if t:
            c.sample([{k: e.get(k) for k in ("op", "game", "save", "pack", "fmt", "res", "count") if k in e} for e in t])


def run_O01(c):
    K = kinds(c)
    q = c.tier == "quick"
    scns = []
    all8 = [(g, s, p) for g in (1, 2) for s in (False, True) for p in (False, True)]
    for cls in sorted(K):
        if cls in NOT_ROOTS:
            continue
        # every class, every combination of game, save-game and packing; each format in turn
        for _ in range(2 if q else 10):
            g = Gen(c.rng, K, depth=1, null=.3, bias=c.rng.choice([0, .5, 1]))
            root = g.mk(cls)
            fs = [c.rng.choice(FMTS) for _ in all8]
            scns.append([{"op": "graph", "objs": g.objs}] + stores([root], *[conf(c.rng, f, *k) for f, k in zip(fs, all8)]))
        for i in range(7 if q else 25):
            g = Gen(c.rng, K, depth=1, null=.5, bias=[0, 1, .5][i % 3 if i < 3 else 2], long=[.03, .03, .03, .3][i % 4])
            root = g.mk(cls)
            scns.append([{"op": "graph", "objs": g.objs}] + stores([root], *[conf(c.rng, f) for f in FMTS]))
    c.model("MC_Objects", MC % ("", 2, "FALSE"), "all graphs of two objects and their AI objects")
    c.cov["classes"] = len(K) - len(NOT_ROOTS)
    go(c, scns)


MC = "SPECIFICATION MCSpec\nINVARIANT Once Complete Earlier Faithful\nCHECK_DEADLOCK FALSE\n%sCONSTANTS N=%d Emitting=%s\n"


def from_model(r, m):
    """A graph of the model as a scenario: objects of the world with AI objects that refer to two of them."""
    n = len(m["refs"])
    objs = [{"cls": "zCVob", "f": {"ai": n + i + 1, "vob_name": [65 + i]}} for i in range(n)]
    objs += [{"cls": "oCAIVobMove", "f": {"vob": a, "owner": b}} for a, b in m["refs"]]
    return [{"op": "graph", "objs": objs}] + stores(m["roots"], *[conf(r, f, pack=m["pack"]) for f in FMTS])


def run_A03(c):
    K = kinds(c)
    q = c.tier == "quick"
    ms = c.scenarios_from(c.model("MC_Objects", MC % ("ACTION_CONSTRAINT Emit\n", 2, "TRUE"), "all graphs of two objects and their AI objects", workers=1))
    c.cov["model_scenarios_available"] = len(ms)
    if not q:
        c.model("MC_Objects", MC % ("", 3, "FALSE"), "all graphs of three objects and their AI objects", timeout=800)
    scns = [from_model(c.rng, m) for m in pick(c.rng, ms, 300 if q else 2000)]
    # graphs of three such objects, at random
    for _ in range(100 if q else 2000):
        m = {"refs": [[c.rng.randrange(4), c.rng.randrange(4)] for _ in range(3)], "roots": [c.rng.randrange(7) for _ in range(c.rng.randrange(1, 4))], "pack": c.rng.random() < .5}
        scns.append(from_model(c.rng, m))
    for i in range(400 if q else 4000):
        r = c.rng
        g = Gen(r, K, small=True, share=r.choice([.3, .6, .9]), null=r.choice([.1, .3, .6]), depth=r.choice([2, 3, 4]), plain=True)
        n = r.choice([1, 2, 3, 4])
        cls = ["zCVob", "oCItem", "oCNpc", "zCTrigger", "zCMover", "oCMobContainer", "zCCSCutsceneContext", "zCCSBlock", "zCCSLib", "oCCSPlayer", "zCVobLight", "oCAIVobMove", "zCCSCamera"]
        roots = []
        for _ in range(n):
            if g.objs and r.random() < .3:
                roots.append(r.choice([0, r.randrange(1, len(g.objs) + 1)]))
            elif len(g.objs) < 60:
                roots.append(g.mk(r.choice(cls)))
        scns.append([{"op": "graph", "objs": g.objs}] + stores(roots, *[conf(r, f) for f in r.sample(FMTS, 2)]))
    go(c, scns)


RUN = {"O01": run_O01, "A03": run_A03}

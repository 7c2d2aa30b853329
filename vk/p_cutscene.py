"""C01: cutscene libraries."""
from vk.core import *
from vk import p_objects as po

MC = "SPECIFICATION CSpec\nINVARIANT FoundIffThere Replaced\nCHECK_DEADLOCK FALSE\n%sCONSTANTS MaxLen=%d MaxBlocks=%d Emitting=%s\n"


def library(r, K, names, nested=.2):
    """A library with a block per name, in the order given; two blocks of the same name are alike."""
    g = po.Gen(r, K, small=True, share=.1, null=.1, depth=2)
    same, blocks = {}, []
    shared = {tuple(n): r.random() < .5 for n in names}
    for n in names:
        if tuple(n) in same and shared[tuple(n)]:
            blocks.append(same[tuple(n)])                      # the very same object twice
            continue
        msg = {"cls": "oCMsgConversation", "f": {"type": po.wordof(r.randrange(6)), "text": po.text(r), "name": po.text(r)}}
        if tuple(n) in same:
            msg = g.objs[same[tuple(n)] - 3]
        g.objs.append(msg)
        g.objs.append({"cls": "zCCSAtomicBlock", "f": {"message": len(g.objs) if r.random() < .95 or tuple(n) in same else 0}})
        if tuple(n) in same:
            g.objs[-1]["f"]["message"] = len(g.objs) - 1 if g.objs[same[tuple(n)] - 2]["f"]["message"] else 0
        g.objs.append({"cls": "zCCSBlock", "f": {"name": n, "block": len(g.objs)}})
        me = len(g.objs)
        if tuple(n) not in same and names.count(n) == 1 and r.random() < nested:
            g.objs.append({"cls": "zCCSBlock", "f": {"name": po.text(r) if r.random() < .5 else n, "block": me}})
            g.objs[-1]["f"]["name"], g.objs[me - 1]["f"]["name"] = n, g.objs[-1]["f"]["name"]
            me = len(g.objs)
        same.setdefault(tuple(n), me)
        blocks.append(me)
    g.objs.append({"cls": "zCCSLib", "f": {"blocks": blocks}})
    return g.objs


def load(r, K, names, nested=.2):
    objs = library(r, K, names, nested)
    s = [{"op": "graph", "objs": objs}]
    s += [{"op": "write", "roots": [len(objs)], **po.conf(r)}, {"op": "read_lib"}]
    if r.random() < .15:
        s += [{"op": "read_lib"}]
    if r.random() < .3:
        s += [{"op": "read"}]
    return s


def from_model(r, K, h):
    s = []
    for o in h:
        s += [dict(o)] if o["op"] == "find" else load(r, K, r.sample(o["names"], len(o["names"])), 0)
    return s


def near(r, n):
    n = list(n)
    k = r.randrange(6)
    if k == 0:
        return n[:-1]
    if k == 1:
        return n + [r.randrange(32, 256)]
    if k == 2 and n:
        i = r.randrange(len(n))
        return n[:i] + [n[i] ^ 32 if n[i] >= 64 else n[i]] + n[i + 1:]
    if k == 3 and n:
        return n[:-1] + [min(255, n[-1] + 1)]
    return n


def random_scn(r, K):
    s = []
    old = []
    for _ in range(r.choice([1, 2, 3])):
        names = []
        for _ in range(r.choice([0, 1, 2, 3, 7, 20])):
            x = r.random()
            names.append(r.choice(names) if names and x < .1 else near(r, r.choice(names)) if names and x < .4 else
                         list(b"DIA_") + po.text(r, b"\n") if x < .8 else po.text(r))
        s += load(r, K, names)
        for _ in range(r.randrange(8)):
            pool = names + old
            s.append({"op": "find", "name": near(r, r.choice(pool)) if pool and r.random() < .85 else po.text(r)})
        old = old + names
    return s


def run_C01(c):
    K = po.kinds(c)
    q = c.tier == "quick"
    ms = c.scenarios_from(c.model("MC_Cutscene", MC % ("ACTION_CONSTRAINT Emit\n", 3, 2, "TRUE"), "all histories of three loads or lookups, libraries of up to two of seven names", workers=1))
    if q:
        c.model("MC_Cutscene", MC % ("", 2, 7, "FALSE"), "all libraries of seven names, all lookups")
    else:
        c.model("MC_Cutscene", MC % ("", 4, 3, "FALSE"), "all histories of four loads or lookups, libraries of up to three of seven names", timeout=800)
        c.model("MC_Cutscene", MC % ("", 3, 7, "FALSE"), "all libraries of seven names, three loads or lookups", timeout=800)
    c.cov["model_scenarios_available"] = len(ms)
    scns = [from_model(c.rng, K, m) for m in pick(c.rng, ms, 1500 if q else 10000)]
    scns += [random_scn(c.rng, K) for _ in range(400 if q else 4000)]
    po.go(c, scns)


RUN = {"C01": run_C01}

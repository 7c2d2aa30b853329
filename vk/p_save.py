"""G01: save-games."""
from vk.core import *
from vk import p_objects as po
from vk import p_world as pw

MC = "SPECIFICATION MCSpec\nINVARIANT WorldsKept\nPROPERTY Local LoadedIsSaved\nCHECK_DEADLOCK FALSE\n%sCONSTANTS NSlots=%d NGames=%d MaxLen=%d Faults=%s Emitting=%s\n"
NAMES = ["A", "B", "WORLD", "OLDMINE", "ADDON.WORLD"]


def contents(r, world):
    t, i = po.text, po.anyint
    meta = {"title": t(r), "world": world, "time_day": i(r), "time_hour": i(r), "time_minute": i(r), "save_date": t(r), "version_major": i(r), "version_minor": i(r),
            "play_time_seconds": i(r), "version_point": i(r), "version_int": i(r), "version_app_name": t(r)}
    n = lambda: range(r.choice([0, 0, 1, 2, 3, 12]))
    item = lambda: {"name": t(r), "run_behavior": po.wordof(r.randrange(3)), "run_behavior_value": i(r), "times_played": i(r), "deactivated": i(r), "flags": i(r)}
    state = {"day": i(r), "hour": i(r), "minute": i(r), "missions": [{"name": t(r), "id": i(r), "available": r.random() < .5, "status_index": i(r)} for _ in n()],
             "manager": [[item() for _ in n()]] if r.random() < .6 else [], "infos": [{"name": t(r), "told": r.random() < .5} for _ in n()],
             "symbols": [{"name": t(r), "values": [i(r) for _ in range(r.choice([1, 1, 1, 2, 5, r.choice([8, 15, 16, 17, 31, 33, 64])]))]} for _ in n()],
             "log": [{"description": t(r), "section": po.wordof(r.randrange(2)), "status": po.wordof(r.randrange(5)), "entries": [t(r) for _ in n()]} for _ in n()],
             "guilds": [[a, b, r.choice([1, 2, 15, 16, 200, 255])] for a, b in sorted({(r.choice([0, 1, 41, r.randrange(42)]), r.choice([0, 1, 41, r.randrange(42)])) for _ in range(r.choice([0, 2, 6]))})]}
    w, h = r.choice([(4, 2), (2, 2), (1, 1), (8, 4)])
    thumb = [{"w": w, "h": h, "data": [r.randrange(256) for _ in range(w * h * 2)]}] if r.random() < .5 else []
    return {"meta": meta, "state": state, "thumb": thumb}


def a_world(r, K):
    objs = pw.world(r, K, False, True) if r.random() < .15 else [{"cls": "zCVob", "f": {"vob_name": po.text(r)}}, {"cls": "zCWayNet", "f": {}}, {"cls": "oCWorld", "f": {"world_vobs": [1], "way_net": 2}}]
    return {"objs": objs, "roots": [len(objs)]}


def concrete(r, K, h):
    """A history of the model (or a random one) with contents, worlds and ways to write the slots filled in."""
    g = r.choice([1, 2])
    s = []
    for o in h:
        o = dict(o)
        if o["op"] == "new":
            o["game"] = g
        elif o["op"] == "set":
            o.update(contents(r, o.get("world") or r.choice(["A", "B"])))
        elif o["op"] == "save":
            o.update(a_world(r, K))
            o["spell"] = r.choice([0, 0, 0, 1, 2, 3, 4])
        elif o["op"] == "load":
            o["spell"] = r.choice([0, 0, 0, 1, 2, 3, 4])
        elif o["op"] == "world":
            o["ext"] = r.choice([".ZEN", ".ZEN", ".SAV", ".zen"] + ([""] if "." not in o["name"] else []))
            if r.random() < .2:
                o["name"] = ""
        s.append(o)
        if o["op"] == "save" and r.random() < .3:
            s.append({"op": "list", "slot": r.choice([1, 2, 3])})
    last = sorted({o["obj"] for o in h if "obj" in o})
    for k in last:                               # look at everything in the end
        for n in sorted({o["name"] for o in h if o["op"] == "save"}) + [""]:
            s.append({"op": "world", "obj": k, "name": n, "ext": ".ZEN"})
    return s + [{"op": "list", "slot": i} for i in (1, 2, 3)]


def random_history(r):
    h = []
    there = set()
    objs = []
    at = {}
    for _ in range(r.choice([6, 10, 16])):
        x = r.random()
        if not objs or x < .08 and len(objs) < 3:
            objs.append(len(objs) + 1)
            h.append({"op": "new", "obj": objs[-1]})
            if r.random() < .8:
                h.append({"op": "set", "obj": objs[-1], "world": r.choice(NAMES)})
            continue
        o, s = r.choice(objs), r.choice([1, 2, 3])
        if x < .2:
            h.append({"op": "set", "obj": o, "world": r.choice(NAMES)})
        elif x < .5:
            h.append({"op": "save", "obj": o, "slot": s, "name": r.choice(NAMES)})
            there.add(s)
        elif x < .72:
            h.append({"op": "load", "obj": o, "slot": s})
        elif x < .9:
            h.append({"op": "world", "obj": o, "name": r.choice(NAMES)})
        elif there:
            s = r.choice(sorted(there))
            f = r.choice(["delete", "info", "dat", "thumb", "extra", "extra"])
            h.append({"op": "delete", "slot": s} if f == "delete" else {"op": "spoil", "slot": s, "file": f})
            there -= {s} if f == "delete" else set()
    return h


def run_G01(c):
    build("drv_save")
    K = po.kinds(c)
    q = c.tier == "quick"
    e = "ACTION_CONSTRAINT Emit\n"
    ms = c.scenarios_from(c.model("MC_Saves", MC % (e, 2, 2, 5, "FALSE", "TRUE"), "all histories of 5 steps: two games, two slots, two worlds", workers=1))
    ms += c.scenarios_from(c.model("MC_Saves", MC % (e, 2, 1, 5, "TRUE", "TRUE"), "all histories of 5 steps of one game, slots deleted or spoiled by others", workers=1))
    if not q:
        c.model("MC_Saves", MC % ("", 2, 2, 7, "FALSE", "FALSE"), "all histories of 7 steps: two games, two slots, two worlds", timeout=1500)
        c.model("MC_Saves", MC % ("", 3, 1, 7, "TRUE", "FALSE"), "all histories of 7 steps: one game, three slots that can be deleted or spoiled", timeout=1500)
    c.cov["model_scenarios_available"] = len(ms)
    # histories in which at least two steps touch the disk tell more
    ms = [m for m in ms if sum(o["op"] in ("save", "load", "delete", "spoil") for o in m) >= 2 and any(o["op"] == "save" for o in m)]
    scns = [concrete(c.rng, K, m) for m in pick(c.rng, ms, 1200 if q else 12000)]
    scns += [concrete(c.rng, K, random_history(c.rng)) for _ in range(400 if q else 4000)]
    traces = c.drive("drv_save", scns)
    c.validate("Trace_Saves", traces, "CONSTANT NSlots = 3\n", scns, "drv_save")
    for t in traces[-2:]:
        if t:
            c.sample([{k: x.get(k) for k in ("op", "obj", "slot", "name", "res", "found", "files") if k in x} for x in t])


RUN = {"G01": run_G01}

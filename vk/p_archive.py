"""A01, A02: archives. A03: object graphs."""
from vk.core import *

FMTS = ["ascii", "binary", "binsafe"]
KINDS = ["string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3", "raw", "rawf"]
NF = {"vec3": 3, "vec2": 2, "bbox": 6, "mat3": 9}


def word(r):
    return [r.choice([0, 1, 0x7fff, 0x8000, 0xffff, 0xc465, 0x3b9a, r.randrange(65536)]), r.choice([0, 1, 0xffff, 9, 10, r.randrange(65536)])]


def fword(r, ascii):
    """A float that printing with six decimals does not push out of range; no NaN, and no infinity in ASCII."""
    e = r.choice([0, 1, 100, 117, 126, 127, 127, 128, 130, 140, 150, 254, r.randrange(255)])
    if not ascii and r.random() < .05:
        return [0x7f80 | r.choice([0, 0x8000]), 0]
    return [r.choice([0, 0x8000]) | e << 7 | r.randrange(128), r.choice([0, 0xffff, r.randrange(65536)])]


def text(r, fmt, n):
    if fmt == "binsafe":
        return [r.choice([0, 10, 13, 91, 93, 61, 58, 32, 97, 255, r.randrange(256)]) for _ in range(n)]
    return [r.choice([91, 93, 61, 58, 32, 9, 97, 92, 34, 255, r.choice([1, 2, 35, 37, 48, 127, 128, 200])]) for _ in range(n)]


def value(r, fmt, k):
    if k == "string":
        if r.random() < .3:
            return list(r.choice([b"[]", b"[a b 1 2]", b"", b"int:5", b"x=int:5", b"%", b"[", b"  lead", b"trail ", b"raw:00"]))
        return text(r, fmt, r.choice([0, 1, 2, 5, 20, 300 if r.random() < .2 else 3]))
    if k in ("int", "enum"):
        return word(r)
    if k == "byte":
        return r.choice([0, 1, 9, 10, 99, 100, 255, r.randrange(256)])
    if k == "word":
        return r.choice([0, 9, 10, 9999, 10000, 65535, 256, r.randrange(65536)])
    if k == "bool":
        return r.random() < .5
    if k == "color":
        return [r.choice([0, 255, 9, 10, 100, r.randrange(256)]) for _ in range(4)]
    if k == "float":
        return fword(r, fmt == "ascii")
    if k == "raw":
        return [r.choice([0, 1, 15, 16, 255, r.randrange(256)]) for _ in range(r.choice([0 if fmt != "binary" else 1, 1, 2, 3, 8, 40]))]  # nothing is nowhere in binary archives
    if k == "rawf":
        return [fword(r, fmt == "ascii") for _ in range(r.choice([2, 6]))]
    return [fword(r, fmt == "ascii") for _ in range(NF[k])]


def name(r):
    return list(r.choice([b"n", b"vobName", b"a_b", b"pos", b"key", b"raw", b"int", b"x1", b"trafoOSToWSRot"]))


def cls(r):
    return list(r.choice([b"zCVob", b"oCItem:zCVob", b"%", b"C", b"zCCSLib", b"oCMobDoor:oCMobInter:oCMOB:zCVob"]))


def objname(r):
    if r.random() < .03:
        return [r.choice([97, 95, 37, 46, 48]) for _ in range(r.choice([31, 32, 63, 64, 100, 126, 127]))]
    return list(r.choice([b"%", b"childs0", b"o", b"vob"]))


def deep(r, depth, big=False, fmt=None):
    """Objects nested `depth` deep, entries on the way down and up, and one skipped or read to its end."""
    fmt = fmt or r.choice(FMTS)
    some = lambda p: [{"op": "w", "kind": k, "name": name(r), "v": value(r, fmt, k)} for k in [r.choice(["int", "string", "byte", "vec3", "raw"])] if r.random() < p]

    def tree(d):
        a, b = [("entry", o) for o in some(.1)], [("entry", o) for o in some(.1)]
        if big and d == depth - 1:
            n = r.choice([32767, 32768, 40000, 65535])
            k = r.choice(["raw", "string"])
            a.append(("entry", {"op": "w", "kind": k, "name": [110], "v": [r.choice([65, 97, 91, 93, 0x20]) if k == "string" else r.randrange(256) for _ in range(n)]}))
        return a + ([("obj", tree(d - 1))] if d else []) + b

    def flat(t):
        out = []
        for what, x in t:
            out += [x] if what == "entry" else [{"op": "begin_object", "name": objname(r), "cls": cls(r), "ver": r.choice([0, 1, 65535])}] + flat(x) + [{"op": "end_object"}]
        return out
    t = [("obj", tree(depth))] + [("entry", {"op": "w", "kind": "int", "name": [97], "v": [1, 2]})]
    out = []
    at = r.choice([0, 1, min(2, depth - 1), r.randrange(depth)])

    def read(t, d):
        for what, x in t:
            if what == "entry":
                read_entry(r, fmt, x, out, 0)
            elif d == at:
                out.append({"op": "skip", "current": False})
            else:
                out.append({"op": "rbegin"})
                if d + 1 == at and r.random() < .5:
                    out.append({"op": "skip", "current": True})
                else:
                    read(x, d + 1)
                    out.append({"op": "rend"})
    read(t, 0)
    return [{"op": "create", "fmt": fmt, "save": False, "head": 0}] + flat(t) + [{"op": "finish"}, {"op": "open"}] + out


def tokens(r, fmt, n, depth=3):
    """Writing operations, and the shape for the reader: a list of entries / [begin, ..., end] lists."""
    ops, tree = [], []
    for _ in range(n):
        x = r.random()
        if x < .28 and depth:
            b = {"op": "begin_object", "name": objname(r), "cls": cls(r), "ver": r.choice([0, 1, 255, 256, 65535, 12289])}
            o, t = tokens(r, fmt, r.choice([0, 1, 2, 3]), depth - 1)
            ops += [b] + o + [{"op": "end_object"}]
            tree.append(("obj", t))
        elif x < .34:
            ops.append({"op": "ref", "name": list(b"%"), "idx": r.choice([0, 1, 7, 100])})
            tree.append(("obj", []))
        elif x < .38:
            ops.append({"op": "clock", "t": r.choice([1000000000, 999, 946684799, 1257811199, 1257811200, 2000000000])})
        elif x < .41:
            ops.append({"op": "header"})
        else:
            k = r.choice(KINDS)
            o = {"op": "w", "kind": k, "name": name(r), "v": value(r, fmt, k)}
            ops.append(o)
            tree.append(("entry", o))
    return ops, tree


def pairs(fmt, k):
    """Kinds that share the representation of kind k, and kinds that do not."""
    if fmt == "ascii":
        same = {"int": ["int", "byte", "word"], "byte": ["int", "byte", "word"], "word": ["int", "byte", "word"], "bbox": ["bbox", "vec2"]}.get(k, [k])
        cl = lambda q: "int" if q in ("int", "byte", "word") else "rf" if q in ("vec2", "bbox", "rawf") else "raw" if q in ("raw", "mat3") else q
    else:
        same = {"bbox": ["bbox", "vec2"]}.get(k, [k])
        cl = lambda q: "rf" if q in ("vec2", "bbox", "rawf") else "raw" if q in ("raw", "mat3") else q
    other = [q for q in KINDS if cl(q) != cl(k) and q != "rawf"]
    return same, other


class Stop(Exception):
    pass


def read_entry(r, fmt, o, out, wrong):
    k = o["kind"]
    if fmt != "binary" and r.random() < wrong:
        _, other = pairs(fmt, k)
        q = r.choice(other)
        out.append({"op": "rraw", "n": 0} if q == "raw" else {"op": "r", "kind": q})
        raise Stop
    if k == "raw":
        n = len(o["v"])
        if fmt != "binary" and r.random() < wrong:
            out.append({"op": "rraw", "n": n + r.choice([1, 2, 100])})
            raise Stop
        if fmt != "binary" and n and r.random() < .1:
            n = r.randrange(n)
        out.append({"op": "rraw", "n": n})
    elif k == "rawf":
        out.append({"op": "r", "kind": "vec2" if len(o["v"]) == 2 else "bbox"})
    else:
        same, _ = pairs(fmt, k)
        q = k if fmt == "binary" or r.random() < .8 else r.choice(same)
        out.append({"op": "r", "kind": q})


def read_tree(r, fmt, tree, out, inside, wrong, skipping):
    """Reads a part of the tree; returns True if the object was left by skipping it."""
    for what, x in tree:
        if inside and r.random() < skipping:
            out.append({"op": "skip", "current": True})
            return True
        if fmt != "binary" and r.random() < .15:
            out.append({"op": "rend"} if r.random() < .5 or what == "obj" else {"op": "rbegin"})
        elif fmt == "binary" and inside and r.random() < .15:
            out.append({"op": "rend"})
        if what == "entry":
            read_entry(r, fmt, x, out, wrong)
        elif r.random() < skipping:
            out.append({"op": "skip", "current": False})
        else:
            out.append({"op": "rbegin"})
            if not read_tree(r, fmt, x, out, True, wrong, skipping):
                if r.random() < skipping:
                    out.append({"op": "skip", "current": True})
                else:
                    if fmt != "binary" and r.random() < .2:
                        out.append({"op": "rbegin"})
                    out.append({"op": "rend"})
    return False


def history(r, skipping=.1, wrong=.02, size=10, depth=3):
    fmt = r.choice(FMTS)
    ops, tree = tokens(r, fmt, r.randint(1, size), depth)
    if not any(o["op"] in ("w", "begin_object", "ref") for o in ops):
        ops.append({"op": "w", "kind": "int", "name": [110], "v": [0, 5]})
        tree.append(("entry", ops[-1]))
    s = [{"op": "create", "fmt": fmt, "save": r.random() < .3, "head": r.choice([0, 0, 0, 3, 17])}] + ops + [{"op": "finish"}, {"op": "open"}]
    out = []
    try:
        read_tree(r, fmt, tree, out, False, wrong, skipping)
    except Stop:
        pass
    return s + out


def foreign(r):
    """Archives in the layout other programs give them: line ends, indentation, optional header lines, table order."""
    fmt = r.choice(["ascii", "binsafe"])
    while True:
        ops, tree = tokens(r, fmt, r.randint(1, 8), 3)
        if all(o["op"] != "w" or o["kind"] in ("string", "int", "byte", "word", "enum", "bool", "color", "raw") for o in ops):
            break
    nl = r.choice([b"\n", b"\r\n"])
    toks, nxt, depth, lines, keys, body = [], 0, 0, [], [], b""
    for o in ops:
        new = []
        if o["op"] == "w":
            new = [{"k": o["kind"], "name": o["name"], "v": o["v"]}]
        elif o["op"] == "begin_object":
            e = o["cls"] == [37]
            new = [{"k": "begin", "name": o["name"], "cls": o["cls"], "ver": o["ver"], "idx": 0 if e else nxt}]
            nxt += 0 if e else 1
        elif o["op"] == "end_object":
            new = [{"k": "end"}]
        elif o["op"] == "ref":
            new = [{"k": "begin", "name": o["name"], "cls": [167], "ver": 0, "idx": o["idx"]}, {"k": "end"}]
        for t in new:
            toks.append(t)
            k = t["k"]
            depth -= k == "end"
            if k in ("begin", "end"):
                ln = b"[%s %s %d %d]" % (bytes(t["name"]), bytes(t["cls"]), t["ver"], t["idx"]) if k == "begin" else b"[]"
                body += b"\1" + len(ln).to_bytes(2, "little") + ln
            else:
                v = t["v"]
                u = v[0] << 16 | v[1] if k in ("int", "enum") else v
                if k == "string":
                    a, tag, b = b"string:" + bytes(v), 1, len(v).to_bytes(2, "little") + bytes(v)
                elif k == "raw":
                    a, tag, b = b"raw:" + bytes(v).hex().encode(), 9, len(v).to_bytes(2, "little") + bytes(v)
                elif k == "color":
                    a, tag, b = b"color:%d %d %d %d" % tuple(v), 8, bytes([v[2], v[1], v[0], v[3]])
                elif k == "bool":
                    a, tag, b = b"bool:%d" % v, 6, bytes([v, 0, 0, 0])
                elif k == "int":
                    a, tag, b = b"int:%d" % (u - (1 << 32) if u >> 31 else u), 2, u.to_bytes(4, "little")
                else:
                    a, tag, b = (b"enum:%d" if k == "enum" else b"int:%d") % u, {"enum": 17, "byte": 4, "word": 5}[k], u.to_bytes({"enum": 4, "byte": 1, "word": 2}[k], "little")
                ln = bytes(t["name"]) + b"=" + a
                if t["name"] not in keys:
                    keys.append(t["name"])
                body += b"\x12" + keys.index(t["name"]).to_bytes(4, "little") + bytes([tag]) + b
            lines.append(r.choice([b"\t" * max(depth, 0), b"", b"  "]) + ln)
            depth += k == "begin"
    save = r.random() < .5
    arch, date, user = r.choice([b"zCArchiverGeneric", b"zCArchiverBinSafe"]), b"", b""
    head = [b"ZenGin Archive", b"ver 1", arch, b"ASCII" if fmt == "ascii" else b"BIN_SAFE", b"saveGame %d" % save]
    if r.random() < .6:
        date = r.choice([b"3.1.2001 1:1:1", b"31.12.1999 23:59:59", b"today", b"user x"])
        head.append(b"date " + date)
    if r.random() < .6:
        user = r.choice([b"somebody", b"some body", b"roman", b"date x", b"END x"])
        head.append(b"user " + user)
    head.append(b"END")
    if fmt == "ascii":
        data = nl.join(head + [b"objects %d   " % nxt, b"END", b""] + lines) + nl
    else:
        data = b"\n".join(head) + b"\n" + (2).to_bytes(4, "little") + nxt.to_bytes(4, "little")
        data += (len(data) + 4 + len(body)).to_bytes(4, "little") + body + len(keys).to_bytes(4, "little")
        for i in r.sample(range(len(keys)), len(keys)):
            data += len(keys[i]).to_bytes(2, "little") + i.to_bytes(2, "little") + b"\0\0\0\0" + bytes(keys[i])
    out = []
    try:
        read_tree(r, fmt, tree, out, False, 0.02, .1)
    except Stop:
        pass
    return [{"op": "foreign", "fmt": fmt, "save": save, "toks": toks, "data": list(data), "archiver": list(arch), "date": list(date), "user": list(user)}] + out


CFG = "SPECIFICATION MCSpec\nVIEW View\n%sINVARIANT DepthRight Whole IndexesUnique\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxToks=%d Emitting=%s\n"


def mc(c, n, emit):
    return c.model("MC_Archive", CFG % ("ACTION_CONSTRAINT Emit\n" if emit else "", n, "TRUE" if emit else "FALSE"),
                   "all archives of up to %d tokens, all ways of reading and skipping" % n, workers=1 if emit else NCPU)


def go(c, scns):
    traces = c.drive("drv_archive", scns)
    c.validate("Trace_Archive", traces, "", scns, "drv_archive")
    for t in traces[-2:]:
        if t:
            c.sample([{k: e.get(k) for k in ("op", "kind", "fmt", "res") if k in e and e["op"] != "finish"} for e in t[:8]])


def run_A01(c):
    build("drv_archive")
    q = c.tier == "quick"
    mc(c, 4 if q else 6, False)
    scns = []
    # every kind of entry in every format, many values
    for fmt in FMTS:
        for k in KINDS:
            for _ in range(20 if q else 150):
                n = c.rng.randint(1, 5)
                ops = [{"op": "w", "kind": k, "name": name(c.rng), "v": value(c.rng, fmt, k)} for _ in range(n)]
                s = [{"op": "create", "fmt": fmt, "save": c.rng.random() < .3, "head": 0}] + ops + [{"op": "finish"}, {"op": "open"}]
                out = []
                try:
                    for o in ops:
                        read_entry(c.rng, fmt, o, out, .05)
                except Stop:
                    pass
                scns.append(s + out)
    scns += [history(c.rng, skipping=0, wrong=.03) for _ in range(1500 if q else 12000)]
    # long strings and raw blocks
    for fmt in FMTS:
        for n in ([127, 128, 255, 256, 4095, 4096, 4097, 8192, 32767] if q else [127, 128, 255, 256, 257, 511, 512, 1024, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535]):
            k = c.rng.choice(["string", "string", "raw"])
            v = text(c.rng, fmt, n) if k == "string" else [c.rng.randrange(256) for _ in range(n)]
            rd = {"op": "rraw", "n": n} if k == "raw" else {"op": "r", "kind": k}
            scns.append([{"op": "create", "fmt": fmt, "save": False, "head": 0}, {"op": "w", "kind": k, "name": name(c.rng), "v": v},
                         {"op": "w", "kind": "word", "name": name(c.rng), "v": n}, {"op": "finish"}, {"op": "open"}, rd, {"op": "r", "kind": "word"}])
    scns += [foreign(c.rng) for _ in range(300 if q else 3000)]
    go(c, scns)


def run_A02(c):
    build("drv_archive")
    q = c.tier == "quick"
    mc(c, 5 if q else 7, False)
    scns = c.scenarios_from(mc(c, 3 if q else 4, True))
    c.cov["model_scenarios_available"] = len(scns)
    scns = pick(c.rng, scns, 1500 if q else 20000)
    scns += [history(c.rng, skipping=.15, wrong=0, size=8, depth=4) for _ in range(1500 if q else 12000)]
    scns += [foreign(c.rng) for _ in range(300 if q else 3000)]
    # deeply nested objects, and objects with large entries
    for fmt in FMTS:
        for _ in range(3 if q else 15):
            scns.append(deep(c.rng, c.rng.choice([127, 128, 129, 255]), fmt=fmt))
            scns.append(deep(c.rng, c.rng.choice([258, 260, 300]), fmt=fmt))
    for _ in range(12 if q else 60):
        scns.append(deep(c.rng, c.rng.choice([1, 2, 3]), True))
    # truncated archives (those in bin-safe format have lost the table they cannot do without)
    for _ in range(60 if q else 600):
        s = history(c.rng, skipping=0, wrong=0, size=6)
        if s[0]["fmt"] == "binsafe":
            continue
        cut = [o["op"] for o in s].index("open")
        scns.append(s[:cut] + [{"op": "cut", "n": c.rng.choice([c.rng.randrange(100, 400), c.rng.randrange(130)])} for _ in range(10)])
    go(c, scns)


RUN = {"A01": run_A01, "A02": run_A02}

"""S01-S03: streams and chunks."""
from vk.core import *

KINDS = ["char", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "vec2", "vec3", "mat3", "mat4"]
WS = [32, 9, 13, 10, 11, 12]
ANY = ["memory", "vector", "vecptr", "path", "stdio", "ifstream", "sstream"]     # take every call except seeks to outside
MEM = ["memory", "vector", "vecptr", "path"]


def word(r):
    return [r.choice([0, 1, 0x7fff, 0x8000, 0xffff, 0x3f80, 0x7fc0, r.randrange(65536)]), r.choice([0, 1, 0xffff, r.randrange(65536)])]


def rdata(r, n):
    style = r.random()
    if style < .4:
        return [r.choice([0, 10, 13, 32, 9, 65, 97, 98, 200, 255]) for _ in range(n)]
    if style < .6:
        return [r.choice([65, 66, 67, 32, 32, 10]) for _ in range(n)]
    return [r.randrange(256) for _ in range(n)]


def read_history(r):
    n = r.choice([1, 2, 3, 5, 9, 17, 40, 90])
    d = rdata(r, n)
    be = r.choice(ANY)
    s = [{"op": "open", "data": d, "backend": be}]
    for _ in range(r.randint(3, 15)):
        x = r.random()
        if x < .4:
            s.append({"op": "read", "kind": r.choice(KINDS)})
        elif x < .5:
            s.append({"op": r.choice(["string", "raw"]), "n": r.choice([0, 1, 2, 3, 7, n, n + 3])})
        elif x < .7:
            if r.random() < .5:
                s.append({"op": "line", "ignore": r.choice([[], WS]), "plain": True})
                if s[-1]["ignore"]:
                    s[-1]["ignore"] = WS
            else:
                s.append({"op": "line", "ignore": r.choice([[], WS, [32], [10], [65, 10]]), "plain": False})
        else:
            w = r.choice(["beg", "end", "cur"])
            if be in MEM:
                off = r.choice([0, 1, -1, 2, -2, n, -n, n + 1, -n - 1, 1 << 20, -(1 << 20), r.randint(-n, n)])
            else:
                if w == "cur":
                    w = "beg"                 # stays inside, wherever the cursor is
                off = r.randint(0, n) if w == "beg" else -r.randint(0, n)
            s.append({"op": "seek", "off": off, "whence": w})
    return s


def wvalue(r, k):
    if k in ("char", "byte"):
        return r.choice([-128, -1, 0, 1, 127, r.randint(-128, 127)])
    if k == "ubyte":
        return r.choice([0, 255, r.randint(0, 255)])
    if k == "short":
        return r.choice([-32768, -1, 0, 32767, r.randint(-32768, 32767)])
    if k == "ushort":
        return r.choice([0, 65535, r.randint(0, 65535)])
    if k in ("int", "uint"):
        return word(r)
    if k == "float":
        return fword(r)
    if k in ("string", "string0", "line", "raw"):
        return rdata(r, r.choice([0, 1, 2, 5, 20]))
    return [fword(r) for _ in range({"vec2": 2, "vec3": 3, "mat3": 9, "mat4": 16}[k])]


def fword(r):
    """Not a signalling NaN: moving one through a float register may quieten it."""
    w = word(r)
    if (w[0] & 0x7f80) == 0x7f80:
        w = [w[0] & 0xff80, 0]
    return w


def write_history(r):
    be = r.choice(["grow", "grow", "fixed", "stdio", "ostream"])
    n = r.choice([0, 1, 2, 4, 9, 30])
    s = [{"op": "create", "cap": n if be == "fixed" else -1, "data": rdata(r, n) if be == "grow" else [], "backend": be}]
    for _ in range(r.randint(3, 14)):
        if r.random() < .7:
            k = r.choice(KINDS + ["string", "string0", "line", "raw"])
            s.append({"op": "write", "kind": k, "v": wvalue(r, k)})
        else:
            w = r.choice(["beg", "beg", "end", "cur"])
            if be == "fixed":
                off = r.choice([0, 1, -1, n, -n, n + 1, r.randint(-n - 2, n + 2)])
            else:
                off = r.choice([0, 1, 3, 20]) if w != "cur" else r.choice([0, 1, 3])
                if r.random() < .05 and be == "grow":
                    off += 1500
            s.append({"op": "wseek", "off": off, "whence": w})
    return s


def chunk_file(r):
    n = r.randint(1, 5)
    d, take = [], []
    lens = [r.choice([0, 0, 1, 2, 5, 6, 7, 20]) for _ in range(n)]
    for i, k in enumerate(lens):
        t = r.randrange(65536)
        d += [t & 255, t >> 8] + [k & 255, k >> 8, 0, 0] + rdata(r, k)
        take.append(r.choice([0, k, max(0, k - 1), k // 2, k + 1, k + 6, k + 100]))
    be = r.choice(ANY)
    s = [{"op": "open", "data": d, "backend": be},
         {"op": "chunks", "take": take, "stop": r.choice([0, n, r.randint(1, n)]), "sized": r.random() < .5}]
    if r.random() < .5:
        s.append({"op": "read", "kind": "ushort"})
    return s


def chunk(r, depth=2):
    return {"type": r.randrange(65536), "parts": [rdata(r, r.choice([0, 1, 3, 300])) for _ in range(r.randint(0, 3))],
            "inner": [chunk(r, depth - 1) for _ in range(r.choice([0, 0, 1, 2]) if depth else 0)]}


def chunk_writes(r):
    be = r.choice(["grow", "stdio", "ostream"])
    s = [{"op": "create", "cap": -1, "data": [], "backend": be}]
    for _ in range(r.randint(1, 4)):
        s.append({"op": "wchunk", "chunk": chunk(r)})
        if r.random() < .3:
            s.append({"op": "write", "kind": "ushort", "v": 7})
    return s


def go(c, scns):
    traces = c.drive("drv_stream", scns)
    c.validate("Trace_Streams", traces, "", scns, "drv_stream")
    for t in traces[-2:]:
        if t:
            c.sample([{"op": e["op"], "kind": e.get("kind"), "res": {k: v for k, v in e["res"].items() if k != "bytes"}} for e in t[:6]])


def model(c, data, length, emit):
    return c.model("MC_Streams", "SPECIFICATION MCSpec\nVIEW View\n%sINVARIANT CursorInside\nPROPERTY Rules\nCHECK_DEADLOCK FALSE\n"
                   "CONSTANTS MaxData=%d MaxLen=%d Emitting=%s\n" % ("ACTION_CONSTRAINT Emit\n" if emit else "", data, length, "TRUE" if emit else "FALSE"),
                   "all byte strings up to %d bytes over 5 values, %d calls" % (data, length), workers=1 if emit else NCPU)


def spread(rng, scns):
    """Model scenarios run on every backend in turn; those with seeks outside the data only on memory."""
    out = []
    for s in scns:
        if s[0]["op"] == "open":
            outside = any(o["op"] == "seek" for o in s)
            s = [dict(s[0], backend=rng.choice([b for b in (MEM if outside else ANY) if s[0]["data"] or b not in ("path",)]))] + s[1:]
        out.append(s)
    return out


def run_S01(c):
    build("drv_stream")
    q = c.tier == "quick"
    model(c, 4 if q else 6, 4 if q else 5, False)
    scns = [s for s in c.scenarios_from(model(c, 2 if q else 3, 3 if q else 4, True)) if s[0]["op"] == "open"]
    c.cov["model_scenarios_available"] = len(scns)
    scns = spread(c.rng, pick(c.rng, scns, 2500 if q else 30000))
    scns += [read_history(c.rng) for _ in range(700 if q else 15000)]
    go(c, scns)


def run_S02(c):
    build("drv_stream")
    q = c.tier == "quick"
    model(c, 1, 6 if q else 8, False)
    scns = [s for s in c.scenarios_from(model(c, 0, 4 if q else 5, True)) if s[0]["op"] == "create"]
    c.cov["model_scenarios_available"] = len(scns)
    scns = pick(c.rng, scns, 2000 if q else 30000)
    scns += [write_history(c.rng) for _ in range(600 if q else 12000)]
    go(c, scns)


def run_S03(c):
    build("drv_stream")
    q = c.tier == "quick"
    model(c, 3, 4, False)
    scns = [chunk_file(c.rng) for _ in range(1200 if q else 20000)] + [chunk_writes(c.rng) for _ in range(300 if q else 5000)]
    go(c, scns)


RUN = {"S01": run_S01, "S02": run_S02, "S03": run_S03}

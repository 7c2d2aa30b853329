"""D01-D07: the Daedalus VM and compiled scripts."""
from vk.core import *
from vk.daedalus import *

SETUP = [{"op": "init", "sym": "A1", "kind": "A", "alloc": False}, {"op": "init", "sym": "A2", "kind": "A", "alloc": False},
         {"op": "init", "sym": "B1", "kind": "B", "alloc": False}, {"op": "init", "sym": "O1", "kind": "opaque", "alloc": False},
         {"op": "init", "sym": "P1", "kind": "opaque", "alloc": False}, {"op": "setinst", "sym": "SELF", "id": 1}]


def call(fn, args=(), want="ignore"):
    return {"op": "call", "fn": fn, "args": [list(a) for a in args], "want": want}


def cb(ret="v", params="", act="ret", rv=0, target="", id=0, naked=False):
    if ret == "s" and rv == 0:
        rv = ""
    return {"ret": ret, "params": list(params), "act": act, "rv": rv, "target": target, "id": id, "naked": naked}


def handler(kind="map", by=(), dfl="fail"):
    return {"op": "handler", "kind": kind, "by": [{"o": OPC[o], "s": s} for o, s in by], "dfl": dfl}


FUNS = [("F1", "i", "ii"), ("F2", "v", "s"), ("F3", "s", "si"), ("F4", "f", "fi"), ("F5", "n", "n"), ("F6", "v", ""), ("F7", "i", "")]
EXTS = [("E1", "i", "is"), ("E2", "v", "s"), ("E3", "s", "ss"), ("E4", "f", "if"), ("E5", "n", "ni"), ("E6", "i", ""), ("E7", "v", "isf")]
LOCS = [("A", INT, 1), ("T", STRING, 1), ("Q", FLOAT, 1), ("K", INT, 1)]


def program(r, err=0.0, messy=0.0, nullok=None, ignconst=None, nfun=4, members=True, exts=True, locs=True):
    p = world(r.random() < .3 if nullok is None else nullok, r.random() < .3 if ignconst is None else ignconst)
    fs = r.sample(FUNS, nfun)
    es = r.sample(EXTS, 3) if exts else []
    for n, rt, ps in es:
        p.func(n, rt, ps, ext=True)
    p.func("LEAF", "i", "", LOCS, body=[("GMOVI", "A2"), ("PUSHI", 2), ("PUSHV", "H"), ("ADDMOVI",), ("PUSHI", 4), ("PUSHI", r.choice([5, 0] if err else [5])), ("PUSHI", 1), ("DIV",), ("ADD",), ("RSR",)])
    p.func("MAIN", "i", "ii", LOCS if locs else [])
    for n, rt, ps in fs:
        p.func(n, rt, ps, LOCS if locs and r.random() < .7 else [])
    sigs = [(n, rt, ps, True) for n, rt, ps in es]
    order = fs
    for k, (n, rt, ps) in enumerate(order):
        g = Gen(r, p, n, sigs + [(a, b, c, False) for a, b, c in order[k + 1:]], err, messy, members)
        p.code(n, g.body(rt, 4))
    p.code("MAIN", Gen(r, p, "MAIN", sigs + [(a, b, c, False) for a, b, c in order], err, messy, members).body("i", 6))
    for n in ("A1", "A2", "O1", "PA"):
        g = Gen(r, p, n, [], err / 2, 0, True)
        body = [("PUSHI", r.choice(EDGE)), ("PUSHV", {"A1": "C_A.I", "A2": "C_A.I", "O1": "C_O.I", "PA": "C_A.I"}[n]), ("MOVI",)]
        if n in ("A1", "PA") and r.random() < .5:
            body += [("PUSHV", "CS"), ("PUSHV", "C_A.S"), ("MOVS",)]
        if n == "A2":
            body = [("BL", "PA")] + body
        p.code(n, body + [("RSR",)])
    return p, fs, es


def regs(r, es, acts=("ret",), fns=()):
    out = []
    for k, (n, rt, ps) in enumerate(es):
        if r.random() < .85:
            act = r.choice(acts)
            pp = [("A" if x == "n" and r.random() < .3 else x) for x in ps]
            if "".join(pp) not in ("", "i", "f", "s", "n", "A", "ii", "is", "si", "ss", "fi", "if", "ni", "An", "isf", "sAi"):
                pp = list(ps)
            out.append({"op": "external", "fn": n, "cb": cb(rt, pp, act, rvalue(r, rt), "LEAF" if act == "call" else "", k)})
    return out


def random_handler(r):
    x = r.random()
    if x < .2:
        return []
    if x < .35:
        return [handler("lenient")]
    by = [(o, r.choice(["continue", "return", "fail"])) for o in r.sample(["DIV", "MOD", "MOVI", "ADDMOVI", "PUSHV", "BL", "BE", "ADD", "MOVS", "GMOVI"], 4)]
    return [handler("map", by, r.choice(["continue", "return", "fail"]))]


def histories(r, fs, n):
    out = []
    for _ in range(n):
        f = r.choice([("MAIN", "i", "ii")] + list(fs))
        args = [(t, rvalue(r, t)) for t in f[2]]
        w = r.choice(["ignore", {"v": "v", "i": "i", "f": "f", "s": "s", "n": "A"}[f[1]]])
        out.append(call(f[0], args, w))
    return out


def go(c, scns):
    traces = c.drive("drv_vm", scns)
    c.validate("Trace_Vm", traces, "INVARIANT Sane\n", scns, "drv_vm")
    for t in traces[-2:]:
        if t:
            c.sample([{"op": e["op"], "fn": e.get("fn", e.get("sym")), "r": e["res"]["r"], "v": e["res"]["v"], "log": e["res"]["log"][:3]} for e in t[1:6]])



# ------------------------------------------------------------------------------------------------ exhaustive small programs
def tiny(nullok=False, ignconst=False):
    """A small world for MC_Vm: MAIN is put together by the model from the alphabet; everything else is fixed."""
    p = Prog(nullok, ignconst)
    p.cls("C_A", [("I", INT, 1), ("ARR", INT, 2), ("F", FLOAT, 1), ("S", STRING, 1), ("FN", FUNC, 1)], "A")
    p.sym("G", INT, val=[3])
    p.sym("ARR", INT, 2, val=[10, 20])
    p.sym("S", STRING, val=["s"])
    p.sym("X", FLOAT)
    p.sym("CI", INT, const=True, val=[7])
    p.sym("SELF", INST, parent=0)
    p.sym("VN", INST, parent=0)
    p.instance("A1", "C_A")
    p.func("E", "i", "i", ext=True)
    p.func("F", "i", "i", body=[("PUSHI", 0), ("PUSHV", "F.P0"), ("DIV",), ("RSR",)])
    p.func("V", "v", "", body=[("PUSHI", 9), ("PUSHI", 1), ("PUSHV", "G"), ("ADDMOVI",), ("RSR",)])
    p.func("STOP", "v", "")
    p.func("PROBE", "i", "i", body=[("PUSHV", "PROBE.P0"), ("PUSHV", "G"), ("ADD",), ("RSR",)])
    p.func("MAIN", "i", "")
    return p


ALPHABET = [("PUSHI", 0), ("PUSHI", 5), ("PUSHV", "G"), ("PUSHVV", "ARR", 1), ("PUSHVV", "ARR", 2), ("PUSHV", "CI"), ("PUSHV", "C_A.I"), ("GMOVI", "A1"), ("GMOVI", "VN"),
            ("PUSHV", "S"), ("PUSHVI", "SELF"), ("MOVI",), ("MOVS",), ("MOVVI",), ("ADDMOVI",), ("DIVMOVI",), ("ADD",), ("SUB",), ("DIV",), ("NOT",), ("BZ", "STOP"),
            ("BL", "F"), ("BL", "V"), ("BL", 2), ("BE", "E"), ("BE", 999), ("RSR",), ("PUSHV", "C_A.S"), ("MOVF",)]
HANDLERS = [handler("none"), handler("lenient"), handler("map", dfl="continue"), handler("map", dfl="return"), handler("map", dfl="fail"),
            handler("map", [("BL", "continue"), ("BE", "continue")], "fail")]


def encode(p, addr, ins):
    if ins[0] in ("BL", "BZ"):
        v = ins[1] if isinstance(ins[1], int) else addr[ins[1]]
    elif ins[0] == "PUSHI":
        v = ins[1]
    elif len(ins) > 1:
        v = ins[1] if isinstance(ins[1], int) else p.idx[ins[1]]
    else:
        return [OPC[ins[0]]]
    return [OPC[ins[0]]] + list((v & 0xffffffff).to_bytes(4, "little")) + ([ins[2]] if len(ins) > 2 else [])


def mc_vm(c, n, nullok=False, ignconst=False, handlers=None, alphabet=None):
    """Every MAIN of at most n instructions under every handler; returns the scenarios the model went through."""
    p = tiny(nullok, ignconst)
    ld = p.load()
    addr = {s["name"]: s["addr"] for s in ld["syms"]}
    ld["code"] = ld["code"][:addr["MAIN"]]
    al = alphabet or ALPHABET
    hs = handlers or HANDLERS
    tail = [call("MAIN"), call("PROBE", [("i", 4)], "i")]
    pre = [{"op": "init", "sym": "A1", "kind": "A", "alloc": False}, {"op": "external", "fn": "E", "cb": cb("i", "i", "ret", 6)}]
    w = {"load": ld, "alphabet": [encode(p, addr, i) for i in al], "handlers": hs, "pre": pre, "tail": tail}
    path = os.path.join(c.work, "vmworld-%d%d.json" % (nullok, ignconst))
    with open(path, "w") as f:
        f.write(json.dumps(w) + "\n")
    os.environ["VMWORLD"] = path
    r = c.model("MC_Vm", "SPECIFICATION MCSpec\nCONSTANTS MaxLen = %d\nINVARIANT Sane\nCHECK_DEADLOCK FALSE\n" % n,
                "all programs of up to %d instructions from %d x %d error strategies, null instances %s, constants %s" % (n, len(al), len(hs), "allowed" if nullok else "refused", "writable" if ignconst else "protected"),
                timeout=700)
    out = []
    for line in r.out.splitlines():
        if line.startswith('"SCN'):
            d = json.loads(line[4:-1].replace('\\"', '"'))
            l = dict(ld)
            l["code"] = ld["code"] + [b for k in d["p"] for b in w["alphabet"][k - 1]] + [OPC["RSR"]]
            out.append([l] + pre + [hs[d["h"] - 1]] + tail)
    return out


# ------------------------------------------------------------------------------------------------------------------- D01
def run_D01(c):
    build("drv_vm")
    q = c.tier == "quick"
    scns = mc_vm(c, 2 if q else 3, handlers=HANDLERS[:1] if q else HANDLERS[:3])
    if not q:
        c.rng.shuffle(scns)
        scns = scns[:20000]
    for _ in range(200 if q else 5000):
        p, fs, es = program(c.rng, exts=False)
        scns.append([p.load()] + SETUP + histories(c.rng, fs, 3))
    # every operator on pairs of edge values
    ops = ["ADD", "SUB", "MUL", "DIV", "MOD", "OR", "ANDB", "LT", "GT", "ORR", "AND", "LSL", "LSR", "LTE", "EQ", "NEQ", "GTE"]
    p = Prog()
    p.sym("R", INT)
    for o in ops:
        p.func("F_" + o, "i", "ii", body=[("PUSHV", "F_%s.P0" % o), ("PUSHV", "F_%s.P1" % o), (o,), ("RSR",)])
    for o in ["PLUS", "NEGATE", "NOT", "CMPL"]:
        p.func("F_" + o, "i", "i", body=[("PUSHV", "F_%s.P0" % o), (o,), ("RSR",)])
    for o in ["ADDMOVI", "SUBMOVI", "MULMOVI", "DIVMOVI"]:
        p.func("F_" + o, "i", "ii", body=[("PUSHV", "F_%s.P1" % o), ("PUSHV", "F_%s.P0" % o), (o,), ("PUSHV", "F_%s.P0" % o), ("RSR",)])
    p.func("F_BZ", "i", "i", body=[("PUSHV", "F_BZ.P0"), ("BZ", "z"), ("PUSHI", 1), ("RSR",), ("L", "z"), ("PUSHI", 2), ("RSR",)])
    ld = p.load()
    todo = []
    for o in ops + ["ADDMOVI", "SUBMOVI", "MULMOVI", "DIVMOVI"]:
        for a in EDGE:
            for b in (EDGE if o not in ("LSL", "LSR") else [0, 1, 2, 7, 15, 16, 30, 31]):
                todo.append(call("F_" + o, [("i", b), ("i", a)] if o in ("LSL", "LSR") and False else [("i", a), ("i", b)], "i") if o not in ("LSL", "LSR") else
                            call("F_" + o, [("i", b), ("i", a)], "i"))
    for o in ["PLUS", "NEGATE", "NOT", "CMPL", "BZ"]:
        todo += [call("F_" + o, [("i", a)], "i") for a in EDGE]
    c.rng.shuffle(todo)
    scns += [[ld] + todo[k:k + 40] for k in range(0, len(todo), 40)]
    # elements of long arrays
    for n in (100, 128, 129, 200, 255, 256, 300):
        p = Prog()
        p.sym("LA", INT, n, val=[k * 3 for k in range(n)])
        p.sym("LS", STRING, n, val=["s%d" % k for k in range(n)])
        p.sym("LF", FLOAT, n, val=[0x3f800000 + k for k in range(n)])
        es = sorted({k for k in (0, 1, 63, 64, 127, 128, 129, 199, 254, 255, n - 1, c.rng.randrange(n)) if k < min(n, 256)})
        todo = []
        for k in es:
            j = c.rng.choice(es)
            p.func("I%d" % k, "i", "", body=[("PUSHVV", "LA", j), ("PUSHVV", "LA", k), (c.rng.choice(["MOVI", "ADDMOVI", "SUBMOVI", "MULMOVI", "DIVMOVI"]),), ("PUSHVV", "LA", k), ("RSR",)])
            p.func("S%d" % k, "s", "", body=[("PUSHVV", "LS", j), ("PUSHVV", "LS", k), ("MOVS",), ("PUSHVV", "LS", k), ("RSR",)])
            p.func("F%d" % k, "f", "", body=[("PUSHVV", "LF", j), ("PUSHVV", "LF", k), ("MOVF",), ("PUSHVV", "LF", k), ("RSR",)])
            todo += [call("I%d" % k, [], "i"), call("S%d" % k, [], "s"), call("F%d" % k, [], "f")]
        c.rng.shuffle(todo)
        for h in HANDLERS[:1] if q else HANDLERS:
            scns.append([p.load(), h] + todo)
    # running off the end, jumping out of the code, unknown symbols
    for h in HANDLERS:
        for body in ([("PUSHI", 1)], [("B", "z"), ("L", "z")], [("PUSHI", 0), ("BZ", "z"), ("L", "z")], [("NOP",)], [("PUSHV", 5000)], [("PUSHI", 1), ("PUSHVV", 5000, 1)],
                     [("BL", 1 << 20)], [("BL", -5)], [("BE", -1)], [("GMOVI", -1)], [("MOVSS",), ("RSR",)]):
            p = Prog()
            p.sym("G", INT)
            p.func("F", "i", "i", body=[("PUSHV", "F.P0"), ("PUSHV", "G"), ("ADDMOVI",), ("PUSHV", "G"), ("RSR",)])
            p.func("M", "i", "", body=[("PUSHI", 3), ("BL", "W"), ("PUSHV", "G"), ("MOVI",), ("PUSHV", "G"), ("RSR",)])
            p.func("W", "i", "i", body=body)
            scns.append([p.load(), h, call("M", [], "i"), call("F", [("i", 2)], "i"), call("W", [("i", 2)], "i"), call("F", [("i", 2)], "i")])
    go(c, scns)


# ------------------------------------------------------------------------------------------------------------------- D02
SIGS = ["", "i", "f", "s", "n", "ii", "is", "si", "ss", "fi", "if", "ni", "isf"]
WANT = {"v": "v", "i": "i", "f": "f", "s": "s", "n": "A"}


def spelled(r, name):
    return "".join(x.lower() if r.random() < .5 else x for x in name)


def run_D02(c):
    build("drv_vm")
    q = c.tier == "quick"
    r = c.rng
    scns = mc_vm(c, 2, handlers=HANDLERS[:1] if q else HANDLERS)
    # every signature: the parameters end up in globals of their own
    for ret in "vifsn":
        for sg in SIGS:
            p = world()
            for k, t in enumerate(sg):
                p.sym("OUT%d" % k, LETTER[t])
            leave = {"v": [], "i": [("PUSHI", 77)], "f": [("PUSHI", 0x40400000)], "s": [("PUSHV", "CS")], "n": [("PUSHVI", "A2")]}[ret]
            p.func("T", ret, sg)
            copy = [i for k, t in enumerate(sg) for i in [("PUSHVI" if t == "n" else "PUSHV", "T.P%d" % k), ("PUSHVI" if t == "n" else "PUSHV", "OUT%d" % k), (MOV[LETTER[t]],)]]
            p.code("T", copy + leave + [("RSR",)])
            # wrappers: the same call from script, with the result stored; one leaves too many values, one none
            store = {"v": [], "i": [("PUSHV", "G"), ("MOVI",)], "f": [("PUSHV", "X"), ("MOVF",)], "s": [("PUSHV", "S"), ("MOVS",)], "n": [("PUSHVI", "VN"), ("MOVVI",)]}[ret]
            for name, extra in (("W", leave), ("MANY", [("PUSHI", 1), ("PUSHV", "S"), ("PUSHI", 2)] + leave), ("NONE", [])):
                p.func(name, ret, sg)
                args = [("PUSHVI" if t == "n" else "PUSHV", "%s.P%d" % (name, k)) for k, t in enumerate(sg)]
                p.code(name, args + [("GMOVI", "B1"), ("BL", "T")] + store + extra + [("RSR",)])
            # a caller whose instance and pending values have to survive
            p.func("K", "i", "")
            lit = {"i": [("PUSHI", 5)], "f": [("PUSHV", "CX")], "s": [("PUSHVV", "SARR", 1)], "n": [("PUSHVI", "A1")]}
            body = [("GMOVI", "A1"), ("PUSHI", 1000)]
            for name in ("W", "MANY", "NONE", "T"):
                body += [i for t in sg for i in lit[t]] + [("BL", name)] + store
            body += [("PUSHV", "C_A.I"), ("ADD",), ("RSR",)]
            p.code("K", body)
            # one that consumes more than it was given
            p.func("GREEDY", ret, sg, body=[("ADD",), ("PUSHV", "G"), ("MOVI",), ("RSR",)], prologue=False)
            calls = []
            for _ in range(2):
                for name in ("T", "W", "MANY", "NONE"):
                    x = call(name, [(t, rvalue(r, t)) for t in sg], r.choice(["ignore", WANT[ret]]))
                    x["as"] = spelled(r, name)
                    calls.append(x)
            calls += [call("K", [], "i")]
            # wrong calls
            for _ in range(4):
                s2 = r.choice(SIGS)
                w = r.choice(["v", "i", "f", "s", "A", "ignore"])
                calls.insert(r.randrange(len(calls) + 1), call(r.choice(["T", "W"]), [(t, rvalue(r, t)) for t in s2], w))
            calls.append(call(r.choice(["G", "NOSUCH", "A1", "C_A"]), [], r.choice(["v", "ignore", "i"])))
            calls.append(call("K", [], "i"))
            scns.append([p.load()] + SETUP + calls)
            scns.append([p.load()] + SETUP + [call("GREEDY", [(t, rvalue(r, t)) for t in sg if True]), call("K", [], "i")])
    for _ in range(150 if q else 5000):
        p, fs, es = program(r, messy=.25, exts=False, nullok=False)
        scns.append([p.load()] + SETUP + histories(r, fs, 3))
    # many string arguments in flight
    for n in (1, 2, 100, 255, 256, 257, 300):
        p = world()
        p.func("CAT", "s", "ss", body=[("PUSHV", "CAT.P1"), ("RSR",)])
        p.func("ID", "s", "s", ext=True)
        p.func("MAIN", "v", "", body=[i for k in range(n) for i in [("PUSHVV", "SARR", k % 2), ("BE", "ID")]] + [("BL", "CAT")] * (n - 1) + [("PUSHV", "S"), ("MOVS",), ("RSR",)])
        scns.append([p.load(), {"op": "external", "fn": "ID", "cb": cb("s", "s", "ret", "str")}, call("MAIN"), call("CAT", [("s", "u"), ("s", "v")], "s"), call("MAIN")])
    for n in (5, 300):
        p = world()
        p.func("LAST", "s", "ss", body=[("PUSHV", "LAST.P0"), ("RSR",)])
        s = [p.load()]
        for k in range(n):
            s.append({"op": "push", "n": 1, "v": ["s", "v%d" % k]})
        s.append(call("LAST", [("s", "x"), ("s", "y")], "s"))
        s += [{"op": "pop", "k": "s"} for _ in range(n)]
        scns.append(s)
    go(c, scns)


# ------------------------------------------------------------------------------------------------------------------- D03
def run_D03(c):
    build("drv_vm")
    q = c.tier == "quick"
    r = c.rng
    scns = mc_vm(c, 2, True, False, handlers=HANDLERS[:1]) + mc_vm(c, 2, False, True, handlers=HANDLERS[:1])
    if q:
        r.shuffle(scns)
        scns = scns[:500]
    VARS = [("G", 0), ("ARR", 2), ("ARR", 3), ("ARR", 255), ("X", 0), ("X", 1), ("XARR", 1), ("XARR", 2), ("S", 0), ("S", 1), ("SARR", 1), ("SARR", 2), ("CI", 0), ("CA", 1), ("CA", 2), ("CX", 0), ("CS", 0), ("FV", 0), ("FV", 1),
            ("OTHER", 0), ("A1", 0), ("C_A", 0), ("C_A.I", 0), ("C_A.I", 1), ("C_A.ARR", 1), ("C_A.ARR", 2), ("C_A.F", 0), ("C_A.F", 1), ("C_A.S", 0), ("C_A.S", 1), ("C_A.FN", 0), ("C_B.X", 0), ("C_B.T", 1), ("C_B.T", 2),
            ("C_O.I", 0), ("C_O.S", 1), ("C_O.S", 2), ("C_O.F", 0), ("C_O.F", 1), ("C_O.F", 2), ("C_O.K", 2), ("C_O.K", 3), ("C_P.J", 0), ("C_P.Q", 0), ("C_P.Z", 1), ("C_U.I", 0), ("MAIN", 0), ("TR", 0)]
    READ = [[("PUSHV", "G"), ("MOVI",)], [("PUSHV", "X"), ("MOVF",)], [("PUSHV", "S"), ("MOVS",)], [("PUSHVI", "VN"), ("MOVVI",)], [("NOT",), ("PUSHV", "H"), ("MOVI",)]]
    WRITE = [[("PUSHI", 42)], [("PUSHI", 1)], [("PUSHI", 0)], [("PUSHV", "CX")], [("PUSHV", "CS")], [("PUSHVI", "A2")]]
    WOP = ["MOVI", "MOVF", "MOVS", "MOVVI", "ADDMOVI", "SUBMOVI", "MULMOVI", "DIVMOVI", "MOVVF"]
    cases, members = [], []
    for v, x in VARS:
        if v.startswith("C_") and "." in v:
            cases, members = members, cases
        pv = ("PUSHVV", v, x) if x or r.random() < .3 else ("PUSHV", v)
        for rd in READ:
            cases.append([pv] + rd + [("RSR",)])
        for k, val in enumerate(WRITE):
            for o in WOP:
                if o in ("MOVI", "MOVVF") or val[0][0] != "PUSHI" or val[0][1] == (1 if o in ("MULMOVI", "DIVMOVI") else 0 if o in ("ADDMOVI", "SUBMOVI") else 42) or r.random() < .3:
                    cases.append(val + [pv, (o,), ("RSR",)])
        if v.startswith("C_") and "." in v:
            cases, members = members, cases
    # the instance is the one at the time of the reference, not of the access
    for a in ("A1", "A2", "SELF", "OTHER", "VN", "B1", "O1", "P1", "U1", "G", "C_A"):
        for b in ("A1", "A2", "VN", "O1"):
            cases.append([("PUSHI", 11), ("GMOVI", a), ("PUSHV", "C_A.I"), ("GMOVI", b), ("ADDMOVI",), ("RSR",)])
            cases.append([("GMOVI", a), ("PUSHV", "C_A.S"), ("GMOVI", b), ("PUSHV", "C_A.S"), ("MOVS",), ("RSR",)])
            cases.append([("GMOVI", a), ("PUSHVV", "C_O.K", 1), ("GMOVI", b), ("PUSHV", "H"), ("MOVI",), ("RSR",)])
    CTX = [0, 1, 2, 3, 4, 5, 6]                      # none, A1, A2, B1, O1, P1, a transient one
    # every access (to members with every kind of instance current, or none), in random order, once or more
    work = []
    for _ in range(1 if q else 8):
        work += [(x, r.choice(CTX)) for x in cases] + [(x, g) for x in members for g in CTX]
    r.shuffle(work)
    size = 30
    for k in range(0, len(work), size):
        p = world(k // size % 2 == 0, k // size // 2 % 2 == 0)
        p.func("MAIN", "v", "")
        for j, (b, _) in enumerate(work[k:k + size]):
            p.func("Q%d" % j, "v", "", body=b)
        for a in ("A1", "A2", "O1", "P1"):
            p.code(a, [("PUSHI", 100 + len(a)), ("PUSHV", {"A1": "C_A.I", "A2": "C_A.I", "O1": "C_O.I", "P1": "C_P.J"}[a]), ("MOVI",), ("RSR",)])
        s = [p.load()] + SETUP + [{"op": "transient"}]
        if r.random() < .5:
            s.append({"op": "trap", "v": r.choice(EDGE)})
        if r.random() < .3:
            s.append(handler("map", dfl=r.choice(["continue", "return"])))
        s.append({"op": "setinst", "sym": "OTHER", "id": r.choice(CTX)})
        for j, (_, g) in enumerate(work[k:k + size]):
            s.append({"op": "setgi", "id": g})
            s.append(call("Q%d" % j))
        scns.append(s)
    # instances of every kind of class, through prototypes, unregistered, wrong kind, unknown
    for sym in ("A1", "A2", "B1", "O1", "P1", "U1", "SELF", "G", "NOSUCH", "PA", "LOST", "HELP"):
        for kind in ("A", "B", "opaque"):
            for alloc in (False, True):
                if kind == "opaque" and (alloc or sym in ("G", "PA")):
                    continue
                p = world()
                p.sym("LOST", INST, count=0, const=True, parent=-1)
                p.sym("HELP", INST, count=0, const=True, parent=p.idx["G"])
                p.func("MAIN", "i", "", body=[("GMOVI", "A1"), ("PUSHV", "C_A.I"), ("RSR",)])
                p.code("A2", [("BL", "PA"), ("PUSHI", 1), ("PUSHV", "C_A.I"), ("ADDMOVI",), ("RSR",)])
                p.code("PA", [("PUSHI", 50), ("PUSHV", "C_A.I"), ("MOVI",), ("RSR",)])
                p.code("O1", [("PUSHV", "CS"), ("PUSHVV", "C_O.S", 1), ("MOVS",), ("PUSHI", 8), ("PUSHVV", "C_O.K", 2), ("MOVI",), ("RSR",)])
                scns.append([p.load(), {"op": "init", "sym": "A1", "kind": "A", "alloc": False}, {"op": "init", "sym": sym, "kind": kind, "alloc": alloc, "as": spelled(r, sym)}, call("MAIN", [], "i")])
    for _ in range(60 if q else 2500):
        p, fs, es = program(r, err=.15, exts=False)
        scns.append([p.load()] + SETUP + random_handler(r) + histories(r, fs, 3))
    go(c, scns)


# ------------------------------------------------------------------------------------------------------------------- D04
CBSIGS = ["", "i", "b", "f", "s", "n", "A", "B", "ii", "is", "si", "ss", "fi", "if", "ni", "An", "isf", "sAi"]


def run_D04(c):
    build("drv_vm")
    q = c.tier == "quick"
    r = c.rng
    scns = mc_vm(c, 2, handlers=[HANDLERS[0], HANDLERS[5]], alphabet=[i for i in ALPHABET if i[0] in ("BE", "BL", "PUSHI", "PUSHV", "MOVI", "PUSHVV")])
    # every registration against every declaration
    decls = [(rt, sg) for rt in "vifsn" for sg in ["", "i", "f", "s", "n", "F", "ii", "is", "ss", "nn", "isf", "sni"]]
    lit = {"i": ("PUSHI", 5), "f": ("PUSHV", "CX"), "s": ("PUSHV", "CS"), "n": ("PUSHVI", "A1"), "F": ("PUSHI", 3)}
    store = {"v": [], "i": [("PUSHV", "G"), ("MOVI",)], "f": [("PUSHV", "X"), ("MOVF",)], "s": [("PUSHV", "S"), ("MOVS",)], "n": [("PUSHVI", "VN"), ("MOVVI",)]}
    todo = []
    for rt, sg in decls:
        for rt2 in "vifsn":
            for sg2 in CBSIGS:
                near = (rt == rt2) + (sg == sg2.replace("A", "n").replace("B", "n").replace("b", "i"))
                todo.append((near, rt, sg, rt2, sg2))
    exact = [t for t in todo if t[0] == 2]
    near = [t for t in todo if t[0] == 1]
    far = [t for t in todo if t[0] == 0]
    if q:
        near, far = r.sample(near, 250), r.sample(far, 120)
    allc = exact + near + far
    r.shuffle(allc)
    for k in range(0, len(allc), 10):
        p = world()
        grp = allc[k:k + 10]
        for j, (_, rt, sg, rt2, sg2) in enumerate(grp):
            p.func("E%d" % j, rt, sg, ext=True)
            p.func("F%d" % j, rt, sg)
            p.func("CE%d" % j, "v", "", body=[lit[t] for t in sg] + [("BE", "E%d" % j)] + store[rt] + [("RSR",)])
            p.func("CF%d" % j, "v", "", body=[lit[t] for t in sg] + [("BL", "F%d" % j)] + store[rt] + [("RSR",)])
        s = [p.load()] + SETUP
        for j, (_, rt, sg, rt2, sg2) in enumerate(grp):
            rv = rvalue(r, rt2)
            s.append({"op": "external", "fn": "E%d" % j, "cb": cb(rt2, sg2, "ret", rv, id=j), "as": spelled(r, "E%d" % j)})
            s.append({"op": "override", "fn": "F%d" % j, "cb": cb(rt2, sg2, "ret", rvalue(r, rt2), id=100 + j)})
            s += [call("CE%d" % j), call("CF%d" % j)]
        scns.append(s)
    # functions, symbols, plain pointers, truth values and many parameters
    MORE = {"F": "F", "y": "n", "N": "n", "a": "n", "bi": "ii", "iiii": "iiii", "fsib": "fsii", "sAiFn": "sniFn", "fffiii": "fffiii", "b": "i"}
    for k in range(60 if q else 600):
        p = world()
        p.sym("FV2", FUNC)
        p.func("FN1", "v", "")
        ix = lambda n: next(i for i, y in enumerate(p.syms) if y["name"] == n)
        pushes = {"i": lambda: [("PUSHI", r.choice(EDGE))], "f": lambda: r.choice([[("PUSHV", "CX")], [("PUSHVV", "XARR", 1)], [("PUSHI", 0)]]), "s": lambda: r.choice([[("PUSHV", "CS")], [("PUSHVV", "SARR", 1)]]),
                  "n": lambda: [(r.choice(["PUSHVI", "PUSHV"]), r.choice(["A1", "A2", "B1", "VN", "O1", "SELF"]))],
                  "F": lambda: r.choice([[("PUSHI", ix(r.choice(["FN1", "FV", "FV2", "CE0"])))], [("PUSHV", r.choice(["FV", "FV2"]))], [("PUSHI", r.choice([-1, 100000, ix("G"), ix("A1")]))]])}
        sigs = [(r.choice(["v", "i", "b", "A"]), g) for g in r.sample(sorted(MORE), 5)] + [(r.choice("bA"), r.choice(["", "ii"]))]
        rts = {"v": "v", "i": "i", "b": "i", "A": "n"}
        body = []
        for j, (rt, sg) in enumerate(sigs):
            if sg == "b" and rt in "bA":
                rt = "i"
                sigs[j] = (rt, sg)
            decl = MORE.get(sg, sg) if r.random() < .93 else r.choice(["iiii", "ni", "F", "n"])
            p.func("E%d" % j, rts[rt] if r.random() < .95 else "s", decl, ext=True)
            p.func("F%d" % j, rts[rt], decl)
            body.append((decl, rts[rt]))
        p.func("CE0", "v", "")
        for j, (decl, rt) in enumerate(body):
            dst = p.syms[ix("E%d" % j)]
            for n_, e, o in (("CE", "E", "BE"), ("CF", "F", "BL")):
                p.func("%s%d_" % (n_, j), "v", "", body=[i for t in decl for i in pushes[t]()] + [(o, "%s%d" % (e, j))] + (store[rt] if dst["rtype"] != STRING or e == "F" else store["s"]) + [("RSR",)])
        fv = [("PUSHI", ix(r.choice(["FV2", "FN1", "G"]))), ("PUSHV", "FV"), ("MOVI",), ("PUSHI", r.choice([ix("FN1"), ix("CE0"), -1])), ("PUSHV", "FV2"), ("MOVI",), ("RSR",)]
        p.func("SETFV", "v", "", body=fv)
        s = [p.load()] + SETUP + [call("SETFV")]
        for j, (rt, sg) in enumerate(sigs):
            rv = rvalue(r, "i") if rt == "i" else r.choice([0, 1]) if rt in "bA" else 0
            s.append({"op": "external", "fn": "E%d" % j, "cb": cb(rt, sg, "ret", rv, id=j)})
            s.append({"op": "override", "fn": "F%d" % j, "cb": cb(rt, sg, "ret", rv, id=100 + j)})
            s += [call("CE%d_" % j), call("CF%d_" % j)]
        scns.append(s)
    # arguments of all kinds and instances of all kinds
    for _ in range(60 if q else 1500):
        p, fs, es = program(r, nullok=False)
        s = [p.load()] + SETUP + regs(r, es, ("ret", "ret", "call"), fs)
        if r.random() < .5:
            s.append({"op": "default", "throws": r.random() < .2, "by_name": r.random() < .5})
        for n, rt, ps in r.sample(fs, 2):
            naked = r.random() < .4
            s.append({"op": "override", "fn": n, "cb": cb(rt, ps, "ret", rvalue(r, rt), id=50, naked=naked)})
        s += histories(r, fs, 2)
        # a later registration replaces the earlier one
        for n, rt, ps in es:
            s.append({"op": "external", "fn": n, "cb": cb(rt, ps, "ret", rvalue(r, rt), id=70)})
        s += histories(r, fs, 2)
        scns.append(s)
    # the catch-all handler with every signature, from nested calls with pending values
    for rt, sg in decls:
        for kind in ("default", "none", "throws"):
            p = world()
            p.func("E", rt, sg, ext=True)
            arg = lambda t: [r.choice({"i": [("PUSHI", 5), ("PUSHV", "G")], "f": [("PUSHV", "CX"), ("PUSHI", 0)], "s": [("PUSHV", "CS"), ("PUSHV", "S")], "n": [("PUSHVI", "A1"), ("PUSHVI", "VN")], "F": [("PUSHI", 3)]}[t])]
            inner = [i for t in sg for i in arg(t)]
            p.func("GETN", "n", "", body=[("PUSHVI", "A2"), ("RSR",)])
            p.func("NEWN", "n", "", ext=True)
            imm = [("BE", "NEWN") if i[0] == "PUSHVI" and r.random() < .5 else i for i in inner]
            p.func("MAIN", "i", "", body=[("PUSHI", 1000), ("PUSHI", 10)] + imm + [("BE", "E")] + (store[rt] or []) + [("ADD",), ("RSR",)])
            s = [p.load()] + SETUP + [{"op": "external", "fn": "NEWN", "cb": cb("n", "", "ret", 2)}]
            if kind != "none":
                s.append({"op": "default", "throws": kind == "throws", "by_name": r.random() < .5})
            s += [handler("map", dfl=r.choice(["continue", "fail", "return"]))] if r.random() < .7 else []
            s += [call("MAIN", [], "i"), call("MAIN", [], "i")]
            scns.append(s)
    # refused registrations
    p = world()
    p.func("E", "v", "", ext=True)
    p.func("F", "v", "")
    scns.append([p.load(), {"op": "external", "fn": "NOSUCH", "cb": cb()}, {"op": "external", "fn": "F", "cb": cb()}, {"op": "override", "fn": "E", "cb": cb()},
                 {"op": "override", "fn": "NOSUCH", "cb": cb()}, {"op": "external", "fn": "E", "cb": cb()}, {"op": "override", "fn": "F", "cb": cb(naked=True)}, call("F")])
    go(c, scns)


# ------------------------------------------------------------------------------------------------------------------- D05
def run_D05(c):
    build("drv_vm")
    q = c.tier == "quick"
    r = c.rng
    scns = mc_vm(c, 2) if q else mc_vm(c, 3)
    r.shuffle(scns)
    scns = scns[:800 if q else 25000]
    # every kind of failure at every depth under every strategy at every level, followed by probes
    ERRS = [[("PUSHI", 0), ("PUSHI", 1), ("DIV",)], [("PUSHI", 1), ("PUSHV", "CI"), ("MOVI",)], [("GMOVI", "VN"), ("PUSHV", "C_A.I"), ("NOT",)], [("PUSHVV", "ARR", 9), ("NOT",)],
            [("PUSHI", 1), ("PUSHI", 2), ("MOVI",)], [("BE", "NOEXT")], [("BE", "THROW")], [("BE", "STD")], [("PUSHV", 7777)], [("PUSHI", 1), ("PUSHI", 2), ("BL", 3)], [("MOVSS",)],
            [("PUSHV", "S"), ("NOT",)], [("PUSHI", 4), ("BE", "BADARG")], [("PUSHV", "CS"), ("PUSHV", "G"), ("MOVI",)], [("BE", "NEST")], [("BL", "THROWN")]]
    strategies = [None, "lenient", "continue", "return", "fail", ("BL", "continue"), ("BL", "return"), ("BE", "continue"), ("BE", "return"), ("DIV", "return")]
    combos = [(e, st, d, rt) for e in range(len(ERRS)) for st in strategies for d in (1, 2, 3) for rt in "visfn"]
    r.shuffle(combos)
    for e, st, d, rt in combos[:700 if q else None]:
        p = world()
        p.func("NOEXT", "i", "", ext=True)
        p.func("THROW", rt, "", ext=True)
        p.func("STD", "v", "", ext=True)
        p.func("BADARG", "s", "s", ext=True)
        p.func("NEST", "v", "", ext=True)
        p.func("THROWN", rt, "")
        p.func("INNER", "v", "", body=[("PUSHI", 3), ("GMOVI", "A2")] + [("PUSHI", 0), ("PUSHI", 1), ("DIV",), ("RSR",)])
        leave = {"v": [], "i": [("PUSHI", 77)], "f": [("PUSHV", "CX")], "s": [("PUSHV", "CS")], "n": [("PUSHVI", "A2")]}[rt]
        store = {"v": [], "i": [("PUSHV", "G"), ("MOVI",)], "f": [("PUSHV", "X"), ("MOVF",)], "s": [("PUSHV", "S"), ("MOVS",)], "n": [("PUSHVI", "VN"), ("MOVVI",)]}[rt]
        for k in range(d, 0, -1):
            p.func("L%d" % k, rt, "is", LOCS)
        for k in range(d, 0, -1):
            inner = ERRS[e] if k == d else [("PUSHI", k), ("PUSHV", "CS"), ("BL", "L%d" % (k + 1))] + store
            body = [("GMOVI", "A1" if k % 2 else "B1"), ("PUSHI", 500 + k)] + inner + [("PUSHV", "H"), ("ADDMOVI",)] + leave + [("RSR",)]
            p.code("L%d" % k, body)
        p.func("PROBE", "i", "i", body=[("PUSHV", "PROBE.P0"), ("PUSHV", "C_A.I"), ("ADD",), ("RSR",)])
        p.code("A2", [("PUSHI", 1), ("PUSHV", "CS"), ("BL", "L1")] + store + [("PUSHI", 9), ("PUSHV", "C_A.I"), ("MOVI",), ("RSR",)])
        s = [p.load()] + [SETUP[0]] + SETUP[2:]
        s[-1] = {"op": "setinst", "sym": "SELF", "id": r.choice([0, 1, 1, 2])}
        s += [{"op": "external", "fn": "THROW", "cb": cb(rt, "", "throw", rvalue(r, rt))}, {"op": "external", "fn": "STD", "cb": cb("v", "", "throwstd")},
              {"op": "external", "fn": "BADARG", "cb": cb("s", "s", "ret", "ok")}, {"op": "external", "fn": "NEST", "cb": cb("v", "", "call", target="INNER")},
              {"op": "override", "fn": "THROWN", "cb": cb(rt, "", r.choice(["throw", "throwstd"]), rvalue(r, rt))}]
        s.append({"op": "setgi", "id": r.choice([0, 1, 2])})
        if st == "lenient":
            s.append(handler("lenient"))
        elif isinstance(st, tuple):
            s.append(handler("map", [st], "fail"))
        elif st:
            s.append(handler("map", dfl=st))
        pre = r.choice([0, 0, 1, 3])
        s += [{"op": "push", "n": pre, "v": ["i", 7]}] if pre else []
        probe = [call("PROBE", [("i", 1)], "i"), {"op": "setgi", "id": 1}, call("PROBE", [("i", 1)], "i")]
        s += [call("L1", [("i", 1), ("s", "arg")], r.choice(["ignore", WANT[rt]]))] + probe
        s += [{"op": "init", "sym": "A2", "kind": "A", "alloc": False}] + probe + [call("L1", [("i", 1), ("s", "arg")])] + probe
        s += [{"op": "pop", "k": "i"}] * pre
        scns.append(s)
    for _ in range(120 if q else 4000):
        p, fs, es = program(r, err=.2, messy=.1)
        s = [p.load()] + SETUP + regs(r, es, ("ret", "ret", "throw", "throwstd", "call"), fs) + random_handler(r)
        if r.random() < .3:
            s.append({"op": "default", "throws": r.random() < .4, "by_name": False})
        s += histories(r, fs, 4)
        scns.append(s)
    # the operand stack is full
    for n in (2048, 2047, 2046, 2045):
        p = world()
        p.func("F", "i", "ii", body=[("PUSHV", "F.P0"), ("PUSHV", "F.P1"), ("ADD",), ("RSR",)])
        p.func("DEEP", "v", "", body=[("PUSHI", 1), ("PUSHI", 2), ("PUSHV", "CS"), ("PUSHI", 3), ("RSR",)])
        s = [p.load(), {"op": "push", "n": n, "v": ["i", 7]}, call("F", [("i", 1), ("i", 2)], "i"), call("DEEP"), {"op": "push", "n": 5, "v": ["s", "x"]}]
        s += [{"op": "pop", "k": "i"}, call("F", [("i", 1), ("i", 2)], "ignore")]
        scns.append(s)
    go(c, scns)


# ------------------------------------------------------------------------------------------------------------------- D07
def run_D07(c):
    build("drv_vm")
    q = c.tier == "quick"
    r = c.rng
    scns = []
    TYPES = [("K", INT, 1), ("A", INT, 3), ("T", STRING, 1), ("U", STRING, 2), ("Q", FLOAT, 1), ("R", FLOAT, 2), ("N", INST, 1), ("FN", FUNC, 1)]
    for _ in range(400 if q else 8000):
        p = world()
        fs = ["R1", "R2", "R3"][: r.choice([1, 1, 2, 3])]
        sig, loc, ret = {}, {}, {}
        for f in fs:
            sig[f] = "i" + r.choice(["", "i", "s", "f", "sf"])
            loc[f] = r.sample(TYPES, r.randrange(0, 6))
            ret[f] = r.choice("viisfn")
            p.func(f, ret[f], sig[f], loc[f])
        for f in fs:
            def setvars(tag):
                out = []
                for n, t, k in loc[f]:
                    for j in range(k):
                        if r.random() < .85:
                            dst = ("PUSHVV", "%s.%s" % (f, n), j)
                            depth = ("PUSHV", f + ".P0")
                            if t in (INT, FUNC):
                                out += [("PUSHI", 100 + tag), depth, ("ADD",), dst, ("MOVI" if t == INT else "MOVVF",)]
                            elif t == STRING:
                                out += [("PUSHV", r.choice(["S", "CS"] + ([f + ".P1"] if sig[f][1:2] == "s" else []))), dst, ("MOVS",)]
                            elif t == FLOAT:
                                out += [("PUSHV", f + ".P0"), ("PUSHI", 0x3f800000), ("ADD",), ("PUSHV", "G"), ("MOVI",), r.choice([("PUSHV", "CX"), ("PUSHI", 0x40000000 + tag)]), dst, ("MOVF",)]
                            else:
                                out += [("PUSHVI", r.choice(["A1", "A2", "SELF", "B1"])), dst, ("MOVVI",)]
                return out
            t = {"i": INT, "s": STRING, "f": FLOAT, "n": INST}.get(ret[f])
            own = [(n, k) for n, ty, k in loc[f] if ty == t]
            back = {"v": [], "i": [("PUSHV", "H")], "s": [("PUSHV", "S")], "f": [("PUSHV", "X")], "n": [("PUSHVI", "A1")]}[ret[f]]
            if own and r.random() < .6:
                n, k = r.choice(own)
                back = [("PUSHVV", "%s.%s" % (f, n), r.randrange(k))]
            elif ret[f] == "i" and r.random() < .5:
                back = [("PUSHV", f + ".P0"), ("PUSHI", 10), ("MUL",)]
            callee = r.choice(fs)
            lit = {"i": [("PUSHI", 4), ("PUSHV", "H"), ("PUSHV", f + ".P0")], "s": [("PUSHV", "S"), ("PUSHV", "CS")] + [("PUSHV", "%s.%s" % (f, n)) for n, ty, k in loc[f] if ty == STRING],
                   "f": [("PUSHV", "CX"), ("PUSHI", 1)] + [("PUSHV", "%s.%s" % (f, n)) for n, ty, k in loc[f] if ty == FLOAT], "n": [("PUSHVI", "A1"), ("PUSHVI", "VN")]}
            args = [("PUSHI", 1), ("PUSHV", f + ".P0"), ("SUB",)] + [r.choice(lit[x]) for x in sig[callee][1:]]
            keep = {"v": [], "i": [("PUSHVV", "ARR", r.randrange(3)), (r.choice(["MOVI", "ADDMOVI"]),)], "s": [("PUSHVV", "SARR", r.randrange(2)), ("MOVS",)],
                    "f": [("PUSHV", "X"), ("MOVF",)], "n": [("PUSHVI", "VN"), ("MOVVI",)]}[ret[callee]]
            pend = r.choice([[], [("PUSHI", 9)]])
            body = setvars(0) + [("PUSHV", f + ".P0"), ("BZ", f + "_end")] + pend + args + [("BL", callee)] + keep + ([("PUSHV", "H"), ("ADDMOVI",)] if pend else [])
            # what is left of the variables afterwards
            for n, ty, k in loc[f]:
                if ty == INT:
                    body += [("PUSHVV", "%s.%s" % (f, n), k - 1), ("PUSHV", "G"), ("ADDMOVI",)]
                elif ty == STRING and r.random() < .5:
                    body += [("PUSHVV", "%s.%s" % (f, n), k - 1), ("PUSHV", "S"), ("MOVS",)]
            body += setvars(20) if r.random() < .3 else []
            body += [("L", f + "_end")] + back + [("RSR",)]
            # the operands are evaluated right to left: 1 - P0 would be wrong, so the arguments decrement explicitly
            p.code(f, [("PUSHI", 0), ("PUSHV", f + ".P0"), ("LT",), ("BZ", f + "_go"), ("PUSHI", 0), ("PUSHV", f + ".P0"), ("MOVI",), ("L", f + "_go")] + body)
        s = [p.load()] + SETUP
        for f in fs:
            if r.random() < .85:
                s.append({"op": "locals", "fn": f, "on": True})
        s += random_handler(r) if r.random() < .2 else []
        rv = lambda t: rvalue(r, t)
        for _ in range(2):
            f = r.choice(fs)
            sg = sig[f]
            if sg in ("i", "is", "if", "iis", "iisf"):
                pass
            m = [("i", r.randrange(0, 5))] + [(t, rv(t)) for t in sg[1:]]
            s.append(call(f, m, r.choice(["ignore", WANT[ret[f]]])))
        scns.append(s)
    go(c, [s for s in scns if all("".join(a[0] for a in o["args"]) in SIGS for o in s if o["op"] == "call")])


def run_D06(c):
    build("drv_script")
    q = c.tier == "quick"
    cfg = "SPECIFICATION MCSpec\nINVARIANT Faithful Found OwnersApart\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxSyms=%d Emitting=%s\n"
    c.model("MC_Script", cfg % (3 if q else 4, "FALSE"), "all symbol tables of up to %d symbols from a pool of 13" % (3 if q else 4))
    r = c.model("MC_Script", cfg % (2 if q else 3, "TRUE"), "the same, printed", workers=1)
    scns = []
    pool = [b"A", b"A.X", b"B", b"AB", b"$Z", b"a.x", b"b", b"Ab"]
    ms = c.scenarios_from(r)
    c.cov["model_scenarios_available"] = len(ms)
    for s in ms:
        n = s[0]["data"][1]
        s = list(s)
        for i in range(n):
            s += [{"op": "symbol", "i": i}, {"op": "members", "i": i}, {"op": "by_index", "key": [0, i]}]
        s += [{"op": "by_index", "key": [0, n]}, {"op": "by_address", "key": [0, 3]}, {"op": "by_address", "key": [0, 0]}, {"op": "by_address", "key": [1, 1]},
              {"op": "by_address", "key": [0, 1]}, {"op": "instr", "at": 0}, {"op": "instr", "at": 5}, {"op": "instr", "at": 6}]
        for nm in pool:
            s += [{"op": "by_name", "key": list(nm)}, {"op": "instances", "key": list(nm)}]
        scns.append(s)
    for _ in range(800 if q else 12000):
        b, syms, at = script_file(c.rng, c.rng.random() < .2)
        scns.append([{"op": "load", "data": b}] + script_queries(c.rng, syms, at))
    traces = c.drive("drv_script", scns)
    c.validate("Trace_Script", traces, "", scns, "drv_script")
    for t in traces[-2:]:
        if t:
            c.sample([{"op": e["op"], "res": e["res"]} for e in t[:6] if e["op"] != "load"])


RUN = {"D01": run_D01, "D02": run_D02, "D03": run_D03, "D04": run_D04, "D05": run_D05, "D06": run_D06, "D07": run_D07}

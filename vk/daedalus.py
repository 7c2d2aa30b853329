"""Building blocks for Daedalus scenarios: symbol tables, an assembler, random programs."""
VOID, FLOAT, INT, STRING, CLASS, FUNC, PROTO, INST = range(8)
OPC = dict(ADD=0, SUB=1, MUL=2, DIV=3, MOD=4, OR=5, ANDB=6, LT=7, GT=8, MOVI=9, ORR=11, AND=12, LSL=13, LSR=14, LTE=15, EQ=16, NEQ=17,
           GTE=18, ADDMOVI=19, SUBMOVI=20, MULMOVI=21, DIVMOVI=22, PLUS=30, NEGATE=31, NOT=32, CMPL=33, NOP=45, RSR=60, BL=61, BE=62,
           PUSHI=64, PUSHV=65, PUSHVI=67, MOVS=70, MOVSS=71, MOVVF=72, MOVF=73, MOVVI=74, B=75, BZ=76, GMOVI=80, PUSHVV=245)
WIDE = {"BL", "BE", "PUSHI", "PUSHV", "PUSHVI", "B", "BZ", "GMOVI"}
LETTER = {"i": INT, "f": FLOAT, "s": STRING, "n": INST, "v": VOID, "F": FUNC}
MOV = {INT: "MOVI", FLOAT: "MOVF", STRING: "MOVS", INST: "MOVVI", FUNC: "MOVVF"}
EDGE = [0, 1, -1, 2, -2, 3, 7, 31, 32, 255, 256, 65535, 65536, -65536, 2147483647, -2147483648, -2147483647, 1 << 30, 12345, -12345]


def size(ins):
    return 5 if ins[0] in WIDE else 6 if ins[0] == "PUSHVV" else 0 if ins[0] == "L" else 1


class Prog:
    def __init__(self, nullok=False, ignconst=False):
        self.syms, self.idx, self.bodies, self.nullok, self.ignconst = [], {}, {}, nullok, ignconst

    def sym(self, name, type, count=1, const=False, ret=False, member=False, ext=False, rtype=VOID, addr=-1, parent=-1, val=None, of="", locals=False, trap=False, reg=""):
        if val is None:
            val = [""] * count if type == STRING else [0] if type == INST else [0] * count
        if member or type in (CLASS, PROTO) or (type == FUNC and const):
            val = []
        self.idx[name] = len(self.syms)
        self.syms.append(dict(name=name, type=type, count=count, const=const, ret=ret, member=member, ext=ext, rtype=rtype, addr=addr, parent=parent,
                              val=val, of=of, locals=locals, trap=trap, reg=reg))
        return self.idx[name]

    def cls(self, name, members, reg):
        c = self.sym(name, CLASS, count=len(members), reg=reg)
        for n, t, k in members:
            self.sym(name + "." + n, t, count=k, member=True, parent=c)
        return c

    def func(self, name, ret="v", params="", locs=(), body=None, locals=False, ext=False, prologue=True):
        self.sym(name, FUNC, count=len(params), const=True, ret=ret != "v", rtype=LETTER[ret], ext=ext, locals=locals)
        pro = []
        for k, p in enumerate(params):
            pn = "%s.P%d" % (name, k)
            self.sym(pn, LETTER[p], of=name)
            pro = [("PUSHVI" if p == "n" else "PUSHV", pn), (MOV[LETTER[p]],)] + pro
        for n, t, k in locs:
            self.sym(name + "." + n, t, count=k, of=name)
        if not ext:
            self.bodies[name] = (pro if prologue else [], body or [("RSR",)])

    def code(self, name, body):
        """The body of a function, instance or prototype; it ends with RSR unless it says otherwise."""
        pro = self.bodies[name][0] if name in self.bodies else []
        self.bodies[name] = (pro, body)

    def instance(self, name, parent, proto=False, body=None):
        self.sym(name, PROTO if proto else INST, count=0, const=True, parent=self.idx[parent])
        self.bodies[name] = ([], body or [("RSR",)])

    def assemble(self):
        at, addr = 0, {}
        for n, (pro, body) in self.bodies.items():
            addr[n] = at
            at += sum(size(i) for i in pro + body)
        out = []
        for n, (pro, body) in self.bodies.items():
            labels, p = {}, addr[n]
            for i in pro + body:
                if i[0] == "L":
                    labels[i[1]] = p
                p += size(i)
            for i in pro + body:
                if i[0] == "L":
                    continue
                out.append(OPC[i[0]])
                if i[0] in ("BL", "B", "BZ"):
                    v = i[1] if isinstance(i[1], int) else addr[i[1]] if i[0] == "BL" else labels[i[1]]
                elif i[0] in ("BE", "PUSHV", "PUSHVI", "GMOVI", "PUSHVV"):
                    v = i[1] if isinstance(i[1], int) else self.idx[i[1]]
                elif i[0] == "PUSHI":
                    v = i[1]
                else:
                    continue
                out += list((v & 0xffffffff).to_bytes(4, "little"))
                if i[0] == "PUSHVV":
                    out.append(i[2])
        for n, a in addr.items():
            self.syms[self.idx[n]]["addr"] = a
        return out

    def load(self):
        c = self.assemble()
        return {"op": "load", "syms": [dict(s) for s in self.syms], "code": c, "nullok": self.nullok, "ignconst": self.ignconst}


def world(nullok=False, ignconst=False):
    p = Prog(nullok, ignconst)
    p.cls("C_A", [("I", INT, 1), ("ARR", INT, 2), ("F", FLOAT, 1), ("S", STRING, 1), ("FN", FUNC, 1)], "A")
    p.cls("C_B", [("X", INT, 1), ("T", STRING, 2)], "B")
    p.cls("C_O", [("I", INT, 1), ("S", STRING, 2), ("F", FLOAT, 2), ("K", INT, 3)], "opaque")
    p.cls("C_P", [("J", INT, 1), ("Q", STRING, 1), ("Z", INT, 2)], "opaque")
    p.cls("C_U", [("I", INT, 1)], "")
    for n in "GH":
        p.sym(n, INT)
    p.sym("ARR", INT, 3, val=[10, 20, 30])
    p.sym("X", FLOAT)
    p.sym("XARR", FLOAT, 2, val=[0x3f000000, 0x40400000])
    p.sym("S", STRING, val=["init"])
    p.sym("SARR", STRING, 2, val=["p", "q"])
    p.sym("CI", INT, const=True, val=[7])
    p.sym("CA", INT, 2, const=True, val=[5, 6])
    p.sym("CX", FLOAT, const=True, val=[0x3f800000])
    p.sym("CS", STRING, const=True, val=["konst"])
    p.sym("FV", FUNC)
    p.sym("TR", INT, trap=True)
    p.sym("SELF", INST, parent=0)
    p.sym("OTHER", INST, parent=0)
    p.sym("VN", INST, parent=0)
    p.instance("PA", "C_A", proto=True)
    p.instance("A1", "C_A")
    p.instance("A2", "PA")
    p.instance("B1", "C_B")
    p.instance("O1", "C_O")
    p.instance("P1", "C_P")
    p.instance("U1", "C_U")
    return p


INTS = ["G", "H", "CI"]
BINOPS = ["ADD", "SUB", "MUL", "OR", "ANDB", "LT", "GT", "LTE", "GTE", "EQ", "NEQ", "AND", "ORR"]


class Gen:
    """Random, stack-balanced code (apart from what `messy` adds) for one function of a program."""

    def __init__(self, r, p, fn, callees=(), err=0.0, messy=0.0, members=True):
        self.r, self.p, self.fn, self.callees, self.err, self.messy, self.members, self.n = r, p, fn, list(callees), err, messy, members, 0

    def own(self, t):
        return [s["name"] for s in self.p.syms if s["of"] == self.fn and s["type"] == t]

    def label(self):
        self.n += 1
        return "%s_%d" % (self.fn, self.n)

    def ref_int(self):
        r = self.r
        x = r.random()
        if x < self.err:
            return r.choice([[("PUSHVV", "ARR", 3)], [("PUSHV", "S")], [("PUSHV", "C_U.I")], [("PUSHV", 9999)], [("GMOVI", "B1"), ("PUSHV", "C_A.I")],
                             [("GMOVI", "VN"), ("PUSHV", "C_A.I")], [("PUSHV", "CI")], [("GMOVI", "P1"), ("PUSHV", "C_O.I")], [("GMOVI", "O1"), ("PUSHVV", "C_P.Z", 1)],
                             [("GMOVI", "G")]])
        if x < .5 or not self.members:
            own = self.own(INT)
            if own and r.random() < .5:
                return [("PUSHV", r.choice(own))]
            return r.choice([[("PUSHV", "G")], [("PUSHV", "H")], [("PUSHVV", "ARR", r.randrange(3))]])
        return r.choice([[("GMOVI", "A1"), ("PUSHV", "C_A.I")], [("GMOVI", "A2"), ("PUSHVV", "C_A.ARR", r.randrange(2))], [("GMOVI", "SELF"), ("PUSHV", "C_A.I")],
                         [("GMOVI", "O1"), ("PUSHVV", "C_O.K", r.randrange(3))], [("GMOVI", "B1"), ("PUSHV", "C_B.X")], [("GMOVI", "P1"), ("PUSHV", "C_P.J")],
                         [("GMOVI", "A1"), ("PUSHV", "C_A.FN")], [("GMOVI", "P1"), ("PUSHVV", "C_P.Z", r.randrange(2))]])

    def call(self, ret):
        c = [f for f in self.callees if f[1] == ret]
        if not c:
            return None
        name, _, params, ext = self.r.choice(c)
        out = []
        for k in params:
            out += self.expr(k, 1)
        return out + [("BE" if ext else "BL", name)]

    def expr(self, t, d=2):
        r = self.r
        if r.random() < .25 and d > 0:
            c = self.call(t)
            if c:
                return c
        if t == "i":
            x = r.random()
            if d == 0 or x < .3:
                return [("PUSHI", r.choice(EDGE))] if r.random() < .5 else self.ref_int()
            if x < .4:
                return self.expr("i", d - 1) + [(r.choice(["PLUS", "NEGATE", "NOT", "CMPL"]),)]
            if x < .5:
                return [("PUSHI", r.randrange(32))] + self.expr("i", d - 1) + [(r.choice(["LSL", "LSR"]),)]
            if x < .6:
                return [("PUSHI", 0 if r.random() < self.err else r.choice([1, -1, 2, -3, 7, -2147483648, 65537]))] + self.expr("i", d - 1) + [(r.choice(["DIV", "MOD"]),)]
            return self.expr("i", d - 1) + self.expr("i", d - 1) + [(r.choice(BINOPS),)]
        if t == "f":
            own = self.own(FLOAT)
            o = [[("PUSHV", "X")], [("PUSHV", "CX")], [("PUSHI", r.choice([0, 0x3f800000, -0x40800000, 0x40490fdb]))]]
            if self.members:
                o += [[("GMOVI", "A1"), ("PUSHV", "C_A.F")], [("GMOVI", "O1"), ("PUSHV", "C_O.F")]]
            return [("PUSHV", r.choice(own))] if own and r.random() < .5 else r.choice(o)
        if t == "s":
            own = self.own(STRING)
            o = [[("PUSHV", "S")], [("PUSHV", "CS")], [("PUSHVV", "SARR", r.randrange(2))]]
            if self.members:
                o += [[("GMOVI", "A1"), ("PUSHV", "C_A.S")], [("GMOVI", "O1"), ("PUSHVV", "C_O.S", r.randrange(2))], [("GMOVI", "B1"), ("PUSHVV", "C_B.T", r.randrange(2))]]
            return [("PUSHV", r.choice(own))] if own and r.random() < .5 else r.choice(o)
        if t == "n":
            own = self.own(INST)
            return [("PUSHVI", r.choice(own + ["SELF", "OTHER", "VN", "A1", "A2", "A1", "B1"]))]
        return []

    def stmt(self, d=2):
        r = self.r
        x = r.random()
        if r.random() < self.messy:
            return self.expr(r.choice("iifsn"), 1)
        if x < .35:
            return self.expr("i", d) + self.ref_int() + [(r.choice(["MOVI", "MOVI", "ADDMOVI", "SUBMOVI", "MULMOVI", "DIVMOVI", "MOVVF"]),)]
        if x < .45:
            own = self.own(STRING)
            t = [("PUSHV", r.choice(own))] if own and r.random() < .4 else r.choice([[("PUSHV", "S")], [("PUSHVV", "SARR", r.randrange(2))], [("GMOVI", "A1"), ("PUSHV", "C_A.S")],
                                                                                    [("GMOVI", "O1"), ("PUSHVV", "C_O.S", r.randrange(2))], [("PUSHV", "CS")] if r.random() < self.err else [("PUSHV", "S")]])
            return self.expr("s", d) + t + [("MOVS",)]
        if x < .53:
            own = self.own(FLOAT)
            t = [("PUSHV", r.choice(own))] if own and r.random() < .4 else r.choice([[("PUSHV", "X")], [("GMOVI", "A2"), ("PUSHV", "C_A.F")]])
            return self.expr("f", d) + t + [("MOVF",)]
        if x < .6:
            return self.expr("n", d) + [("PUSHVI", r.choice(["OTHER", "VN"] + self.own(INST))), ("MOVVI",)]
        if x < .72 and d > 0:
            a, b = self.label(), self.label()
            els = self.block(d - 1, 2) if r.random() < .5 else None
            out = self.expr("i", 1) + [("BZ", a)] + self.block(d - 1, 2)
            if els is None:
                return out + [("L", a)]
            return out + [("B", b), ("L", a)] + els + [("L", b)]
        if x < .8 and d > 0:
            own = self.own(INT)
            if own:
                c, a, b = own[-1], self.label(), self.label()
                return [("PUSHI", r.randrange(1, 4)), ("PUSHV", c), ("MOVI",), ("L", a), ("PUSHV", c), ("BZ", b)] + \
                    [i for s in range(r.randrange(1, 3)) for i in self.simple(c)] + [("PUSHI", 1), ("PUSHV", c), ("SUBMOVI",), ("B", a), ("L", b)]
        c = self.call("v") or self.call(r.choice("isfn"))
        if c:
            if dict((f[0], f[1]) for f in self.callees)[c[-1][1]] != "v" and r.random() >= self.messy:
                rt = dict((f[0], f[1]) for f in self.callees)[c[-1][1]]
                return c + {"i": [("PUSHV", "G"), ("MOVI",)], "f": [("PUSHV", "X"), ("MOVF",)], "s": [("PUSHV", "S"), ("MOVS",)], "n": [("PUSHVI", "VN"), ("MOVVI",)]}[rt]
            return c
        return [("NOP",)]

    def simple(self, counter):
        """A statement that leaves the loop counter alone."""
        return [("PUSHV", counter), ("PUSHV", "H"), (self.r.choice(["ADDMOVI", "MULMOVI"]),)]

    def block(self, d=2, n=4):
        return [i for _ in range(self.r.randrange(1, n + 1)) for i in self.stmt(d)]

    def body(self, ret, n=5):
        out = self.block(2, n)
        if ret != "v" and self.r.random() >= self.messy:
            out += self.expr(ret, 1)
        return out + [("RSR",)]


def rvalue(r, t):
    return {"i": lambda: r.choice(EDGE), "b": lambda: r.randrange(2), "f": lambda: r.choice([0, 0x3f800000, -0x40800000, 0x41200000, 1]),
            "s": lambda: r.choice(["", "a", "hello", "a long string that does not fit a small buffer " + "x" * r.randrange(20)]), "n": lambda: r.choice([0, 1, 2, 3]), "v": lambda: 0}[t]()


# ------------------------------------------------------------------------------------------------- compiled script files (D06)
def w32(v):
    return list((v & 0xffffffff).to_bytes(4, "little"))


def encode_symbol(r, s):
    """s: name (bytes), type, count, flags, vary, vals, addr, parent, pos (5 words), stray"""
    b = w32(0) if s["name"] is None else w32(r.choice([1, 1, 7, 0x100])) + list(s["name"]) + [r.choice([10, 10, 10, 0])]
    b += w32(s["vary"]) + w32(s["count"] | s["type"] << 12 | s["flags"] << 16 | (r.choice([0, 0, 3]) << 22))
    for p in s["pos"]:
        b += w32(p)
    if not s["flags"] & 4:
        if s["type"] in (FLOAT, INT):
            for v in s["vals"]:
                b += w32(v)
        elif s["type"] == STRING:
            for v in s["vals"]:
                b += list(v) + [10]
        elif s["type"] in (CLASS, INST, FUNC, PROTO):
            b += w32(s["addr"])
    return b + s.get("stray", []) + w32(s["parent"])


def script_file(r, many=False):
    """A well-formed compiled script: classes with members, functions with parameters and locals, instances, constants."""
    syms, code = [], []
    names = ["A", "B", "AB", "C_NPC", "A.B", "FN", "F", "FN2", "X", "C", "AA", "A_", "É".encode("latin1").decode("latin1")]

    def add(name, type, count=1, flags=0, parent=-1, addr=-1, vary=None):
        s = dict(name=None if name is None else name.encode("latin1"), type=type, count=count, flags=flags, parent=parent, addr=addr,
                 vary=r.choice([0, 1, 4, 0xffffffff, r.randrange(1 << 32)]) if vary is None else vary,
                 pos=[r.choice([0, 1, 0x7ffff, 0x80000, 0xffffff, 0x1000000, 0xffffffff, r.randrange(1 << 32)]) for _ in range(5)], vals=[])
        if type in (FLOAT, INT):
            s["vals"] = [r.choice([0, 1, 0xffffffff, r.randrange(1 << 32)]) for _ in range(count)]
            if type == FLOAT:
                s["vals"] = [v if (v >> 23) & 255 != 255 else 0x3f800000 for v in s["vals"]]
        elif type == STRING:
            s["vals"] = [bytes(r.choice(b"aZ 0\\nt\\n\\t\xe4\"") for _ in range(r.choice([0, 1, 2, 5, 9]))) for _ in range(count)]
        syms.append(s)
        return len(syms) - 1
    classes = []

    def name():
        return r.choice(names) + r.choice(["", "", str(r.randint(0, 3))])
    for _ in range(r.randint(1, 12 if many else 6)):
        k = r.random()
        n = name()
        if k < .2:
            c = add(n, CLASS, r.randint(0, 4))
            classes.append(c)
            for j in range(r.randint(0, 4)):
                add(n + "." + r.choice("XYZ"), r.choice([INT, FLOAT, STRING, FUNC, INST]), r.choice([1, 2, 4095]), 4 | r.choice([0, 0, 1]), parent=c)
            if classes and r.random() < .3:
                add(n + ".LATE", INT, 1, 4, parent=r.choice(classes))
        elif k < .5:
            q = r.randint(0, 3)
            add(n, FUNC, q, 1 | r.choice([0, 2]) | r.choice([0, 0, 8]), addr=r.choice([0, 5, 9, r.randrange(40), -1]), vary=r.randrange(8))
            for j in range(q):
                add(n + "." + "PQR"[j], r.choice([INT, FLOAT, STRING, FUNC, INST]), 1)
            for j in range(r.randint(0, 3)):
                add(n + "." + r.choice("LMN") , r.choice([INT, FLOAT, STRING, FUNC]), r.choice([1, 2]), r.choice([0, 0, 1]))
            if r.random() < .3:
                add(n + r.choice(["", "X", "X.L", "_.L"]), INT)
        elif k < .6:
            add(n, FUNC, 1, 0, addr=r.choice([-1, 5, r.randrange(40)]), vary=r.randrange(8))
        elif k < .8:
            par = r.choice(classes + [len(syms) - 1 if syms else 0, r.randrange(6), -1])
            add(n, r.choice([INST, INST, INST, PROTO]), r.choice([0, 1]), r.choice([1, 1, 1, 0]), parent=par, addr=r.choice([0, 5, 9, r.randrange(40), r.randrange(1 << 31)]))
        elif k < .95:
            t = r.choice([INT, FLOAT, STRING, STRING])
            i = add(r.choice([n, n, "\xff" + n, None]), t, r.choice([1, 1, 2, 5, 0]), r.choice([0, 1, 1, 16, 32]))
            if t == STRING and r.random() < .3:
                if syms[i]["flags"] & 1 and r.random() < .6:
                    syms[i]["stray"] = [r.choice([10, 13, 32])] + [r.choice([10, 13, 0, 1]) for _ in range(r.randint(0, 3))]
                else:
                    syms[i]["parent"] = r.choice([32, 9, 10, 13, 0x120, 5])
        else:
            add(n, VOID, 0, 0)
    if r.random() < .4:         # several prototypes of a class, and instances of all of them
        if not classes:
            classes.append(add(name(), CLASS, 0))
        c = r.choice(classes)
        of = [c] + [add(name() + "_P%d" % j, PROTO, 0, 1, parent=c, addr=r.randrange(40)) for j in range(r.randint(1, 3))]
        for j in range(r.randint(1, 6)):
            add(name() + "_I%d" % j, INST, 0, 1, parent=r.choice(of), addr=r.randrange(40))
    # some code: whole instructions
    at = []
    for _ in range(r.randint(0, 12)):
        op = r.choice(list(OPC.values()) + [63, 100, 255])
        at.append(len(code))
        code.append(op)
        if op in (61, 62, 64, 65, 67, 75, 76, 80, 245):
            code += w32(r.choice([0, 1, 0xffffffff, r.randrange(1 << 32)]))
        if op == 245:
            code.append(r.randrange(256))
    n = len(syms)
    b = [r.choice([50, 0, 255, r.randrange(1, 256)])] + w32(n) + [r.randrange(256) for _ in range(4 * n)]
    for s in syms:
        b += encode_symbol(r, s)
    b += w32(len(code)) + code
    if r.random() < .3:
        b += [r.randrange(256) for _ in range(5)]
    return b, syms, at


def script_queries(r, syms, at):
    q = []
    n = len(syms)

    def wd(v):
        v &= 0xffffffff
        return [v >> 16, v & 0xffff]

    def case(s):
        return [c if not (65 <= c <= 90) or r.random() < .5 else c + 32 for c in s]
    for i in r.sample(range(n), min(n, 12)):
        q.append({"op": "symbol", "i": i})
    for k in {0, max(0, n - 1), n, n + 1, 0xffffffff, r.randrange(1 << 32)}:
        q.append({"op": "by_index", "key": wd(k)})
    pool = [s["name"] for s in syms if s["name"]]
    for nm in r.sample(pool, min(len(pool), 8)):
        nm = nm if nm[0] != 0xff else b"$" + nm[1:]
        q.append({"op": "by_name", "key": case(nm)})
        if r.random() < .4:
            q.append({"op": "by_name", "key": case(nm) + [r.choice([46, 65, 32, 0])]})
        if r.random() < .3:
            q.append({"op": "by_name", "key": case(nm)[:-1] or [90, 90]})
        if r.random() < .5:
            q.append({"op": "instances", "key": case(nm)})
    for a in {0, 5, 9, 0xffffffff} | {s["addr"] & 0xffffffff for s in syms} | {r.randrange(40) for _ in range(2)}:
        q.append({"op": "by_address", "key": wd(a)})
    for i, s in enumerate(syms):
        if s["type"] == FUNC and not s["flags"] & 4 and i + s["count"] < n:
            if s["flags"] & 1:
                q.append({"op": "params", "i": i})
                q.append({"op": "locals", "i": i})
        if s["type"] == CLASS:
            q.append({"op": "members", "i": i})
            if s["name"]:
                q.append({"op": "instances", "key": case(s["name"])})
    for a in r.sample(at, min(len(at), 6)):
        q.append({"op": "instr", "at": a})
    r.shuffle(q)
    return q

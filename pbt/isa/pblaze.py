"""Xilinx PicoBlaze (KCPSM3 and KCPSM6), written from the user guides UG129 and KCPSM6."""
from .common import ISACheck, Reg, Skip

C, Z, I = 1, 2, 4
#                 KCPSM3 (constant form)  KCPSM6 (register form)
ALUOP = {"LOAD": (0x00, 0x00), "FETCH": (0x06, 0x0a), "AND": (0x0a, 0x02), "OR": (0x0c, 0x04), "XOR": (0x0e, 0x06),
         "TEST": (0x12, 0x0c), "COMPARE": (0x14, 0x1c), "ADD": (0x18, 0x10), "ADDCY": (0x1a, 0x12),
         "SUB": (0x1c, 0x18), "SUBCY": (0x1e, 0x1a), "OUTPUT": (0x2c, 0x2c), "STORE": (0x2e, 0x2e),
         "INPUT": (0x04, 0x08), "TESTCY": (None, 0x0e), "COMPARECY": (None, 0x1e)}
SHIFT = {0: "SLA", 2: "RL", 4: "SLX", 6: "SL0", 7: "SL1", 8: "SRA", 0xa: "SRX", 0xc: "RR", 0xe: "SR0", 0xf: "SR1"}
COND = ("Z", "NZ", "C", "NC")


def table(v):
    """{(top bits, mask): (mnemonic, operands)}"""
    t = {}
    for n, o in ALUOP.items():
        o = o[v]
        if o is None:
            continue
        k, r = (o, o + 1) if v == 0 else (o + 1, o)
        ka = "k"
        if n in ("FETCH", "STORE") and v == 0:
            ka = "6"
        t[k << 12] = (n, ka)
        t[r << 12] = (n, "r")
    sh = (0x20000, 0x14000)[v]
    for c, n in SHIFT.items():
        t[sh | c] = (n, "x")
    if v == 0:
        t.update({0x30000: ("CALL", "a"), 0x34000: ("JUMP", "a"), 0x2a000: ("RETURN", ""),
                  0x3c000: ("DINT", ""), 0x3c001: ("EINT", "")})
        for i, c in enumerate(COND):
            t[0x31000 | i << 10] = ("CALL " + c, "a")
            t[0x35000 | i << 10] = ("JUMP " + c, "a")
            t[0x2b000 | i << 10] = ("RETURN " + c, "")
    else:
        t.update({0x20000: ("CALL", "A"), 0x22000: ("JUMP", "A"), 0x25000: ("RETURN", ""),
                  0x24000: ("CALL@", "r"), 0x26000: ("JUMP@", "r"), 0x21000: ("LDRET", "k"),
                  0x28000: ("DINT", ""), 0x28001: ("EINT", ""), 0x16000: ("STAR", "r"),
                  0x37000: ("REGBANK A", ""), 0x37001: ("REGBANK B", ""), 0x14080: ("HWBUILD", "x"),
                  0x2b000: ("OUTPUTK", "A")})
        for i, c in enumerate(COND):
            t[0x30000 | i << 14] = ("CALL " + c, "A")
            t[0x32000 | i << 14] = ("JUMP " + c, "A")
            t[0x31000 | i << 14] = ("RETURN " + c, "")
    return t


MASK = {"k": 0xfff, "r": 0xff0, "6": 0xf3f, "x": 0xf00, "a": 0x3ff, "A": 0xfff, "": 0}
TABS = [table(0), table(1)]
BY = [{(b, MASK[o[1]]): o for b, o in t.items()} for t in TABS]


class CPU:
    def __init__(self, m, v):
        self.m, self.r, self.v = m, m.r, v

    def dec(self, w):
        for (b, mk), o in BY[self.v].items():
            if w & ~mk & 0x3ffff == b:
                return o
        raise Skip()

    def step(self):
        r, m = self.r, self.m
        w = m.s["rom"].rd(r["PC"])
        n, form = self.dec(w)
        bank = m.bank
        x = "s%x" % ((w >> 8 & 15) + bank)
        y = "s%x" % ((w >> 4 & 15) + bank)
        k = w & 255
        pc = (r["PC"] + 1) & 0x3ff
        f = r["F"]
        c, z = f & C, f >> 1 & 1
        op, _, cond = n.partition(" ")
        ok = {"": 1, "Z": z, "NZ": 1 - z, "C": c, "NC": 1 - c}.get(cond)
        b = r[y] if form == "r" else w & 63 if form == "6" else k
        a = r[x]
        ram = m.s["iram"]

        def flags(c, z):
            r["F"] = f & ~(C | Z) | (C if c else 0) | (Z if z else 0)

        if op in ("CALL", "CALL@"):
            t = w & (0x3ff, 0xfff)[self.v] if op == "CALL" else (a & 15) << 8 | r[y]
            if ok or op == "CALL@":
                if t > 0x3ff or r["SP"] > 28:
                    raise Skip()
                m.s["stack"].wr(r["SP"], r["PC"])
                r["SP"] += 1
                pc = t
        elif op in ("JUMP", "JUMP@"):
            t = w & (0x3ff, 0xfff)[self.v] if op == "JUMP" else (a & 15) << 8 | r[y]
            if ok or op == "JUMP@":
                if t > 0x3ff:
                    raise Skip()
                pc = t
        elif op in ("RETURN", "LDRET"):
            if op == "LDRET":
                r[x] = k
            if ok or op == "LDRET":
                if not 1 <= r["SP"] <= 29:
                    raise Skip()
                r["SP"] -= 1
                t = m.s["stack"].rd(r["SP"])
                if t > 0x3ff:
                    raise Skip()
                pc = (t + 1) & 0x3ff
        elif op == "DINT":
            r["F"] = f & ~I
        elif op == "EINT":
            r["F"] = f | I
        elif op == "LOAD":
            r[x] = b
        elif op in ("AND", "OR", "XOR"):
            t = a & b if op == "AND" else a | b if op == "OR" else a ^ b
            r[x] = t
            flags(0, not t)
        elif op in ("TEST", "TESTCY"):
            t = a & b
            p = bin(t).count("1") & 1
            if op == "TEST":
                flags(p, not t)
            else:
                flags(p ^ c, not t and z)
        elif op in ("ADD", "ADDCY"):
            t = a + b + (c if op == "ADDCY" else 0)
            r[x] = t & 255
            flags(t > 255, not t & 255 and (z or self.v == 0 or op == "ADD"))
        elif op in ("SUB", "SUBCY"):
            t = a - b - (c if op == "SUBCY" else 0)
            r[x] = t & 255
            flags(t < 0, not t & 255 and (z or self.v == 0 or op == "SUB"))
        elif op == "COMPARE":
            flags(b > a, a == b)
        elif op == "COMPARECY":
            if b + c > 255 and a == 0 and z:
                raise Skip()
            flags(b + c > a, a == b + c and z)
        elif form == "x" and op != "HWBUILD":
            lo, hi = {"SLA": (c, None), "RL": (a >> 7, None), "SLX": (a & 1, None), "SL0": (0, None),
                      "SL1": (1, None), "SRA": (None, c), "SRX": (None, a >> 7), "RR": (None, a & 1),
                      "SR0": (None, 0), "SR1": (None, 1)}[op]
            if hi is None:
                t, co = a << 1 & 255 | lo, a >> 7
            else:
                t, co = a >> 1 | hi << 7, a & 1
            r[x] = t
            flags(co, not t)
        elif op in ("FETCH", "STORE"):
            if b > 63:
                raise Skip()
            if op == "FETCH":
                r[x] = ram.rd(b)
            else:
                ram.wr(b, a)
        elif op in ("OUTPUT", "OUTPUTK"):
            if op == "OUTPUTK":
                a, b = w >> 4 & 255, w & 15
            if 32 < a < 127:
                m.says = "Output on port %d: %2x %3d %c" % (b, a, a, a)
            else:
                m.says = "Output on port %d: %2x %3d ." % (b, a, a)
            if a == 32:
                m.says = None
        elif op == "INPUT":
            r[x] = m.s["port"].rd(0)
        elif op == "STAR":
            r["s%x" % ((w >> 8 & 15) + (bank ^ 16))] = r[y]
        elif op == "REGBANK":
            m.bank = 16 if cond == "B" else 0
        elif op == "HWBUILD":
            r[x] = 0
            flags(1, 1)
        r["PC"] = pc
        m.ticks = 2
        return n.replace(" ", "_") + "_" + form if form else n.replace(" ", "_")


class PicoBlaze(ISACheck):
    sim = "pblaze"
    variants = [(["-t", "KCPSM3"], 0), (["-t", "KCPSM6"], 1)]
    pcbits = 16
    spaces = {"rom": 0x400, "iram": 0x40, "stack": 30, "port": 1}
    cellbits = {"rom": 18, "stack": 12}
    loaded = []
    filled = ["iram", "stack"]
    regs = [Reg("s%x" % i, 8, "sfr[%d]" % i) for i in range(32)] + [Reg("F", 3, "sfr[32]"), Reg("SP", 5, "sfr[33]")]

    def image(self, name, ms):
        return [0] * self.spaces[name] if name == "rom" else super().image(name, ms)

    def model_init(self, m):
        m.bank = 0

    def readable(self, n, a):
        return n != "port"

    def poke_cmd(self, sp, a, vals):
        if sp == "port":
            return "set hardware input_port[0] %d" % vals[0]
        return super().poke_cmd(sp, a, vals)

    def gen_step(self, d, i):
        t = TABS[self.v]
        b = d.choice(sorted(t))
        n, form = t[b]
        w = b | d.edge(12) & MASK[form]
        if form == "A" and n != "OUTPUTK":
            w &= ~0xc00
        pc = d.choice([0x123, 0x3ff, d.below(0x400), d.below(0x400), 0])
        regs = {}
        x, y = w >> 8 & 15, w >> 4 & 15
        for bk in (0, 16):
            for q in {x, y}:
                if d.bool(0.6):
                    regs["s%x" % (q + bk)] = d.edge(8)
        if d.bool(0.6):
            regs["F"] = d.below(8)
        if n in ("FETCH", "STORE") and form == "r":
            for bk in (0, 16):
                regs["s%x" % (y + bk)] = d.edge(6)
        if n.endswith("@") and x != y:
            for bk in (0, 16):
                regs["s%x" % (x + bk)] = d.below(64) << 2 & 0xf3 if d.bool() else d.below(4)
        st = {"pc": pc, "code": [w], "set": regs}
        poke = []
        if n[:4] in ("RETU", "LDRE", "CALL"):
            regs["SP"] = d.int(1, 28)
            poke.append(["stack", regs["SP"] - 1, [d.choice([0x3ff, d.below(0x400)])]])
        if n == "FETCH":
            poke.append(["iram", d.edge(6) if form == "r" else w & 63, [d.edge(8)]])
        if n == "INPUT":
            poke.append(["port", 0, [d.edge(8)]])
        if poke:
            st["poke"] = poke
        return st

    def execute(self, m):
        return CPU(m, self.v).step()

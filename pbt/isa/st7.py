"""Reference model of the ST7 core, written from the ST7 family programming manual."""
from .common import ISACheck, Reg, Skip

H, I, N, Z, C = 0x10, 8, 4, 2, 1
OPS = {}        # (prefix, opcode) -> (mnemonic, mode)
ALU = {0: "SUB", 1: "CP", 2: "SBC", 3: "CPX", 4: "AND", 5: "BCP", 6: "LD", 7: "ST", 8: "XOR", 9: "ADC",
       0xa: "OR", 0xb: "ADD", 0xc: "JP", 0xd: "CALL", 0xe: "LDX", 0xf: "STX"}
RMW = {0: "NEG", 3: "CPL", 4: "SRL", 6: "RRC", 7: "SRA", 8: "SLA", 9: "RLC", 0xa: "DEC", 0xc: "INC",
       0xd: "TNZ", 0xe: "SWAP", 0xf: "CLR"}
JR = ["JRA", "JRF", "JRUGT", "JRULE", "JRNC", "JRC", "JRNE", "JREQ", "JRNH", "JRH", "JRPL", "JRMI", "JRNM", "JRM"]


def _t():
    for i in range(16):
        OPS[0, i] = ("BTJ" + "TF"[i & 1], "dir")
        OPS[0x92, i] = ("BTJ" + "TF"[i & 1], "[dir]")
        OPS[0, 0x10 + i] = (("BSET", "BRES")[i & 1], "dir")
        OPS[0x92, 0x10 + i] = (("BSET", "BRES")[i & 1], "[dir]")
    for i, m in enumerate(JR):
        OPS[0, 0x20 + i] = (m, "rel")
        OPS[0x92, 0x20 + i] = (m, "[rel]")
    OPS[0, 0xad] = ("CALLR", "rel")
    OPS[0x92, 0xad] = ("CALLR", "[rel]")
    for i, m in RMW.items():
        for p, r, mode in ((0, 3, "dir"), (0x92, 3, "[dir]"), (0, 4, "A"), (0, 5, "X"), (0x90, 5, "Y"),
                           (0, 6, "s,X"), (0x90, 6, "s,Y"), (0x92, 6, "[s],X"), (0x91, 6, "[s],Y"),
                           (0, 7, "(X)"), (0x90, 7, "(Y)")):
            OPS[p, r << 4 | i] = (m, mode)
    for i, m in ALU.items():
        y = m in ("CPX", "LDX", "STX")
        for p, r, mode in ((0, 0xa, "imm"), (0, 0xb, "dir"), (0, 0xc, "ext"), (0, 0xd, "l,X"), (0, 0xe, "s,X"),
                           (0, 0xf, "(X)"), (0x92, 0xb, "[dir]"), (0x92, 0xc, "[ext]"), (0x92, 0xd, "[l],X"),
                           (0x92, 0xe, "[s],X"), (0x90, 0xd, "l,Y"), (0x90, 0xe, "s,Y"), (0x90, 0xf, "(Y)"),
                           (0x91, 0xd, "[l],Y"), (0x91, 0xe, "[s],Y")):
            if mode == "imm" and m in ("ST", "STX", "JP", "CALL"):
                continue
            OPS[p, r << 4 | i] = (m.replace("X", "Y") if y and p in (0x90, 0x91) else m, mode)
        if y:
            for p, r, mode in ((0x90, 0xa, "imm"), (0x90, 0xb, "dir"), (0x90, 0xc, "ext"), (0x91, 0xb, "[dir]"), (0x91, 0xc, "[ext]")):
                if mode == "imm" and m == "STX":
                    continue
                OPS[p, r << 4 | i] = (m.replace("X", "Y"), mode)
    for p, c, m in ((0, 0x80, "IRET"), (0, 0x81, "RET"), (0, 0x42, "MUL"), (0x90, 0x42, "MUL"),
                    (0, 0x84, "POP A"), (0, 0x85, "POP X"), (0x90, 0x85, "POP Y"), (0, 0x86, "POP CC"),
                    (0, 0x88, "PUSH A"), (0, 0x89, "PUSH X"), (0x90, 0x89, "PUSH Y"), (0, 0x8a, "PUSH CC"),
                    (0, 0x93, "LD X,Y"), (0x90, 0x93, "LD Y,X"), (0, 0x96, "LD X,S"), (0x90, 0x96, "LD Y,S"),
                    (0, 0x97, "LD X,A"), (0x90, 0x97, "LD Y,A"), (0, 0x9e, "LD A,S"), (0, 0x9f, "LD A,X"),
                    (0x90, 0x9f, "LD A,Y"), (0, 0x98, "RCF"), (0, 0x99, "SCF"), (0, 0x9a, "RIM"), (0, 0x9b, "SIM"),
                    (0, 0x9c, "RSP"), (0, 0x9d, "NOP")):
        OPS[p, c] = (m, "inh")


_t()
CODES = sorted(OPS)


class CPU:
    def __init__(self, m):
        self.m, self.r, self.s = m, m.r, m.s["rom"]

    def f8(self):
        v = self.s.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def w(self, a):
        return self.s.rd(a & 0xffff) << 8 | self.s.rd(a + 1 & 0xffff)

    def ea(self, mode):
        r = self.r
        if mode == "dir":
            return self.f8()
        if mode == "[dir]":
            return self.s.rd(self.f8())
        if mode in ("(X)", "(Y)"):
            return r[mode[1]]
        if mode == "ext":
            h = self.f8()
            return h << 8 | self.f8()
        if mode == "[ext]":
            return self.w(self.f8())
        if mode[:2] == "s,":
            return self.f8() + r[mode[-1]]
        if mode[:2] == "[s":
            return self.s.rd(self.f8()) + r[mode[-1]]
        if mode[:2] == "l,":
            h = self.f8()
            return ((h << 8 | self.f8()) + r[mode[-1]]) & 0xffff
        return (self.w(self.f8()) + r[mode[-1]]) & 0xffff

    def fl(self, mask, v):
        self.r["CC"] = self.r["CC"] & ~mask | v & mask

    def nz(self, v, c=None):
        v &= 255
        self.fl(N | Z, (N if v & 0x80 else 0) | (Z if not v else 0))
        if c is not None:
            self.fl(C, C if c else 0)
        return v

    def push(self, v):
        self.s.wr(self.r["SP"], v & 255)
        self.r["SP"] -= 1

    def pop(self):
        self.r["SP"] += 1
        return self.s.rd(self.r["SP"])

    def rel(self, mode):
        o = self.f8() if mode == "rel" else self.s.rd(self.f8())
        return self.pc + (o - 256 if o > 127 else o)

    def step(self):
        r = self.r
        self.pc = r["PC"]
        op = self.f8()
        pre = 0
        if op in (0x90, 0x91, 0x92):
            pre = op
            op = self.f8()
        if (pre, op) not in OPS:
            raise Skip()
        m, mode = OPS[pre, op]
        if not 0x110 <= r["SP"] <= 0x1f0:
            raise Skip()
        self.do(op, m, mode)
        r["CC"] |= 0xe0
        r["PC"] = self.pc & 0xffff
        return "%s%02X_%s_%s" % ("%02X" % pre if pre else "", op, m.replace(" ", "."), mode)

    def do(self, op, m, mode):
        r, s = self.r, self.s
        c = r["CC"] & C
        if m in ("BSET", "BRES"):
            a = self.ea(mode)
            b = 1 << (op >> 1 & 7)
            s.wr(a, s.rd(a) | b if m == "BSET" else s.rd(a) & ~b & 255)
        elif m in ("BTJT", "BTJF"):
            v = s.rd(self.ea(mode)) >> (op >> 1 & 7) & 1
            t = self.rel("rel")
            self.fl(C, v)
            if v == (m == "BTJT"):
                self.pc = t
        elif m in JR:
            k = JR.index(m)
            f = r["CC"]
            x = [0, f & (C | Z), f & C, f & Z, f & H, f & N, f & I][k >> 1]
            t = self.rel(mode)
            if bool(x) == bool(k & 1):
                self.pc = t
        elif m == "CALLR":
            t = self.rel(mode)
            self.push(self.pc)
            self.push(self.pc >> 8)
            self.pc = t
        elif m in ("JP", "CALL"):
            t = self.ea(mode)
            if m == "CALL":
                self.push(self.pc)
                self.push(self.pc >> 8)
            self.pc = t
        elif mode == "inh":
            self.inh(op, m)
        elif m in RMW.values():
            a = None
            if mode in ("A", "X", "Y"):
                v = r[mode]
            else:
                a = self.ea(mode)
                v = s.rd(a)
            t = {"NEG": -v, "CPL": ~v, "SRL": v >> 1, "RRC": v >> 1 | c << 7, "SRA": v >> 1 | v & 0x80,
                 "SLA": v << 1, "RLC": v << 1 | c, "DEC": v - 1, "INC": v + 1, "TNZ": v,
                 "SWAP": v << 4 | v >> 4, "CLR": 0}[m]
            cc = {"NEG": v != 0, "CPL": 1, "SRL": v & 1, "RRC": v & 1, "SRA": v & 1, "SLA": v & 0x80,
                  "RLC": v & 0x80}.get(m)
            t = self.nz(t, cc)
            if m != "TNZ":
                if a is None:
                    r[mode] = t
                else:
                    s.wr(a, t)
        elif m in ("ST", "STX", "STY"):
            a = self.ea(mode)
            v = r["A" if m == "ST" else m[2]]
            s.wr(a, v)
            self.nz(v)
        else:
            v = self.f8() if mode == "imm" else s.rd(self.ea(mode))
            if m in ("LDX", "LDY"):
                r[m[2]] = self.nz(v)
            elif m in ("CPX", "CPY"):
                x = r[m[2]]
                self.nz(x - v, x < v)
            else:
                A = r["A"]
                if m == "LD":
                    A = self.nz(v)
                elif m == "CP":
                    self.nz(A - v, A < v)
                elif m == "BCP":
                    self.nz(A & v)
                elif m == "AND":
                    A = self.nz(A & v)
                elif m == "OR":
                    A = self.nz(A | v)
                elif m == "XOR":
                    A = self.nz(A ^ v)
                elif m in ("SUB", "SBC"):
                    t = A - v - (c if m == "SBC" else 0)
                    A = self.nz(t, t < 0)
                else:
                    k = c if m == "ADC" else 0
                    t = A + v + k
                    self.fl(H, H if (A & 15) + (v & 15) + k > 15 else 0)
                    A = self.nz(t, t > 255)
                r["A"] = A

    def inh(self, op, m):
        r = self.r
        w = m.split(" ")
        if m == "MUL":
            k = "Y" if self.s.rd(r["PC"]) == 0x90 else "X"
            t = r["A"] * r[k]
            r["A"], r[k] = t & 255, t >> 8
            self.fl(H | C, 0)
        elif w[0] == "LD":
            d, x = w[1].split(",")
            r[d] = r["SP"] & 255 if x == "S" else r[x]
        elif w[0] == "PUSH":
            self.push(r[w[1]])
        elif w[0] == "POP":
            v = self.pop()
            if w[1] == "CC":
                if v & 0xe0 != 0xe0:
                    raise Skip()
            r[w[1]] = v
        elif m == "IRET":
            v = self.pop()
            if v & 0xe0 != 0xe0:
                raise Skip()
            r["CC"] = v
            r["A"] = self.pop()
            r["X"] = self.pop()
            h = self.pop()
            self.pc = h << 8 | self.pop()
        elif m == "RET":
            h = self.pop()
            self.pc = h << 8 | self.pop()
        elif m in ("RCF", "SCF"):
            self.fl(C, C if m == "SCF" else 0)
        elif m in ("RIM", "SIM"):
            self.fl(I, I if m == "SIM" else 0)
        elif m == "RSP":
            r["SP"] = 0x17f


class ST7(ISACheck):
    sim = "st7"
    regs = [Reg("A", 8, "regs8[0]"), Reg("CC", 8, "regs8[1]"), Reg("X", 8, "regs8[2]"), Reg("Y", 8, "regs8[3]"),
            Reg("SP", 16, "regs16[2]")]
    prologue = ["expr /n sp_limit=0", "step"]

    def init_regs(self, case):
        r = super().init_regs(case)
        r["CC"] |= 0xe0
        r["SP"] = 0x17f
        return r

    def model_init(self, m):
        pass

    def gen_step(self, d, i):
        pre, op = d.choice(CODES)
        code = [pre, op] if pre else [op]
        code += [d.edge(8), d.edge(8), d.edge(8)]
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
        if "CC" in regs:
            regs["CC"] |= 0xe0
        regs["SP"] = d.choice([0x17f, d.int(0x118, 0x1e8)])
        st = {"pc": pc, "code": code, "set": regs}
        if not pre and op in (0x80, 0x86):
            st["poke"] = [["rom", regs["SP"] + 1, [d.edge(8) | 0xe0]]]
        return st

    def execute(self, m):
        return CPU(m).step()

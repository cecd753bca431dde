"""Reference model of the Motorola 6809."""
from .common import ISACheck, Reg, Skip

E, F, H, I, N, Z, V, C = 0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01

RMW = ("NEG", None, None, "COM", "LSR", None, "ROR", "ASR", "ASL", "ROL", "DEC", None, "INC", "TST", "JMP", "CLR")
ALU = ("SUB", "CMP", "SBC", None, "AND", "BIT", "LD", "ST", "EOR", "ADC", "OR", "ADD")
MODES = ("imm", "dir", "idx", "ext")
OPS = {}        # code bytes -> (mnemonic, mode)


def _t():
    def o(m, mode, *c):
        assert c not in OPS
        OPS[c] = (m, mode)
    for i, m in enumerate(RMW):
        if m:
            for b, mode in ((0, "dir"), (0x40, "A"), (0x50, "B"), (0x60, "idx"), (0x70, "ext")):
                if m != "JMP" or mode not in "AB":
                    o(m, mode, b | i)
    for c, m in ((0x12, "NOP"), (0x19, "DAA"), (0x1a, "ORCC"), (0x1c, "ANDCC"), (0x1d, "SEX"), (0x1e, "EXG"),
                 (0x1f, "TFR"), (0x34, "PSHS"), (0x35, "PULS"), (0x36, "PSHU"), (0x37, "PULU"), (0x39, "RTS"),
                 (0x3a, "ABX"), (0x3b, "RTI"), (0x3d, "MUL"), (0x3f, "SWI")):
        o(m, "inh", c)
    o("SWI2", "inh", 0x10, 0x3f)
    o("SWI3", "inh", 0x11, 0x3f)
    o("LBRA", "rel16", 0x16)
    o("LBSR", "rel16", 0x17)
    o("BSR", "rel", 0x8d)
    for i, m in enumerate(("RA", "RN", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE")):
        o("B" + m, "rel", 0x20 | i)
        if i:
            o("LB" + m, "rel16", 0x10, 0x20 | i)
    for i, r in enumerate("XYSU"):
        o("LEA" + r, "idx", 0x30 | i)
    for a, r in ((0x80, "A"), (0xc0, "B")):
        for j, mode in enumerate(MODES):
            b = a | j << 4
            for i, m in enumerate(ALU):
                if m and (m != "ST" or j):
                    o(m + r, mode, b | i)
            if r == "A":
                o("SUBD", mode, b | 3)
                o("CMPD", mode, 0x10, b | 3)
                o("CMPU", mode, 0x11, b | 3)
                o("CMPX", mode, b | 12)
                o("CMPY", mode, 0x10, b | 12)
                o("CMPS", mode, 0x11, b | 12)
                o("LDX", mode, b | 14)
                o("LDY", mode, 0x10, b | 14)
                if j:
                    o("JSR", mode, b | 13)
                    o("STX", mode, b | 15)
                    o("STY", mode, 0x10, b | 15)
            else:
                o("ADDD", mode, b | 3)
                o("LDD", mode, b | 12)
                o("LDU", mode, b | 14)
                o("LDS", mode, 0x10, b | 14)
                if j:
                    o("STD", mode, b | 13)
                    o("STU", mode, b | 15)
                    o("STS", mode, 0x10, b | 15)


_t()
CODES = sorted(OPS)
R16 = {0: "D", 1: "X", 2: "Y", 3: "U", 4: "S", 5: "PC"}
R8 = {8: "A", 9: "B", 10: "CC", 11: "DP"}


class CPU:
    lo, hi = 0xc000, 0xc023     # devices are mapped here

    def __init__(self, m):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]

    def rd(self, a):
        a &= 0xffff
        if self.lo <= a <= self.hi:
            raise Skip()
        return self.s.m[a]

    def wr(self, a, v):
        a &= 0xffff
        if self.lo <= a <= self.hi:
            raise Skip()
        self.s.wr(a, v & 255)

    def rd16(self, a):
        return self.rd(a) << 8 | self.rd(a + 1)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8() << 8
        return v | self.f8()

    def get(self, n):
        r = self.r
        if n == "D":
            return r["A"] << 8 | r["B"]
        if n == "PC":
            return self.pc
        return r[n]

    def put(self, n, v):
        r = self.r
        if n == "D":
            r["A"], r["B"] = v >> 8 & 255, v & 255
        elif n == "PC":
            self.pc = v & 0xffff
        else:
            r[n] = v & (255 if len(n) == 2 or n in "AB" else 0xffff)

    def push(self, st, v):
        self.r[st] = (self.r[st] - 1) & 0xffff
        self.wr(self.r[st], v)

    def push16(self, st, v):
        self.push(st, v & 255)
        self.push(st, v >> 8)

    def pull(self, st):
        v = self.rd(self.r[st])
        self.r[st] = (self.r[st] + 1) & 0xffff
        return v

    def pull16(self, st):
        v = self.pull(st) << 8
        return v | self.pull(st)

    def fl(self, mask, v):
        self.r["CC"] = self.r["CC"] & ~mask | v

    def nz(self, v, bits=8):
        self.fl(N | Z, (N if v >> (bits - 1) & 1 else 0) | (0 if v & ((1 << bits) - 1) else Z))

    def nz0(self, v, bits=8):
        self.nz(v, bits)
        self.fl(V, 0)

    def add(self, a, b, c=0, bits=8):
        mk = (1 << bits) - 1
        s = a + b + c
        self.nz(s & mk, bits)
        self.fl(C | V, (C if s > mk else 0) | (V if ~(a ^ b) & (a ^ s) & (mk + 1) >> 1 else 0))
        if bits == 8:
            self.fl(H, H if (a & 15) + (b & 15) + c > 15 else 0)
        return s & mk

    def sub(self, a, b, c=0, bits=8):
        mk = (1 << bits) - 1
        s = a - b - c
        self.nz(s & mk, bits)
        self.fl(C | V, (C if s < 0 else 0) | (V if (a ^ b) & (a ^ s) & (mk + 1) >> 1 else 0))
        if bits == 8:
            self.m.loose["CC"] = H
        return s & mk

    def index(self):
        p = self.f8()
        rn = "XYUS"[p >> 5 & 3]
        r = self.r
        if not p & 0x80:
            o = p & 31
            return (r[rn] + (o - 32 if o > 15 else o)) & 0xffff
        k, ind = p & 15, p & 16

        def s8(v):
            return v - 256 if v > 127 else v
        if k in (0, 2) and ind:
            raise Skip()
        if k == 0:
            a = r[rn]
            self.put(rn, a + 1)
        elif k == 1:
            a = r[rn]
            self.put(rn, a + 2)
        elif k == 2:
            self.put(rn, r[rn] - 1)
            a = r[rn]
        elif k == 3:
            self.put(rn, r[rn] - 2)
            a = r[rn]
        elif k == 4:
            a = r[rn]
        elif k == 5:
            a = r[rn] + s8(r["B"])
        elif k == 6:
            a = r[rn] + s8(r["A"])
        elif k == 8:
            a = r[rn] + s8(self.f8())
        elif k == 9:
            a = r[rn] + self.f16()
        elif k == 11:
            a = r[rn] + self.get("D")
        elif k == 12:
            o = self.f8()
            a = self.pc + s8(o)
        elif k == 13:
            o = self.f16()
            a = self.pc + o
        elif p == 0x9f:
            a = self.f16()
        else:
            raise Skip()
        a &= 0xffff
        if ind:
            a = self.rd16(a)
        return a

    def ea(self, mode, size=1):
        if mode == "imm":
            a = self.pc
            self.pc = (self.pc + size) & 0xffff
            return a
        if mode == "dir":
            return self.r["DP"] << 8 | self.f8()
        if mode == "ext":
            return self.f16()
        return self.index()

    def cond(self, i):
        f = self.r["CC"]
        n, z, v, c = f >> 3 & 1, f >> 2 & 1, f >> 1 & 1, f & 1
        t = (1, not (c | z), not c, not z, not v, not n, not (n ^ v), not (z | (n ^ v)))[i >> 1]
        return bool(t) ^ (i & 1)

    def step(self):
        r = self.r
        op = (self.f8(),)
        if op[0] in (0x10, 0x11):
            op += (self.f8(),)
        if op not in OPS:
            raise Skip()
        m, mode = OPS[op]
        self.do(op[-1], m, mode)
        r["PC"] = self.pc
        return "%s_%s_%s" % ("".join("%02X" % x for x in op), m, mode)

    def rmw(self, m, v):
        c = self.r["CC"] & C
        if m == "NEG":
            return self.sub(0, v)
        if m == "COM":
            v ^= 255
            self.nz0(v)
            self.fl(C, C)
            return v
        if m in ("INC", "DEC"):
            w = (v + (1 if m == "INC" else -1)) & 255
            self.nz(w)
            self.fl(V, V if v == (0x7f if m == "INC" else 0x80) else 0)
            return w
        if m == "TST":
            self.nz0(v)
            return v
        if m == "CLR":
            self.nz0(0)
            self.fl(C, 0)
            return 0
        if m in ("ASL", "ROL"):
            w = (v << 1 | (c if m == "ROL" else 0)) & 255
            self.nz(w)
            self.fl(C | V, v >> 7 | (V if (v ^ v << 1) & 0x80 else 0))
            if m == "ASL":
                self.m.loose["CC"] = H
            return w
        w = v >> 1 | {"LSR": 0, "ASR": v & 0x80, "ROR": c << 7}[m]
        self.nz(w)
        self.fl(C, v & 1)
        if m == "ASR":
            self.m.loose["CC"] = H
        return w

    def do(self, op, m, mode):
        r = self.r
        if mode in ("rel", "rel16"):
            if mode == "rel":
                e = self.f8()
                e = e - 256 if e > 127 else e
            else:
                e = self.f16()
            t = (self.pc + e) & 0xffff
            if m in ("BSR", "LBSR"):
                self.push16("S", self.pc)
                self.pc = t
            elif m == "LBRA" or self.cond(op & 15):
                self.pc = t
        elif mode in ("A", "B"):
            r[mode] = self.rmw(m, r[mode])
        elif m in ("JMP", "JSR"):
            a = self.ea(mode)
            if m == "JSR":
                self.push16("S", self.pc)
            self.pc = a
        elif m in RMW:
            a = self.ea(mode)
            v = 0 if m == "CLR" else self.rd(a)
            v = self.rmw(m, v)
            if m != "TST":
                self.wr(a, v)
        elif m[:3] == "LEA":
            a = self.index()
            r[m[3]] = a
            if m[3] in "XY":
                self.fl(Z, 0 if a else Z)
        elif mode == "inh":
            self.inh(m)
        else:
            g = m[-1]
            k = m[:-1]
            bits = 8 if g in "AB" else 16
            a = self.ea(mode, bits // 8)
            if k == "ST":
                v = self.get(g)
                if bits == 16:
                    self.wr(a, v >> 8)
                    self.wr(a + 1, v)
                else:
                    self.wr(a, v)
                self.nz0(v, bits)
                return
            b = self.rd(a) if bits == 8 else self.rd16(a)
            v = self.get(g)
            c = r["CC"] & C
            if k == "SUB":
                self.put(g, self.sub(v, b, 0, bits))
            elif k == "SBC":
                self.put(g, self.sub(v, b, c, bits))
            elif k == "CMP":
                self.sub(v, b, 0, bits)
            elif k == "ADD":
                self.put(g, self.add(v, b, 0, bits))
            elif k == "ADC":
                self.put(g, self.add(v, b, c, bits))
            else:
                w = {"LD": b, "AND": v & b, "BIT": v & b, "OR": v | b, "EOR": v ^ b}[k]
                self.nz0(w, bits)
                if k != "BIT":
                    self.put(g, w)

    def push_all(self, st="S", mask=0xff):
        o = "U" if st == "S" else "S"
        for b, n in ((0x80, "PC"), (0x40, o), (0x20, "Y"), (0x10, "X")):
            if mask & b:
                self.push16(st, self.get(n))
        for b, n in ((8, "DP"), (4, "B"), (2, "A"), (1, "CC")):
            if mask & b:
                self.push(st, self.r[n])

    def pull_all(self, st, mask):
        o = "U" if st == "S" else "S"
        for b, n in ((1, "CC"), (2, "A"), (4, "B"), (8, "DP")):
            if mask & b:
                self.r[n] = self.pull(st)
        for b, n in ((0x10, "X"), (0x20, "Y"), (0x40, o), (0x80, "PC")):
            if mask & b:
                self.put(n, self.pull16(st))

    def inh(self, m):
        r = self.r
        if m == "NOP":
            pass
        elif m == "DAA":
            a, cc = r["A"], r["CC"]
            lo, hi = a & 15, a >> 4
            k = 0
            if cc & H or lo > 9:
                k = 6
            c = cc & C
            if c or hi > 9 or hi == 9 and lo > 9:
                k += 0x60
            r["A"] = (a + k) & 255
            self.nz(r["A"])
            self.fl(C, C if c or a + k > 255 else 0)
            self.m.loose["CC"] = V
        elif m == "ORCC":
            r["CC"] |= self.f8()
        elif m == "ANDCC":
            r["CC"] &= self.f8()
        elif m == "SEX":
            r["A"] = 0xff if r["B"] & 0x80 else 0
            self.nz(self.get("D"), 16)
            self.m.loose["CC"] = V
        elif m in ("EXG", "TFR"):
            p = self.f8()
            t = [R16.get(x) or R8.get(x) for x in (p >> 4, p & 15)]
            if None in t or (p >> 4 ^ p) & 8:
                raise Skip()
            a, b = self.get(t[0]), self.get(t[1])
            self.put(t[1], a)
            if m == "EXG":
                self.put(t[0], b)
        elif m in ("PSHS", "PSHU"):
            self.push_all(m[3], self.f8())
        elif m in ("PULS", "PULU"):
            self.pull_all(m[3], self.f8())
        elif m == "RTS":
            self.pc = self.pull16("S")
        elif m == "ABX":
            r["X"] = (r["X"] + r["B"]) & 0xffff
        elif m == "RTI":
            r["CC"] = self.pull("S")
            self.pull_all("S", 0xfe if r["CC"] & E else 0x80)
        elif m == "MUL":
            d = r["A"] * r["B"]
            self.put("D", d)
            self.fl(Z | C, (0 if d else Z) | (C if d & 0x80 else 0))
        else:
            assert m[:3] == "SWI"
            r["CC"] |= E
            self.push_all()
            if m == "SWI":
                r["CC"] |= F | I
            self.pc = self.rd16({"SWI": 0xfffa, "SWI2": 0xfff4, "SWI3": 0xfff2}[m])


class M6809(ISACheck):
    sim = "m6809"
    regs = [Reg("A"), Reg("B"), Reg("CC"), Reg("DP"), Reg("X", 16), Reg("Y", 16), Reg("U", 16), Reg("S", 16)]
    cpu = CPU

    def memcheck_ranges(self, name):
        return [(0, 0xbfff), (0xc024, 0xffff)]

    def readable(self, n, a):
        return not self.cpu.lo <= a <= self.cpu.hi

    def gen_step(self, d, i):
        op = d.choice(CODES)
        m, mode = OPS[op]
        code = list(op) + [d.edge(8), d.edge(8), d.edge(8)]
        if mode == "idx" and d.bool(0.8):
            p = d.choice([0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x88, 0x89, 0x8b, 0x8c, 0x8d, 0x91, 0x93, 0x94, 0x95,
                          0x96, 0x98, 0x99, 0x9b, 0x9c, 0x9d, 0x9f, d.bits(7)])
            if p & 0x80 and p != 0x9f:
                p |= d.below(4) << 5
            code[len(op)] = p
        elif m in ("EXG", "TFR") and d.bool(0.8):
            code[1] = d.below(6) << 4 | d.below(6) if d.bool() else 0x88 | d.below(4) << 4 | d.below(4)
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.5):
                regs[g.name] = d.edge(g.bits)
        return {"pc": pc, "code": code, "set": regs}

    def pre(self, m):
        if any(self.cpu.lo <= (m.r["PC"] + k) & 0xffff <= self.cpu.hi for k in range(6)):
            m.r["PC"] = self.cpu.lo

    def execute(self, m):
        return self.cpu(m).step()

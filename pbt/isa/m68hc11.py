"""Reference model of the Motorola 68HC11."""
from .common import ISACheck, Reg, Skip
from . import m6800
from .m6800 import C, V, Z, N, I

OPS = dict(m6800.OPS)
OPS.update({0x02: ("IDIV", "inh", 0), 0x03: ("FDIV", "inh", 0), 0x8f: ("XGDX", "inh", 0)})
for _b, _m in ((0x12, "dir"), (0x1c, "idx")):
    _o = ("BRSET", "BRCLR", "BSET", "BCLR") if _m == "dir" else ("BSET", "BCLR", "BRSET", "BRCLR")
    for _i, _n in enumerate(_o):
        OPS[_b + _i] = (_n, _m, 0)
# instructions behind the prefixes: the same ones working with Y
P18 = {c: OPS[c] for c in OPS if OPS[c][1] == "idx"}
for _c in (0xac, 0xee, 0xef, 0x08, 0x09, 0x30, 0x35, 0x38, 0x3a, 0x3c, 0x8c, 0x8f, 0x9c, 0xbc, 0xce, 0xde, 0xdf, 0xfe, 0xff):
    P18[_c] = OPS[_c]
P1A = {0x83: ("CPD", "imm"), 0x93: ("CPD", "dir"), 0xa3: ("CPD", "idx"), 0xb3: ("CPD", "ext"), 0xac: ("CPY", "idx"),
       0xee: ("LDY", "idx"), 0xef: ("STY", "idx")}
PCD = {0xa3: ("CPD", "idx"), 0xac: ("CPX", "idx"), 0xee: ("LDX", "idx"), 0xef: ("STX", "idx")}


class CPU(m6800.CPU):
    ops = OPS
    cc_or = 0
    xy = "X"        # the index register instructions work with

    def step(self):
        r = self.r
        op = self.f8()
        pre = 0
        if op in (0x18, 0x1a, 0xcd):
            pre = op
            op = self.f8()
        t = {0: OPS, 0x18: P18, 0x1a: P1A, 0xcd: PCD}[pre]
        if op not in t:
            raise Skip()
        m, mode = t[op][:2]
        if pre in (0x18, 0xcd):
            self.ix = "Y"
        self.xy = "Y" if pre == 0x18 else "X"
        self.pre = pre
        self.m.ticks = self.cycles(m, mode)
        self.do(op, m, mode)
        self.m.loose["CC"] = self.m.loose.get("CC", 0) | 0xc0
        r["PC"] = self.pc
        return "%s%02X_%s_%s" % ("%02X" % pre if pre else "", op, m, mode)

    def cycles(self, m, mode):
        p = int(self.pre == 0x18)
        if m in ("IDIV", "FDIV"):
            return 41
        if m in ("BSET", "BCLR", "BRSET", "BRCLR"):
            return (6 if mode == "dir" else 7) + p
        if m == "XGDX":
            return 3 + p
        if m in ("RTI", "SWI"):
            return {"RTI": 12, "SWI": 14}[m]
        if mode == "inh" or mode in ("A", "B", "rel"):
            return super().cycles(m, mode) + p
        if self.pre in (0x1a, 0xcd) or p:
            k = {"imm": 4, "dir": 5, "idx": 6, "ext": 6}[mode]
            if m in ("CPD", "CPX", "CPY"):
                return k + 1
            if m in ("LDX", "LDY", "STX", "STY"):
                return k if mode != "imm" else 4
        return super().cycles(m, mode) + p

    def cpx(self, v):
        self.sub(self.r[self.xy], v, 0, 16)

    def word(self, m, mode):
        a = self.ea(mode, 2)
        reg = m[2]
        if reg == "X" and self.pre == 0x18:
            reg = "Y"
        if reg == "S":
            reg = "SP"
        if m[:2] == "ST":
            v = self.d if reg == "D" else self.r[reg]
            self.wr16(a, v)
            self.nz0(v, 16)
            return
        v = self.rd16(a)
        if m[:2] == "CP":
            self.sub(self.d if reg == "D" else self.r[reg], v, 0, 16)
        elif m == "SUBD":
            self.d = self.sub(self.d, v, 0, 16)
        elif m == "ADDD":
            self.d = self.add(self.d, v, 0, 16)
        else:
            if reg == "D":
                self.d = v
            else:
                self.r[reg] = v
            self.nz0(v, 16)

    def do(self, op, m, mode):
        r = self.r
        if m in ("BSET", "BCLR"):
            a = self.ea(mode)
            k = self.f8()
            v = self.rd(a)
            v = v | k if m == "BSET" else v & ~k & 255
            self.wr(a, v)
            self.nz0(v)
        elif m in ("BRSET", "BRCLR"):
            a = self.ea(mode)
            k = self.f8()
            e = self.f8()
            v = self.rd(a)
            if ((~v if m == "BRSET" else v) & k) == 0:
                self.pc = (self.pc + (e - 256 if e > 127 else e)) & 0xffff
        elif m in ("CPD", "CPY", "LDY", "STY"):
            self.word(m, mode)
        else:
            super().do(op, m, mode)

    def inh(self, m):
        r = self.r
        x = self.xy
        if m == "XGDX":
            t = self.d
            self.d = r[x]
            r[x] = t
        elif m in ("INX", "DEX"):
            r[x] = (r[x] + (1 if m == "INX" else -1)) & 0xffff
            self.fl(Z, 0 if r[x] else Z)
        elif m == "ABX":
            r[x] = (r[x] + r["B"]) & 0xffff
        elif m == "TSX":
            r[x] = (r["SP"] + 1) & 0xffff
        elif m == "TXS":
            r["SP"] = (r[x] - 1) & 0xffff
        elif m == "PSHX":
            self.push16(r[x])
        elif m == "PULX":
            r[x] = self.pop16()
        elif m == "TPA":
            r["A"] = r["CC"]
            self.m.loose["A"] = 0xc0
        elif m in ("IDIV", "FDIV"):
            n, k = self.d, r["X"]
            self.fl(V | C, 0)
            if m == "FDIV":
                n <<= 16
                if k <= self.d:
                    self.fl(V, V)
            if k == 0:
                self.fl(C, C)
            if k == 0 or m == "FDIV" and k <= self.d:
                r["X"] = 0xffff
                self.m.loose["A"] = self.m.loose["B"] = 0xff     # (no defined remainder)
            else:
                r["X"] = n // k
                self.d = n % k
            self.fl(Z, 0 if r["X"] else Z)
        else:
            super().inh(m)

    def swi(self):
        r = self.r
        self.push16(self.pc)
        self.push16(r["Y"])
        self.push16(r["X"])
        self.push(r["A"])
        self.push(r["B"])
        self.push(r["CC"] | 0xc0)
        self.fl(I, I)
        self.pc = self.rd16(0xfff6)

    def rti(self):
        r = self.r
        r["CC"] = self.pop()
        r["B"] = self.pop()
        r["A"] = self.pop()
        r["X"] = self.pop16()
        r["Y"] = self.pop16()
        self.pc = self.pop16()


CODES = ([(c,) for c in sorted(OPS)] + [(0x18, c) for c in sorted(P18)] + 2 * [(0x1a, c) for c in sorted(P1A)]
         + 2 * [(0xcd, c) for c in sorted(PCD)])


class M68HC11(m6800.M6800):
    sim = "m68hc11"
    variants = []
    regs = m6800.M6800.regs[:4] + [Reg("Y", 16, var="IY"), Reg("SP", 16)]
    cpu = CPU

    def gen_step(self, d, i):
        op = d.choice(CODES)
        code = list(op) + [d.edge(8) for _ in range(4 - len(op) + 1)]
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
                if g.name == "CC":
                    regs["CC"] |= 0xc0
        if op[-1] in (2, 3) and len(op) == 1 and d.bool(0.6):
            regs["X"] = d.edge(d.choice([4, 8, 16]))
            if d.bool(0.3):
                k = (regs["X"] + d.choice([0, 0, 1, -1])) & 0xffff
                regs["A"], regs["B"] = k >> 8, k & 0xff
        return {"pc": pc, "code": code, "set": regs}

    def execute(self, m):
        return self.cpu(m, 1).step()

"""Reference model of the Motorola 6800 and 6801."""
from .common import ISACheck, Reg, Skip

H, I, N, Z, V, C = 0x20, 0x10, 0x08, 0x04, 0x02, 0x01

OPS = {}        # opcode -> (mnemonic, mode, cpu: 0 all, 1 6801 only)
RMW = ("NEG", None, None, "COM", "LSR", None, "ROR", "ASR", "ASL", "ROL", "DEC", None, "INC", "TST", "JMP", "CLR")
ACC = ("SUB", "CMP", "SBC", "D", "AND", "BIT", "LDA", "STA", "EOR", "ADC", "ORA", "ADD")
MODES = ("imm", "dir", "idx", "ext")


def _t():
    def o(c, m, mode, cpu=0):
        assert c not in OPS, hex(c)
        OPS[c] = (m, mode, cpu)
    for c, m in ((1, "NOP"), (6, "TAP"), (7, "TPA"), (8, "INX"), (9, "DEX"), (0xa, "CLV"), (0xb, "SEV"), (0xc, "CLC"),
                 (0xd, "SEC"), (0xe, "CLI"), (0xf, "SEI"), (0x10, "SBA"), (0x11, "CBA"), (0x16, "TAB"), (0x17, "TBA"),
                 (0x19, "DAA"), (0x1b, "ABA"), (0x30, "TSX"), (0x31, "INS"), (0x32, "PULA"), (0x33, "PULB"),
                 (0x34, "DES"), (0x35, "TXS"), (0x36, "PSHA"), (0x37, "PSHB"), (0x39, "RTS"), (0x3b, "RTI"),
                 (0x3f, "SWI")):
        o(c, m, "inh")
    for c, m in ((4, "LSRD"), (5, "ASLD"), (0x38, "PULX"), (0x3a, "ABX"), (0x3c, "PSHX"), (0x3d, "MUL")):
        o(c, m, "inh", 1)
    for i, m in enumerate(("RA", "RN", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE")):
        o(0x20 | i, "B" + m, "rel", int(i == 1))
    for i, m in enumerate(RMW):
        if m:
            for b, mode in ((0x40, "A"), (0x50, "B"), (0x60, "idx"), (0x70, "ext")):
                if m != "JMP" or b >= 0x60:
                    o(b | i, m, mode)
    for a, r in ((0x80, "A"), (0xc0, "B")):
        for j, mode in enumerate(MODES):
            b = a | j << 4
            for i, m in enumerate(ACC):
                if m == "STA" and mode == "imm":
                    continue
                if m == "D":
                    o(b | i, "SUBD" if r == "A" else "ADDD", mode, 1)
                else:
                    o(b | i, m + r, mode)
            if r == "A":
                o(b | 0xc, "CPX", mode)
                if mode != "imm":
                    o(b | 0xd, "JSR", mode, int(mode == "dir"))
                else:
                    o(b | 0xd, "BSR", "rel")
            else:
                o(b | 0xc, "LDD", mode, 1)
                if mode != "imm":
                    o(b | 0xd, "STD", mode, 1)
            x = "S" if r == "A" else "X"
            o(b | 0xe, "LD" + x, mode)
            if mode != "imm":
                o(b | 0xf, "ST" + x, mode)


_t()


class CPU:
    ops = OPS
    push_len = 7
    cc_or = 0xc0        # bits of CC that are always set

    def __init__(self, m, later):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]
        self.later = later      # 0: 6800, 1: 6801
        self.ix = "X"

    # devices are mapped here
    lo, hi = 0x8000, 0x8023

    def rd(self, a):
        a &= 0xffff
        if self.lo <= a <= self.hi:
            raise Skip()
        return self.s.m[a]

    def wr(self, a, v):
        a &= 0xffff
        if self.lo <= a <= self.hi:
            raise Skip()
        self.s.wr(a, v & 255)

    def rd16(self, a):
        return self.rd(a) << 8 | self.rd(a + 1)

    def wr16(self, a, v):
        self.wr(a, v >> 8)
        self.wr(a + 1, v)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8() << 8
        return v | self.f8()

    def ea(self, mode, size=1):
        if mode == "imm":
            a = self.pc
            self.pc = (self.pc + size) & 0xffff
            return a
        if mode == "dir":
            return self.f8()
        if mode == "ext":
            return self.f16()
        assert mode == "idx", mode
        return (self.f8() + self.r[self.ix]) & 0xffff

    @property
    def d(self):
        return self.r["A"] << 8 | self.r["B"]

    @d.setter
    def d(self, v):
        self.r["A"] = v >> 8 & 255
        self.r["B"] = v & 255

    def fl(self, mask, v):
        self.r["CC"] = self.r["CC"] & ~mask | v

    def nz(self, v, b=8):
        self.fl(N | Z, (N if v >> (b - 1) & 1 else 0) | (Z if v == 0 else 0))

    def nz0(self, v, b=8):
        """N and Z by the value, V cleared (loads, stores, logic)"""
        self.nz(v, b)
        self.fl(V, 0)

    def add(self, a, v, c=0, b=8):
        t = a + v + c
        top = 1 << (b - 1)
        self.fl(V | C, (V if ~(a ^ v) & (a ^ t) & top else 0) | (C if t >> b else 0))
        if b == 8:
            self.fl(H, H if (a & 15) + (v & 15) + c > 15 else 0)
        t &= (1 << b) - 1
        self.nz(t, b)
        return t

    def sub(self, a, v, c=0, b=8):
        t = a - v - c
        top = 1 << (b - 1)
        self.fl(V | C, (V if (a ^ v) & (a ^ t) & top else 0) | (C if t < 0 else 0))
        t &= (1 << b) - 1
        self.nz(t, b)
        return t

    def push(self, v):
        self.wr(self.r["SP"], v)
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff

    def pop(self):
        self.r["SP"] = (self.r["SP"] + 1) & 0xffff
        return self.rd(self.r["SP"])

    def push16(self, v):
        self.push(v)
        self.push(v >> 8)

    def pop16(self):
        h = self.pop()
        return h << 8 | self.pop()

    def cond(self, n):
        cc = self.r["CC"]
        c, v, z, n_ = bool(cc & C), bool(cc & V), bool(cc & Z), bool(cc & N)
        return ((True, False, not (c or z), c or z, not c, c, not z, z, not v, v, not n_, n_, n_ == v, n_ != v,
                 not z and n_ == v, z or n_ != v)[n])

    def shift(self, m, v, b=8):
        top = 1 << (b - 1)
        ci = self.r["CC"] & C
        if m in ("ASL", "ROL"):
            co = v >> (b - 1)
            t = (v << 1 | (ci if m == "ROL" else 0)) & ((1 << b) - 1)
        else:
            co = v & 1
            t = v >> 1 | (v & top if m == "ASR" else ci * top if m == "ROR" else 0)
        self.nz(t, b)
        n = int(bool(t & top))
        self.fl(C | V, (C if co else 0) | (V if n ^ co else 0))
        return t

    def rmw(self, m, v):
        if m == "NEG":
            t = -v & 255
            self.nz(t)
            self.fl(V | C, (V if t == 0x80 else 0) | (C if t else 0))
        elif m == "COM":
            t = v ^ 255
            self.nz0(t)
            self.fl(C, C)
        elif m == "DEC":
            t = (v - 1) & 255
            self.nz(t)
            self.fl(V, V if t == 0x7f else 0)
        elif m == "INC":
            t = (v + 1) & 255
            self.nz(t)
            self.fl(V, V if t == 0x80 else 0)
        elif m == "CLR":
            t = 0
            self.fl(N | Z | V | C, Z)
        else:
            t = self.shift(m, v)
        return t

    def table(self):
        op = self.f8()
        if op not in self.ops:
            raise Skip()
        return op, self.ops[op]

    def step(self):
        op, (m, mode, cpu) = self.table()
        if cpu and not self.later:
            raise Skip()
        self.m.ticks = self.cycles(m, mode)
        self.do(op, m, mode)
        self.r["PC"] = self.pc
        self.r["CC"] |= self.cc_or
        return "%02X_%s_%s" % (op, m, mode)

    def cycles(self, m, mode):
        """clock cycles by the data sheet"""
        k = self.later
        if mode == "rel":
            return (6 if k else 8) if m == "BSR" else 3 if k else 4
        if mode == "inh":
            if m in ("INX", "DEX", "INS", "DES", "TSX", "TXS"):
                return 3 if k else 4
            n = {"PSHA": 3 if k else 4, "PULA": 4, "RTS": 5, "RTI": 10, "SWI": 12, "ABX": 3, "PSHX": 4, "PULX": 5,
                 "MUL": 10, "LSRD": 3, "ASLD": 3}
            n["PSHB"], n["PULB"] = n["PSHA"], n["PULA"]
            return n.get(m, 2)
        if mode in ("A", "B"):
            return 2
        j = MODES.index(mode)
        if m == "JMP":
            return 3 if k or mode == "ext" else 4
        if m == "JSR":
            return ((0, 5, 6, 6) if k else (0, 0, 8, 9))[j]
        if m in RMW:
            return 6 if k or mode == "ext" else 7
        n = ((2, 3, 4, 4) if k else (2, 3, 5, 4))[j]
        if k:
            if m in ("SUBD", "ADDD", "CPX"):
                n += 2
            elif m in ("LDD", "LDX", "LDS", "STD", "STX", "STS"):
                n += 1
        else:
            if m[:2] == "ST":
                n += 1
            if m in ("LDX", "LDS", "STX", "STS", "CPX"):
                n += 1
        return n

    def swi(self):
        r = self.r
        self.push16(self.pc)
        self.push16(r["X"])
        self.push(r["A"])
        self.push(r["B"])
        self.push(r["CC"])
        self.fl(I, I)
        self.pc = self.rd16(0xfffa)

    def rti(self):
        r = self.r
        r["CC"] = self.pop()
        r["B"] = self.pop()
        r["A"] = self.pop()
        r["X"] = self.pop16()
        self.pc = self.pop16()

    def do(self, op, m, mode):
        r = self.r
        if mode == "rel":
            e = self.f8()
            t = (self.pc + (e - 256 if e > 127 else e)) & 0xffff
            if m == "BSR":
                self.push16(self.pc)
                self.pc = t
            elif self.cond(op & 15):
                self.pc = t
        elif mode in ("A", "B"):
            if m == "TST":
                self.nz0(r[mode])
                self.fl(C, 0)
            else:
                r[mode] = self.rmw(m, r[mode])
        elif m in ("JMP", "JSR"):
            a = self.ea(mode)
            if m == "JSR":
                self.push16(self.pc)
            self.pc = a
        elif m in RMW:
            a = self.ea(mode)
            v = self.rd(a)
            if m == "TST":
                self.nz0(v)
                self.fl(C, 0)
            else:
                self.wr(a, self.rmw(m, v))
        elif mode == "inh":
            self.inh(m)
        elif m in ("STAA", "STAB"):
            v = r[m[3]]
            self.wr(self.ea(mode), v)
            self.nz0(v)
        elif m in ("CPX", "LDX", "LDS", "STX", "STS", "SUBD", "ADDD", "LDD", "STD"):
            self.word(m, mode)
        else:
            self.alu(m[:3], m[3], self.rd(self.ea(mode)))

    def word(self, m, mode):
        a = self.ea(mode, 2)
        reg = {"X": self.ix, "S": "SP", "D": "D"}.get(m[2])
        if m[:2] == "ST":
            v = self.d if reg == "D" else self.r[reg]
            self.wr16(a, v)
            self.nz0(v, 16)
            return
        v = self.rd16(a)
        if m == "CPX":
            c = self.r["CC"] & C
            self.sub(self.r[self.ix], v, 0, 16)
            if not self.later:
                self.fl(C, c)
                self.m.loose["CC"] = N | V      # (only of the upper bytes)
        elif m == "SUBD":
            self.d = self.sub(self.d, v, 0, 16)
        elif m == "ADDD":
            self.d = self.add(self.d, v, 0, 16)
        else:
            if reg == "D":
                self.d = v
            else:
                self.r[reg] = v
            self.nz0(v, 16)

    def alu(self, m, g, v):
        r = self.r
        c = r["CC"] & C
        if m == "SUB":
            r[g] = self.sub(r[g], v)
        elif m == "SBC":
            r[g] = self.sub(r[g], v, c)
        elif m == "CMP":
            self.sub(r[g], v)
        elif m == "ADD":
            r[g] = self.add(r[g], v)
        elif m == "ADC":
            r[g] = self.add(r[g], v, c)
        elif m == "BIT":
            self.nz0(r[g] & v)
        elif m == "LDA":
            r[g] = v
            self.nz0(v)
        else:
            r[g] = {"AND": r[g] & v, "ORA": r[g] | v, "EOR": r[g] ^ v}[m]
            self.nz0(r[g])

    def inh(self, m):
        r = self.r
        if m == "NOP":
            pass
        elif m == "TAP":
            r["CC"] = r["A"]
        elif m == "TPA":
            r["A"] = r["CC"] | self.cc_or
        elif m in ("INX", "DEX"):
            r["X"] = (r["X"] + (1 if m == "INX" else -1)) & 0xffff
            self.fl(Z, 0 if r["X"] else Z)
        elif m in ("INS", "DES"):
            r["SP"] = (r["SP"] + (1 if m == "INS" else -1)) & 0xffff
        elif m in ("CLV", "SEV", "CLC", "SEC", "CLI", "SEI"):
            b = {"V": V, "C": C, "I": I}[m[2]]
            self.fl(b, b if m[0] == "S" else 0)
        elif m == "SBA":
            r["A"] = self.sub(r["A"], r["B"])
        elif m == "CBA":
            self.sub(r["A"], r["B"])
        elif m == "ABA":
            r["A"] = self.add(r["A"], r["B"])
        elif m in ("TAB", "TBA"):
            r[m[2]] = r[m[1]]
            self.nz0(r[m[2]])
        elif m == "DAA":
            a, cc = r["A"], r["CC"]
            lo, hi = a & 15, a >> 4
            k = 0
            if cc & H or lo > 9:
                k = 6
            c = cc & C
            if c or hi > 9 or hi == 9 and lo > 9:
                k += 0x60
                c = C
            r["A"] = (a + k) & 255
            self.nz(r["A"])
            self.fl(C, c)
            self.m.loose["CC"] = V
        elif m == "TSX":
            r["X"] = (r["SP"] + 1) & 0xffff
        elif m == "TXS":
            r["SP"] = (r["X"] - 1) & 0xffff
        elif m in ("PULA", "PULB"):
            r[m[3]] = self.pop()
        elif m in ("PSHA", "PSHB"):
            self.push(r[m[3]])
        elif m == "PSHX":
            self.push16(r["X"])
        elif m == "PULX":
            r["X"] = self.pop16()
        elif m == "RTS":
            self.pc = self.pop16()
        elif m == "RTI":
            self.rti()
        elif m == "SWI":
            self.swi()
        elif m == "LSRD":
            self.d = self.shift("LSR", self.d, 16)
        elif m == "ASLD":
            self.d = self.shift("ASL", self.d, 16)
        elif m == "ABX":
            r["X"] = (r["X"] + r["B"]) & 0xffff
        elif m == "MUL":
            self.d = r["A"] * r["B"]
            self.fl(C, C if self.d & 0x80 else 0)
        else:
            assert 0, m


CODES = [sorted(c for c in OPS if OPS[c][2] <= k) for k in range(2)]


class M6800(ISACheck):
    sim = "m6800"
    variants = [(["-t", "6800"], 0), (["-t", "6801"], 1)]
    regs = [Reg("A"), Reg("B"), Reg("CC"), Reg("X", 16, var="IX"), Reg("SP", 16)]
    cpu = CPU

    def memcheck_ranges(self, name):
        return [(0, 0x7fff), (0x8024, 0xffff)]

    def model_init(self, m):
        m.r["CC"] |= 0xc0

    def readable(self, n, a):
        return not self.cpu.lo <= a <= self.cpu.hi

    def codes(self):
        return CODES[self.variants[self.v][1]]

    def gen_step(self, d, i):
        op = d.choice(self.codes())
        code = [op, d.edge(8), d.edge(8)]
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
                if g.name == "CC":
                    regs["CC"] |= 0xc0
        return {"pc": pc, "code": code, "set": regs}

    def pre(self, m):
        # the code must not be poked into devices
        if any(self.cpu.lo <= (m.r["PC"] + k) & 0xffff <= self.cpu.hi for k in range(5)):
            m.r["PC"] = self.cpu.lo

    def execute(self, m):
        return self.cpu(m, self.variants[self.v][1]).step()

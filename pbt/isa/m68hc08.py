"""Reference model of the Motorola/Freescale 68HC08 and HCS08 (and the paged calls of the 9S08)."""
from .common import ISACheck, Reg, Skip

V, H, I, N, Z, C = 0x80, 0x10, 0x08, 0x04, 0x02, 0x01

OPS = {}        # opcode (0x9exx: prefixed) -> (mnemonic, mode, cpu: 0 all, 1 HCS08, 2 9S08; clock cycles of the HC08)
ALU = ("SUB", "CMP", "SBC", "CPX", "AND", "BIT", "LDA", "STA", "EOR", "ADC", "ORA", "ADD", "JMP", "JSR", "LDX", "STX")
RMW = {0: "NEG", 3: "COM", 4: "LSR", 6: "ROR", 7: "ASR", 8: "LSL", 9: "ROL", 0xa: "DEC", 0xc: "INC", 0xd: "TST", 0xf: "CLR"}


def _t():
    def o(c, m, mode, n, cpu=0):
        assert c not in OPS, hex(c)
        OPS[c] = (m, mode, cpu, n)
    for i in range(8):
        o(2 * i, "BRSET%d" % i, "dirb", 5)
        o(2 * i + 1, "BRCLR%d" % i, "dirb", 5)
        o(0x10 + 2 * i, "BSET%d" % i, "dir", 4)
        o(0x11 + 2 * i, "BCLR%d" % i, "dir", 4)
    for i, m in enumerate(("RA", "RN", "HI", "LS", "CC", "CS", "NE", "EQ", "HCC", "HCS", "PL", "MI", "MC", "MS")):
        o(0x20 + i, "B" + m, "rel", 3)
    for i, m in enumerate(("GE", "LT", "GT", "LE")):
        o(0x90 + i, "B" + m, "rel", 3)
    for row, mode, n in ((0x30, "dir", 4), (0x40, "A", 1), (0x50, "X", 1), (0x60, "ix1", 4), (0x70, "ix", 3), (0x9e60, "sp1", 5)):
        for c, m in RMW.items():
            k = n
            if n > 1 and m in ("TST", "CLR"):
                k = n - 1
            o(row + c, m, mode, k)
    for row, mode, n in ((0x31, "dir", 5), (0x41, "imm", 4), (0x51, "immx", 4), (0x61, "ix1+", 5), (0x71, "ix+", 4), (0x9e61, "sp1", 6)):
        o(row, "CBEQ", mode, n)
    for row, mode, n in ((0x3b, "dir", 5), (0x4b, "A", 3), (0x5b, "X", 3), (0x6b, "ix1", 5), (0x7b, "ix", 4), (0x9e6b, "sp1", 6)):
        o(row, "DBNZ", mode, n)
    for c, m, mode, n in ((0x35, "STHX", "dir", 4), (0x42, "MUL", "inh", 5), (0x45, "LDHX", "imm", 3), (0x55, "LDHX", "dir", 4),
                          (0x4e, "MOV", "dd", 5), (0x5e, "MOV", "dx", 4), (0x6e, "MOV", "id", 4), (0x7e, "MOV", "xd", 4),
                          (0x52, "DIV", "inh", 7), (0x62, "NSA", "inh", 3), (0x72, "DAA", "inh", 2), (0x65, "CPHX", "imm", 3),
                          (0x75, "CPHX", "dir", 4), (0x80, "RTI", "inh", 7), (0x81, "RTS", "inh", 4), (0x83, "SWI", "inh", 9),
                          (0x84, "TAP", "inh", 2), (0x85, "TPA", "inh", 1), (0x86, "PULA", "inh", 2), (0x87, "PSHA", "inh", 2),
                          (0x88, "PULX", "inh", 2), (0x89, "PSHX", "inh", 2), (0x8a, "PULH", "inh", 2), (0x8b, "PSHH", "inh", 2),
                          (0x8c, "CLRH", "inh", 1), (0x94, "TXS", "inh", 2), (0x95, "TSX", "inh", 2), (0x97, "TAX", "inh", 1),
                          (0x98, "CLC", "inh", 1), (0x99, "SEC", "inh", 1), (0x9a, "CLI", "inh", 2), (0x9b, "SEI", "inh", 2),
                          (0x9c, "RSP", "inh", 1), (0x9d, "NOP", "inh", 1), (0x9f, "TXA", "inh", 1), (0xa7, "AIS", "imm", 2),
                          (0xaf, "AIX", "imm", 2), (0xad, "BSR", "rel", 4)):
        o(c, m, mode, n)
    for c, m, mode in ((0x32, "LDHX", "ext"), (0x3e, "CPHX", "ext"), (0x96, "STHX", "ext"), (0x9eae, "LDHX", "ix"),
                       (0x9ebe, "LDHX", "ix2"), (0x9ece, "LDHX", "ix1"), (0x9efe, "LDHX", "sp1"), (0x9ef3, "CPHX", "sp1"),
                       (0x9eff, "STHX", "sp1")):
        o(c, m, mode, None, 1)
    o(0xac, "CALL", "page", None, 2)
    o(0x8d, "RTC", "inh", None, 2)
    for row, mode, n in ((0xa0, "imm", 2), (0xb0, "dir", 3), (0xc0, "ext", 4), (0xd0, "ix2", 4), (0xe0, "ix1", 3), (0xf0, "ix", 2),
                         (0x9ed0, "sp2", 5), (0x9ee0, "sp1", 4)):
        for i, m in enumerate(ALU):
            if mode == "imm" and m in ("STA", "JMP", "JSR", "STX") or mode[:2] == "sp" and m in ("JMP", "JSR"):
                continue
            k = n
            if m == "JMP":
                k = {"dir": 2, "ext": 3, "ix2": 4, "ix1": 3, "ix": 3}[mode]
            if m == "JSR":
                k = {"dir": 4, "ext": 5, "ix2": 6, "ix1": 5, "ix": 4}[mode]
            o(row + i, m, mode, k)


_t()


class CPU:
    def __init__(self, m, later):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]
        self.later = later

    def dev(self, a):
        if self.later == 2 and 0x78 <= a <= 0x7f:
            raise Skip()

    def rd(self, a):
        a &= 0xffff
        self.dev(a)
        return self.s.m[a]

    def wr(self, a, v):
        a &= 0xffff
        self.dev(a)
        self.s.wr(a, v & 255)

    def rd16(self, a):
        return self.rd(a) << 8 | self.rd(a + 1)

    def wr16(self, a, v):
        self.wr(a, v >> 8)
        self.wr(a + 1, v)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8() << 8
        return v | self.f8()

    @property
    def hx(self):
        return self.r["H"] << 8 | self.r["X"]

    @hx.setter
    def hx(self, v):
        self.r["H"] = v >> 8 & 255
        self.r["X"] = v & 255

    def ea(self, mode, size=1):
        if mode in ("imm", "immx"):
            a = self.pc
            self.pc = (self.pc + size) & 0xffff
            return a
        if mode == "dir":
            return self.f8()
        if mode == "ext":
            return self.f16()
        if mode == "ix":
            return self.hx
        if mode == "ix1":
            return (self.f8() + self.hx) & 0xffff
        if mode == "ix2":
            return (self.f16() + self.hx) & 0xffff
        if mode == "sp1":
            return (self.f8() + self.r["SP"]) & 0xffff
        assert mode == "sp2", mode
        return (self.f16() + self.r["SP"]) & 0xffff

    def fl(self, mask, v):
        self.r["P"] = self.r["P"] & ~mask | v

    def nz(self, v, b=8):
        self.fl(N | Z, (N if v >> (b - 1) & 1 else 0) | (Z if v == 0 else 0))

    def nz0(self, v, b=8):
        self.nz(v, b)
        self.fl(V, 0)

    def add(self, a, v, c=0):
        t = a + v + c
        self.fl(V | C | H, (V if ~(a ^ v) & (a ^ t) & 0x80 else 0) | (C if t > 255 else 0)
                | (H if (a & 15) + (v & 15) + c > 15 else 0))
        self.nz(t & 255)
        return t & 255

    def sub(self, a, v, c=0, b=8):
        t = a - v - c
        top = 1 << (b - 1)
        self.fl(V | C, (V if (a ^ v) & (a ^ t) & top else 0) | (C if t < 0 else 0))
        t &= (1 << b) - 1
        self.nz(t, b)
        return t

    def push(self, v):
        self.wr(self.r["SP"], v)
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff

    def pop(self):
        self.r["SP"] = (self.r["SP"] + 1) & 0xffff
        return self.rd(self.r["SP"])

    def push16(self, v):
        self.push(v)
        self.push(v >> 8)

    def pop16(self):
        h = self.pop()
        return h << 8 | self.pop()

    def branch(self, c):
        e = self.f8()
        if c:
            self.pc = (self.pc + (e - 256 if e > 127 else e)) & 0xffff

    def rmw(self, m, v):
        ci = self.r["P"] & C
        if m == "NEG":
            t = -v & 255
            self.nz(t)
            self.fl(V | C, (V if t == 0x80 else 0) | (C if t else 0))
        elif m == "COM":
            t = v ^ 255
            self.nz0(t)
            self.fl(C, C)
        elif m in ("DEC", "INC"):
            t = (v + (1 if m == "INC" else -1)) & 255
            self.nz(t)
            self.fl(V, V if t == (0x80 if m == "INC" else 0x7f) else 0)
        elif m == "CLR":
            t = 0
            self.nz0(0)
        else:
            if m in ("LSL", "ROL"):
                co = v >> 7
                t = (v << 1 | (ci if m == "ROL" else 0)) & 255
            else:
                co = v & 1
                t = v >> 1 | (v & 0x80 if m == "ASR" else ci << 7 if m == "ROR" else 0)
            self.nz(t)
            self.fl(C | V, co | (V if t >> 7 ^ co else 0))
        return t

    def step(self):
        op = self.f8()
        if op == 0x9e:
            op = 0x9e00 | self.f8()
        if op not in OPS:
            raise Skip()
        m, mode, cpu, n = OPS[op]
        if cpu > self.later:
            raise Skip()
        self.m.loose["P"] = 0x60
        self.do(op, m, mode)
        self.r["PC"] = self.pc
        return "%02X_%s_%s" % (op, m, mode)

    def cond(self, m):
        p = self.r["P"]
        c, v, z, n = bool(p & C), bool(p & V), bool(p & Z), bool(p & N)
        return {"BRA": True, "BRN": False, "BHI": not (c or z), "BLS": c or z, "BCC": not c, "BCS": c, "BNE": not z, "BEQ": z,
                "BHCC": not p & H, "BHCS": p & H, "BPL": not n, "BMI": n, "BMC": not p & I, "BMS": p & I,
                "BGE": n == v, "BLT": n != v, "BGT": not z and n == v, "BLE": z or n != v}[m]

    def do(self, op, m, mode):
        r = self.r
        if m[:5] in ("BRSET", "BRCLR"):
            v = self.rd(self.f8()) >> int(m[5]) & 1
            self.fl(C, v)
            self.branch(v == (m[2] == "S"))
        elif m[:4] in ("BSET", "BCLR"):
            a = self.f8()
            b = 1 << int(m[4])
            v = self.rd(a)
            self.wr(a, v | b if m[1] == "S" else v & ~b)
        elif m == "BSR":
            e = self.f8()
            self.push16(self.pc)
            self.pc = (self.pc + (e - 256 if e > 127 else e)) & 0xffff
        elif mode == "rel":
            self.branch(self.cond(m))
        elif m in RMW.values():
            if mode in ("A", "X"):
                if m == "TST":
                    self.nz0(r[mode])
                else:
                    r[mode] = self.rmw(m, r[mode])
            else:
                a = self.ea(mode)
                v = self.rd(a)
                if m == "TST":
                    self.nz0(v)
                else:
                    self.wr(a, self.rmw(m, v))
        elif m == "CBEQ":
            v = self.rd(self.ea(mode.rstrip("+")))
            eq = v == r["X" if mode == "immx" else "A"]
            if mode[-1] == "+":
                self.hx = (self.hx + 1) & 0xffff
            self.branch(eq)
        elif m == "DBNZ":
            if mode in ("A", "X"):
                r[mode] = t = (r[mode] - 1) & 255
            else:
                a = self.ea(mode)
                t = (self.rd(a) - 1) & 255
                self.wr(a, t)
            self.branch(t != 0)
        elif m == "MOV":
            if mode == "dd":
                v = self.rd(self.f8())
                a = self.f8()
            elif mode == "dx":
                v = self.rd(self.f8())
                a = self.hx
            elif mode == "id":
                v = self.f8()
                a = self.f8()
            else:
                v = self.rd(self.hx)
                a = self.f8()
            self.wr(a, v)
            if "x" in mode:
                self.hx = (self.hx + 1) & 0xffff
            self.nz0(v)
        elif m == "STHX":
            a = self.ea(mode)
            v = self.hx
            self.wr16(a, v)
            self.nz0(v, 16)
        elif m == "LDHX":
            a = self.ea(mode, 2)
            self.hx = self.rd16(a)
            self.nz0(self.hx, 16)
        elif m == "CPHX":
            self.sub(self.hx, self.rd16(self.ea(mode, 2)), 0, 16)
        elif m in ("AIS", "AIX"):
            v = self.f8()
            v = v - 256 if v > 127 else v
            if m == "AIS":
                r["SP"] = (r["SP"] + v) & 0xffff
            else:
                self.hx = (self.hx + v) & 0xffff
        elif mode == "inh":
            self.inh(m)
        elif m == "CALL":
            if self.f8() != 2:
                raise Skip()
            a = self.f16()
            self.push16(self.pc)
            self.push(2)
            self.pc = a
        elif m == "JMP":
            self.pc = self.ea(mode)
        elif m == "JSR":
            a = self.ea(mode)
            self.push16(self.pc)
            self.pc = a
        elif m in ("STA", "STX"):
            v = r[m[2]]
            self.wr(self.ea(mode), v)
            self.nz0(v)
        else:
            self.alu(m, self.rd(self.ea(mode)))

    def alu(self, m, v):
        r = self.r
        c = r["P"] & C
        if m in ("SUB", "SBC"):
            r["A"] = self.sub(r["A"], v, c if m == "SBC" else 0)
        elif m == "CMP":
            self.sub(r["A"], v)
        elif m == "CPX":
            self.sub(r["X"], v)
        elif m in ("ADD", "ADC"):
            r["A"] = self.add(r["A"], v, c if m == "ADC" else 0)
        elif m == "BIT":
            self.nz0(r["A"] & v)
        elif m in ("LDA", "LDX"):
            r[m[2]] = v
            self.nz0(v)
        else:
            r["A"] = {"AND": r["A"] & v, "ORA": r["A"] | v, "EOR": r["A"] ^ v}[m]
            self.nz0(r["A"])

    def inh(self, m):
        r = self.r
        if m == "MUL":
            t = r["A"] * r["X"]
            r["A"], r["X"] = t & 255, t >> 8
            self.fl(C | H, 0)
        elif m == "DIV":
            n, x = r["H"] << 8 | r["A"], r["X"]
            if x == 0 or n // x > 255:
                self.fl(C, C)
                self.m.loose.update({"A": 255, "H": 255, "P": 0x60 | Z})
            else:
                r["A"], r["H"] = n // x, n % x
                self.fl(C | Z, Z if r["A"] == 0 else 0)
        elif m == "NSA":
            r["A"] = r["A"] >> 4 | r["A"] << 4 & 0xf0
        elif m == "DAA":
            a, p = r["A"], r["P"]
            lo, hi = a & 15, a >> 4
            k = 6 if p & H or lo > 9 else 0
            c = p & C
            if c or hi > 9 or hi == 9 and lo > 9:
                k += 0x60
                c = C
            r["A"] = (a + k) & 255
            self.nz(r["A"])
            self.fl(C, c)
            self.m.loose["P"] = 0x60 | V
        elif m == "RTI":
            r["P"] = self.pop()
            r["A"] = self.pop()
            r["X"] = self.pop()
            self.pc = self.pop16()
        elif m == "RTS":
            self.pc = self.pop16()
        elif m == "RTC":
            if self.pop() != 2:
                raise Skip()
            self.pc = self.pop16()
        elif m == "SWI":
            self.push16(self.pc)
            self.push(r["X"])
            self.push(r["A"])
            self.push(r["P"])
            self.fl(I, I)
            self.pc = self.rd16(0xfffc)
        elif m == "TAP":
            r["P"] = r["A"] | 0x60
        elif m == "TPA":
            r["A"] = r["P"] | 0x60
        elif m[:3] == "PUL":
            r[m[3]] = self.pop()
        elif m[:3] == "PSH":
            self.push(r[m[3]])
        elif m == "CLRH":
            r["H"] = 0
            self.nz0(0)
        elif m == "TXS":
            r["SP"] = (self.hx - 1) & 0xffff
        elif m == "TSX":
            self.hx = (r["SP"] + 1) & 0xffff
        elif m == "TAX":
            r["X"] = r["A"]
        elif m == "TXA":
            r["A"] = r["X"]
        elif m in ("CLC", "SEC", "CLI", "SEI"):
            b = C if m[2] == "C" else I
            self.fl(b, b if m[0] == "S" else 0)
        elif m == "RSP":
            r["SP"] = r["SP"] & 0xff00 | 0xff
        else:
            assert m == "NOP", m


CODES = [sorted(c for c in OPS if OPS[c][2] <= k) for k in range(3)]


class M68HC08(ISACheck):
    sim = "m68hc08"
    variants = [(["-t", "HC08"], 0), (["-t", "HCS08"], 1), (["-t", "9S08"], 2)]
    regs = [Reg("A"), Reg("H"), Reg("X"), Reg("P"), Reg("SP", 16)]
    prologue = ["expr /n sp_limit=0", "step"]

    def memcheck_ranges(self, name):
        if self.variants[self.v][1] < 2:
            return [(0, 0xffff)]
        return [(0, 0x77), (0x80, 0xffff)]

    def readable(self, n, a):
        return self.variants[self.v][1] < 2 or not 0x78 <= a <= 0x7f

    def init_regs(self, case):
        r = super().init_regs(case)
        r["P"] |= 0x60
        return r

    def gen_step(self, d, i):
        op = d.choice(CODES[self.variants[self.v][1]])
        code = [0x9e, op & 255] if op > 255 else [op]
        if op == 0xac:
            code.append(2)
        code += [d.edge(8), d.edge(8), d.edge(8)]
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
                if g.name == "P":
                    regs["P"] |= 0x60
        if op == 0x52 and d.bool(0.7):
            regs["X"] = d.int(1, 255)
            regs["H"] = d.below(regs["X"])
        return {"pc": pc, "code": code, "set": regs}

    def pre(self, m):
        if self.variants[self.v][1] == 2 and 0x70 <= m.r["PC"] <= 0x7f:
            m.r["PC"] = 0x78        # (the registers of the MMU)

    def execute(self, m):
        return CPU(m, self.variants[self.v][1]).step()

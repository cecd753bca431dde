"""Reference model of the Intel 8080 and 8085."""
from .common import ISACheck, Reg, Skip

S_, Z_, A_, P_, C_ = 0x80, 0x40, 0x10, 0x04, 0x01
FL = S_ | Z_ | A_ | P_ | C_
PAR = [P_ if bin(i).count("1") % 2 == 0 else 0 for i in range(256)]
SZP = [(i & S_) | (Z_ if i == 0 else 0) | PAR[i] for i in range(256)]
R8 = ["B", "C", "D", "E", "H", "L", "M", "A"]
RP = ["BC", "DE", "HL", "SP"]
UNDOC = {0x08, 0x10, 0x18, 0x28, 0x38, 0xcb, 0xd9, 0xdd, 0xed, 0xfd}
SKIP = UNDOC | {0x20, 0x30, 0x76, 0xd3, 0xdb, 0xf3, 0xfb}

# clock cycles, 8080 / 8085
T80 = {}
T85 = {}


def _t():
    def put(codes, a, b):
        for c in codes:
            T80[c] = a
            T85[c] = b
    for d in range(8):
        for s in range(8):
            m = 6 in (d, s)
            put([0x40 | d << 3 | s], 7 if m else 5, 7 if m else 4)
            put([0x80 | d << 3 | s], 7 if s == 6 else 4, 7 if s == 6 else 4)
        put([0x06 | d << 3], 10 if d == 6 else 7, 10 if d == 6 else 7)
        put([0xc6 | d << 3], 7, 7)
        put([0x04 | d << 3, 0x05 | d << 3], 10 if d == 6 else 5, 10 if d == 6 else 4)
        put([0xc7 | d << 3], 11, 12)
    for p in range(4):
        put([1 | p << 4], 10, 10)
        put([9 | p << 4], 10, 10)
        put([3 | p << 4, 0xb | p << 4], 5, 6)
        put([0xc1 | p << 4], 10, 10)
        put([0xc5 | p << 4], 11, 12)
    put([0x02, 0x12, 0x0a, 0x1a], 7, 7)
    put([0x22, 0x2a], 16, 16)
    put([0x32, 0x3a], 13, 13)
    put([0x07, 0x0f, 0x17, 0x1f, 0x27, 0x2f, 0x37, 0x3f, 0x00], 4, 4)
    put([0xeb], None, 4)            # sources disagree about XCHG of 8080
    put([0xc3], 10, 10)
    put([0xcd], 17, 18)
    put([0xc9], 10, 10)
    put([0xe3], 18, 16)
    put([0xe9, 0xf9], 5, 6)


_t()


class CPU:
    def __init__(self, m, is85):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]
        self.is85 = is85

    def rd(self, a):
        return self.s.m[a & 0xffff]

    def wr(self, a, v):
        self.s.wr(a & 0xffff, v & 255)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8()
        return v | self.f8() << 8

    def p(self, n):
        r = self.r
        return r["SP"] if n == "SP" else r[n[0]] << 8 | r[n[1]]

    def sp(self, n, v):
        v &= 0xffff
        if n == "SP":
            self.r["SP"] = v
        else:
            self.r[n[0]], self.r[n[1]] = v >> 8, v & 255

    def g(self, i):
        return self.rd(self.p("HL")) if i == 6 else self.r[R8[i]]

    def w(self, i, v):
        if i == 6:
            self.wr(self.p("HL"), v)
        else:
            self.r[R8[i]] = v & 255

    def fl(self, mask, v):
        self.r["F"] = self.r["F"] & ~mask | v

    def push(self, v):
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff
        self.wr(self.r["SP"], v >> 8)
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff
        self.wr(self.r["SP"], v)

    def pop(self):
        v = self.rd(self.r["SP"]) | self.rd(self.r["SP"] + 1) << 8
        self.r["SP"] = (self.r["SP"] + 2) & 0xffff
        return v

    def cond(self, i):
        b = [Z_, C_, P_, S_][i >> 1]
        return bool(self.r["F"] & b) == bool(i & 1)

    def alu(self, op, v):
        a = self.r["A"]
        c = self.r["F"] & C_
        if op in (0, 1):
            ci = c if op == 1 else 0
            t = a + v + ci
            self.fl(FL, SZP[t & 255] | (A_ if (a & 15) + (v & 15) + ci > 15 else 0) | (t > 255))
            self.r["A"] = t & 255
        elif op in (2, 3, 7):
            ci = c if op == 3 else 0
            t = a - v - ci
            # (an addition of the complement makes AC)
            self.fl(FL, SZP[t & 255] | (A_ if (a & 15) - (v & 15) - ci >= 0 else 0) | (t < 0))
            if op != 7:
                self.r["A"] = t & 255
        else:
            t = a & v if op == 4 else a ^ v if op == 5 else a | v
            h = 0
            if op == 4:
                h = A_ if self.is85 or (a | v) & 8 else 0
            self.fl(FL, SZP[t] | h)
            self.r["A"] = t

    def step(self):
        op = self.f8()
        self.m.loose["F"] = 0xff & ~FL
        if op in SKIP:
            raise Skip()
        self.m.ticks = (T85 if self.is85 else T80).get(op)
        self.do(op, op >> 6, op >> 3 & 7, op & 7)
        self.r["PC"] = self.pc
        return "%02X" % op

    def do(self, op, x, y, z):
        r = self.r
        t85 = self.is85
        if x == 1:
            self.w(y, self.g(z))
        elif x == 2:
            self.alu(y, self.g(z))
        elif x == 0:
            if z == 1:
                n = RP[y >> 1]
                if y & 1:
                    t = self.p("HL") + self.p(n)
                    self.fl(C_, t >> 16)
                    self.sp("HL", t)
                else:
                    self.sp(n, self.f16())
            elif op in (0x02, 0x12):
                self.wr(self.p(RP[op >> 4]), r["A"])
            elif op in (0x0a, 0x1a):
                r["A"] = self.rd(self.p(RP[op >> 4]))
            elif op == 0x22:
                a = self.f16()
                self.wr(a, r["L"])
                self.wr(a + 1, r["H"])
            elif op == 0x2a:
                a = self.f16()
                r["L"], r["H"] = self.rd(a), self.rd(a + 1)
            elif op == 0x32:
                self.wr(self.f16(), r["A"])
            elif op == 0x3a:
                r["A"] = self.rd(self.f16())
            elif z == 3:
                n = RP[y >> 1]
                self.sp(n, self.p(n) + (-1 if y & 1 else 1))
            elif z in (4, 5):
                v = self.g(y)
                t = (v + (1 if z == 4 else -1)) & 255
                h = (v & 15) == 15 if z == 4 else (v & 15) != 0
                self.fl(FL & ~C_, SZP[t] | (A_ if h else 0))
                self.w(y, t)
            elif z == 6:
                self.w(y, self.f8())
            elif z == 7:
                a, c = r["A"], r["F"] & C_
                if y == 0:
                    r["A"] = (a << 1 | a >> 7) & 255
                    self.fl(C_, a >> 7)
                elif y == 1:
                    r["A"] = a >> 1 | (a & 1) << 7
                    self.fl(C_, a & 1)
                elif y == 2:
                    r["A"] = (a << 1 | c) & 255
                    self.fl(C_, a >> 7)
                elif y == 3:
                    r["A"] = a >> 1 | c << 7
                    self.fl(C_, a & 1)
                elif y == 4:
                    h = r["F"] & A_
                    add = 0
                    if (a & 15) > 9 or h:
                        add = 6
                    if c or a > 0x99:
                        add |= 0x60
                        c = 1
                    t = (a + add) & 255
                    self.fl(FL, SZP[t] | (A_ if (a & 15) + (add & 15) > 15 else 0) | c)
                    r["A"] = t
                elif y == 5:
                    r["A"] = a ^ 255
                elif y == 6:
                    self.fl(C_, 1)
                else:
                    self.fl(C_, 1 - c)
        else:
            if z == 0:
                t = self.cond(y)
                self.m.ticks = (12 if t else 6) if t85 else (11 if t else 5)
                if t:
                    self.pc = self.pop()
            elif z == 2:
                a = self.f16()
                t = self.cond(y)
                self.m.ticks = (10 if t else 7) if t85 else 10
                if t:
                    self.pc = a
            elif z == 4:
                a = self.f16()
                t = self.cond(y)
                self.m.ticks = (18 if t else 9) if t85 else (17 if t else 11)
                if t:
                    self.push(self.pc)
                    self.pc = a
            elif z == 6:
                self.alu(y, self.f8())
            elif z == 7:
                self.push(self.pc)
                self.pc = y * 8
            elif op == 0xc3:
                self.pc = self.f16()
            elif op == 0xcd:
                a = self.f16()
                self.push(self.pc)
                self.pc = a
            elif op == 0xc9:
                self.pc = self.pop()
            elif z == 1 and not y & 1:
                v = self.pop()
                if y == 6:
                    r["A"], r["F"] = v >> 8, v & 255
                else:
                    self.sp(RP[y >> 1], v)
            elif z == 5:
                if y == 6:
                    # (the unused bits of F are not defined)
                    if not t85:
                        r["F"] = r["F"] & FL | 2
                    else:
                        raise Skip()
                    self.push(r["A"] << 8 | r["F"])
                else:
                    self.push(self.p(RP[y >> 1]))
            elif op == 0xe3:
                a = r["SP"]
                v = self.rd(a) | self.rd(a + 1) << 8
                self.wr(a, r["L"])
                self.wr(a + 1, r["H"])
                self.sp("HL", v)
            elif op == 0xe9:
                self.pc = self.p("HL")
            elif op == 0xeb:
                for a, b in ("HD", "LE"):
                    r[a], r[b] = r[b], r[a]
            elif op == 0xf9:
                r["SP"] = self.p("HL")
            else:
                raise AssertionError("%02x" % op)


CODES = [c for c in range(256) if c not in SKIP]


class I8085(ISACheck):
    sim = "i8085"
    variants = [(["-t", "8080"], 0), (["-t", "8085"], 1)]
    regs = [Reg(n) for n in "AFBCDEHL"] + [Reg("SP", 16)]

    def gen_step(self, d, i):
        code = [d.choice(CODES), d.edge(8), d.edge(8)]
        pc = d.weighted([(30, 0x100), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
        return {"pc": pc, "code": code, "set": regs}

    def execute(self, m):
        return CPU(m, self.variants[self.v][1]).step()

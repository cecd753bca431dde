"""Reference model of the SM83 (the processor of the LR35902), every instruction but STOP and HALT."""
from .common import ISACheck, Reg, Skip

Z, N, H, C = 0x80, 0x40, 0x20, 0x10
R8 = ["B", "C", "D", "E", "H", "L", None, "A"]
BAD = {0x10, 0x76, 0xd3, 0xdb, 0xdd, 0xe3, 0xe4, 0xeb, 0xec, 0xed, 0xf4, 0xfc, 0xfd}


class CPU:
    def __init__(self, m):
        self.m, self.r, self.s = m, m.r, m.s["rom"]
        self.pc = m.r["PC"]

    def rd(self, a):
        return self.s.rd(a & 0xffff)

    def wr(self, a, v):
        self.s.wr(a & 0xffff, v & 255)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = self.pc + 1 & 0xffff
        return v

    def f16(self):
        v = self.f8()
        return v | self.f8() << 8

    def s8(self):
        v = self.f8()
        return v - 256 if v > 127 else v

    def p(self, n):
        return self.r["SP"] if n == "SP" else self.r[n[0]] << 8 | self.r[n[1]]

    def sp(self, n, v):
        v &= 0xffff
        if n == "SP":
            self.r["SP"] = v
        else:
            self.r[n[0]], self.r[n[1]] = v >> 8, v & (0xf0 if n == "AF" else 255)

    def g(self, i):
        return self.rd(self.p("HL")) if i == 6 else self.r[R8[i]]

    def st(self, i, v):
        if i == 6:
            self.wr(self.p("HL"), v)
        else:
            self.r[R8[i]] = v & 255

    def fl(self, keep, z=0, n=0, h=0, c=0):
        self.r["F"] = self.r["F"] & keep | (Z if z else 0) | (N if n else 0) | (H if h else 0) | (C if c else 0)

    def push(self, v):
        s = self.r["SP"]
        self.wr(s - 1, v >> 8)
        self.wr(s - 2, v)
        self.r["SP"] = s - 2 & 0xffff

    def pop(self):
        s = self.r["SP"]
        self.r["SP"] = s + 2 & 0xffff
        return self.rd(s) | self.rd(s + 1) << 8

    def cc(self, i):
        self.taken = bool(self.r["F"] & (Z, C)[i >> 1]) == bool(i & 1)
        return self.taken

    def alu(self, op, v):
        r = self.r
        a = r["A"]
        cy = 1 if r["F"] & C else 0
        if op < 2:
            k = cy if op else 0
            t = a + v + k
            r["A"] = t & 255
            self.fl(0, not t & 255, 0, (a & 15) + (v & 15) + k > 15, t > 255)
        elif op in (2, 3, 7):
            k = cy if op == 3 else 0
            t = a - v - k
            if op < 7:
                r["A"] = t & 255
            self.fl(0, not t & 255, 1, (a & 15) - (v & 15) - k < 0, t < 0)
        else:
            t = (a & v, a ^ v, a | v)[op - 4]
            r["A"] = t
            self.fl(0, not t, 0, op == 4, 0)

    def shift(self, op, v):
        cy = 1 if self.r["F"] & C else 0
        if op == 6:
            t = v >> 4 | v << 4 & 0xf0
            c = 0
        elif op & 1:
            c = v & 1
            t = v >> 1 | {1: v << 7 & 128, 3: cy << 7, 5: v & 128, 7: 0}[op]
        else:
            c = v >> 7
            t = v << 1 & 255 | {0: c, 2: cy, 4: 0}[op]
        self.fl(0, not t, 0, 0, c)
        return t

    def spd(self):
        s = self.r["SP"]
        d = self.f8()
        self.fl(0, 0, 0, (s & 15) + (d & 15) > 15, (s & 255) + d > 255)
        return s + (d - 256 if d > 127 else d) & 0xffff

    def step(self):
        r = self.r
        pc0 = self.pc
        op = self.f8()
        if op in BAD:
            raise Skip()
        cb = self.rd(self.pc)
        self.taken = False
        mn = self.do(op)
        r["PC"] = self.pc
        if op != 0xcb or cb == self.rd(pc0 + 1):
            self.m.ticks = self.cycles(op, cb)
        return mn

    def cycles(self, op, cb):
        """4 clocks for every memory access, and for some internal operations"""
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        t = self.taken
        if op == 0xcb:
            return 8 if cb & 7 != 6 else 12 if cb >> 6 == 1 else 16
        if x == 1 or x == 2:
            return 8 if z == 6 or x == 1 and y == 6 else 4
        if x == 0:
            if z == 0:
                return 4 if op == 0 else 20 if op == 8 else 12 if t or op == 0x18 else 8
            return (0, 8 if y & 1 else 12, 8, 8, 4, 4, 8, 4)[z] + (
                (0, 0, 0, 0, 8, 8, 4, 0)[z] if y == 6 else 0)
        if z == 0 and y < 4:
            return 20 if t else 8
        if z == 2 and y < 4:
            return 16 if t else 12
        if z == 4:
            return 24 if t else 12
        return {0xc3: 16, 0xcd: 24, 0xc9: 16, 0xd9: 16, 0xe0: 12, 0xf0: 12, 0xe2: 8, 0xf2: 8, 0xea: 16, 0xfa: 16,
                0xe8: 16, 0xf8: 12, 0xe9: 4, 0xf9: 8, 0xf3: 4, 0xfb: 4}.get(op) or (0, 12, 0, 0, 0, 16, 8, 16)[z]

    def do(self, op):
        r = self.r
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        pr = ("BC", "DE", "HL", "SP")[y >> 1]
        if x == 1:
            self.st(y, self.g(z))
            return "LD_%s" % ("HLm" if 6 in (y, z) else "r")
        if x == 2:
            self.alu(y, self.g(z))
            return "ALU%d" % y
        if op == 0xcb:
            op = self.f8()
            x, y, z = op >> 6, op >> 3 & 7, op & 7
            v = self.g(z)
            if x == 0:
                self.st(z, self.shift(y, v))
                return "SHIFT%d" % y
            if x == 1:
                self.fl(C, not v >> y & 1, 0, 1)
            else:
                self.st(z, v & ~(1 << y) if x == 2 else v | 1 << y)
            return ("", "BIT", "RES", "SET")[x]
        if x == 0:
            if z == 0:
                if op == 0:
                    return "NOP"
                if op == 8:
                    a = self.f16()
                    self.wr(a, r["SP"])
                    self.wr(a + 1, r["SP"] >> 8)
                    return "LD_nn_SP"
                d = self.s8()
                if op == 0x18 or self.cc(y & 3):
                    self.pc = self.pc + d & 0xffff
                return "JR%d" % y
            if z == 1:
                if y & 1:
                    a, b = self.p("HL"), self.p(pr)
                    self.fl(Z, 0, 0, (a & 0xfff) + (b & 0xfff) > 0xfff, a + b > 0xffff)
                    self.sp("HL", a + b)
                    return "ADD_HL"
                self.sp(pr, self.f16())
                return "LD_rr"
            if z == 2:
                n = ("BC", "DE", "HL", "HL")[y >> 1]
                a = self.p(n)
                if y & 1:
                    r["A"] = self.rd(a)
                else:
                    self.wr(a, r["A"])
                if y >= 4:
                    self.sp("HL", a + (1 if y < 6 else -1))
                return "LD_A_%d" % y
            if z == 3:
                self.sp(pr, self.p(pr) + (-1 if y & 1 else 1))
                return "INCDEC16"
            if z in (4, 5):
                v = self.g(y)
                t = v + (1 if z == 4 else -1) & 255
                self.st(y, t)
                self.fl(C, not t, z == 5, t & 15 == (0 if z == 4 else 15))
                return ("INC", "DEC")[z - 4]
            if z == 6:
                self.st(y, self.f8())
                return "LD_n"
            a = r["A"]
            if y < 4:
                r["A"] = self.shift(y, a)
                r["F"] &= ~Z
            elif y == 4:
                f = r["F"]
                c = f & C
                if f & N:
                    a -= (0x60 if c else 0) + (6 if f & H else 0)
                else:
                    t = a
                    if c or t > 0x99:
                        a += 0x60
                        c = C
                    if f & H or t & 15 > 9:
                        a += 6
                a &= 255
                r["A"] = a
                self.fl(N, not a, 0, 0, c)
            elif y == 5:
                r["A"] = a ^ 255
                self.fl(Z | C, 0, 1, 1)
            elif y == 6:
                self.fl(Z, c=1)
            else:
                self.fl(Z, c=not r["F"] & C)
            return ("RLCA", "RRCA", "RLA", "RRA", "DAA", "CPL", "SCF", "CCF")[y]
        # x == 3
        if z == 6:
            self.alu(y, self.f8())
            return "ALUn%d" % y
        if z == 7:
            self.push(self.pc)
            self.pc = y * 8
            return "RST"
        if z == 5 and not y & 1:
            self.push(self.p(("BC", "DE", "HL", "AF")[y >> 1]))
            return "PUSH"
        if z == 1 and not y & 1:
            self.sp(("BC", "DE", "HL", "AF")[y >> 1], self.pop())
            return "POP"
        if z == 0 and y < 4:
            if self.cc(y):
                self.pc = self.pop()
            return "RETcc"
        if z in (2, 4) and y < 4:
            a = self.f16()
            if self.cc(y):
                if z == 4:
                    self.push(self.pc)
                self.pc = a
            return ("JPcc", "CALLcc")[z >> 2]
        if op == 0xc3:
            self.pc = self.f16()
            return "JP"
        if op == 0xcd:
            a = self.f16()
            self.push(self.pc)
            self.pc = a
            return "CALL"
        if op in (0xc9, 0xd9):
            self.pc = self.pop()
            return "RET" if op == 0xc9 else "RETI"
        if op in (0xe0, 0xf0, 0xe2, 0xf2, 0xea, 0xfa):
            a = self.f16() if z == 2 and op & 8 else 0xff00 | (r["C"] if z == 2 else self.f8())
            if op & 0x10:
                r["A"] = self.rd(a)
            else:
                self.wr(a, r["A"])
            return "LDH_%x" % op
        if op == 0xe8:
            r["SP"] = self.spd()
            return "ADD_SP"
        if op == 0xf8:
            self.sp("HL", self.spd())
            return "LD_HL_SP"
        if op == 0xe9:
            self.pc = self.p("HL")
            return "JP_HL"
        if op == 0xf9:
            r["SP"] = self.p("HL")
            return "LD_SP_HL"
        if op in (0xf3, 0xfb):
            return "DI_EI"
        raise Skip()


class SM83(ISACheck):
    sim = "z80"
    variants = [(["-t", "LR35902"], 0), (["-t", "GB80"], 1)]
    regs = [Reg(n) for n in "ABCDEHL"] + [Reg("F"), Reg("SP", 16)]
    spaces = {"rom": 65536}

    def init_regs(self, case):
        v = super().init_regs(case)
        v["F"] &= 0xf0
        return v

    def gen_step(self, d, i):
        if d.bool(0.3):
            code = [0xcb, d.bits(8)]
        else:
            code = [d.bits(8)]
            while code[0] in BAD:
                code = [d.bits(8)]
        if d.bool(0.05):
            code = [d.choice([0x27, 0xe8, 0xf8, 0x2f, 0x37, 0x3f])]
        while len(code) < 3:
            code.append(d.edge(8))
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits) & (0xf0 if g.name == "F" else 0xffff)
        return {"pc": d.weighted([(30, 0x100), (30, d.bits(16)), (1, 0xfff0), (1, 0xfffe)]), "code": code, "set": regs}

    def execute(self, m):
        return CPU(m).step()

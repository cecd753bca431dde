"""Reference model of the Z80 (Zilog UM0080), documented instructions."""
from .common import ISACheck, Reg, Skip

S_, Z_, H_, P_, N_, C_ = 0x80, 0x40, 0x10, 0x04, 0x02, 0x01
PAR = [P_ if bin(i).count("1") % 2 == 0 else 0 for i in range(256)]
SZ = [(i & S_) | (Z_ if i == 0 else 0) for i in range(256)]
R8 = ["B", "C", "D", "E", "H", "L", None, "A"]
R16 = ["BC", "DE", "HL", "SP"]
CCN = ["NZ", "Z", "NC", "C", "PO", "PE", "P", "M"]


def daa_defined(a, n, c, h):
    """rows of the DAA table of the manual"""
    hi, lo = a >> 4, a & 15
    if n:
        if c:
            return (hi >= 6 and lo >= 6) if h else (hi >= 7 and lo <= 9)
        return (hi <= 8 and lo >= 6) if h else (hi <= 9 and lo <= 9)
    if h:
        return lo <= 3 and (hi <= 3 if c else True)
    return hi <= 2 if c else True


class CPU:
    def __init__(self, m):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]
        self.ix = None      # index register of a DD/FD prefix
        self.looseF = 0

    # -- memory
    def rd(self, a):
        return self.s.m[a & 0xffff]

    def wr(self, a, v):
        self.s.wr(a & 0xffff, v & 255)

    def rd16(self, a):
        return self.rd(a) | self.rd(a + 1) << 8

    def wr16(self, a, v):
        self.wr(a, v)
        self.wr(a + 1, v >> 8)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8()
        return v | self.f8() << 8

    # -- registers
    def g(self, n):
        return self.r[n]

    def p(self, n):
        if n == "SP" or n == "IX" or n == "IY":
            return self.r[n]
        return self.r[n[0]] << 8 | self.r[n[1]]

    def sp(self, n, v):
        v &= 0xffff
        if n in ("SP", "IX", "IY"):
            self.r[n] = v
        else:
            self.r[n[0]] = v >> 8
            self.r[n[1]] = v & 255

    def hl(self):
        return self.ix or "HL"

    def ea(self):
        """address of (HL), (IX+d) or (IY+d)"""
        if self.ix:
            d = self.f8()
            return (self.r[self.ix] + (d - 256 if d > 127 else d)) & 0xffff
        return self.p("HL")

    def flags(self, v):
        self.r["F"] = (self.r["F"] & 0x28) | (v & 0xd7)
        self.looseF |= 0x28

    def push(self, v):
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff
        self.wr(self.r["SP"], v >> 8)
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff
        self.wr(self.r["SP"], v)

    def pop(self):
        v = self.rd16(self.r["SP"])
        self.r["SP"] = (self.r["SP"] + 2) & 0xffff
        return v

    def cc(self, i):
        f = self.r["F"]
        b = [Z_, C_, P_, S_][i >> 1]
        self.taken = bool(f & b) == bool(i & 1)
        return self.taken

    # -- arithmetic
    def alu(self, op, v):
        a = self.r["A"]
        f = self.r["F"]
        c = f & C_
        if op in (0, 1):
            ci = c if op == 1 else 0
            t = a + v + ci
            r = t & 255
            self.flags(SZ[r] | (H_ if (a & 15) + (v & 15) + ci > 15 else 0) |
                       (P_ if (~(a ^ v) & (a ^ r)) & 0x80 else 0) | (C_ if t > 255 else 0))
            self.r["A"] = r
        elif op in (2, 3, 7):
            ci = c if op == 3 else 0
            t = a - v - ci
            r = t & 255
            self.flags(SZ[r] | N_ | (H_ if (a & 15) - (v & 15) - ci < 0 else 0) |
                       (P_ if ((a ^ v) & (a ^ r)) & 0x80 else 0) | (C_ if t < 0 else 0))
            if op != 7:
                self.r["A"] = r
        else:
            r = a & v if op == 4 else a ^ v if op == 5 else a | v
            self.flags(SZ[r] | PAR[r] | (H_ if op == 4 else 0))
            self.r["A"] = r

    def inc8(self, v):
        r = (v + 1) & 255
        self.flags(SZ[r] | (H_ if (v & 15) == 15 else 0) | (P_ if v == 0x7f else 0) |
                   (self.r["F"] & C_))
        return r

    def dec8(self, v):
        r = (v - 1) & 255
        self.flags(SZ[r] | N_ | (H_ if (v & 15) == 0 else 0) | (P_ if v == 0x80 else 0) |
                   (self.r["F"] & C_))
        return r

    def add16(self, d, v):
        a = self.p(d)
        t = a + v
        self.flags((self.r["F"] & (S_ | Z_ | P_)) |
                   (H_ if (a & 0xfff) + (v & 0xfff) > 0xfff else 0) | (C_ if t > 0xffff else 0))
        self.sp(d, t)

    def adc16(self, v):
        a = self.p("HL")
        c = self.r["F"] & C_
        t = a + v + c
        r = t & 0xffff
        self.flags((S_ if r & 0x8000 else 0) | (Z_ if r == 0 else 0) |
                   (H_ if (a & 0xfff) + (v & 0xfff) + c > 0xfff else 0) |
                   (P_ if (~(a ^ v) & (a ^ r)) & 0x8000 else 0) | (C_ if t > 0xffff else 0))
        self.sp("HL", r)

    def sbc16(self, v):
        a = self.p("HL")
        c = self.r["F"] & C_
        t = a - v - c
        r = t & 0xffff
        self.flags((S_ if r & 0x8000 else 0) | (Z_ if r == 0 else 0) | N_ |
                   (H_ if (a & 0xfff) - (v & 0xfff) - c < 0 else 0) |
                   (P_ if ((a ^ v) & (a ^ r)) & 0x8000 else 0) | (C_ if t < 0 else 0))
        self.sp("HL", r)

    def rot(self, op, v):
        c = self.r["F"] & C_
        if op == 0:
            co = v >> 7
            r = (v << 1 | co) & 255
        elif op == 1:
            co = v & 1
            r = v >> 1 | co << 7
        elif op == 2:
            co = v >> 7
            r = (v << 1 | c) & 255
        elif op == 3:
            co = v & 1
            r = v >> 1 | c << 7
        elif op == 4:
            co = v >> 7
            r = v << 1 & 255
        elif op == 5:
            co = v & 1
            r = v >> 1 | v & 0x80
        elif op == 7:
            co = v & 1
            r = v >> 1
        else:
            raise Skip()
        self.flags(SZ[r] | PAR[r] | (C_ if co else 0))
        return r

    def daa(self):
        a = self.r["A"]
        f = self.r["F"]
        if not daa_defined(a, bool(f & N_), bool(f & C_), bool(f & H_)):
            raise Skip()
        corr = 0
        c = f & C_
        if (f & H_) or (a & 15) > 9:
            corr |= 6
        if c or a > 0x99:
            corr |= 0x60
            c = C_
        if f & N_:
            r = (a - corr) & 255
            h = H_ if (f & H_) and (a & 15) < 6 else 0
        else:
            r = (a + corr) & 255
            h = H_ if (a & 15) > 9 else 0
        self.flags(SZ[r] | PAR[r] | h | (f & N_) | c)
        self.r["A"] = r

    # -- decode
    def step(self):
        pc0 = self.pc
        code = [self.rd(pc0 + i & 0xffff) for i in range(4)]
        op = self.f8()
        self.taken = False
        name = self.main(op)
        self.r["PC"] = self.pc
        if code == [self.rd(pc0 + i & 0xffff) for i in range(4)]:
            self.m.ticks = self.cycles(code, self.pc == pc0)
        if self.looseF:
            self.m.loose["F"] = self.m.loose.get("F", 0) | self.looseF
        return name

    def cycles(self, code, again):
        """T states by the manual"""
        op = code[0]
        if op == 0xcb:
            op = code[1]
            return 8 if op & 7 != 6 else 12 if op >> 6 == 1 else 15
        if op == 0xed:
            op = code[1]
            y, z = op >> 3 & 7, op & 7
            if op >= 0x80:
                return 21 if y >= 6 and again else 16
            if z < 4:
                return (12, 12, 15, 20)[z]
            return {4: 8, 5: 14, 6: 8}.get(z) or (18 if y in (4, 5) else 9)
        add = 0
        if op in (0xdd, 0xfd):
            op = code[1]
            if op == 0xcb:
                return 20 if code[3] >> 6 == 1 else 23
            add = 4
            if op == 0x36:
                return 19
            if op in (0x34, 0x35):
                return 23
            if op >> 6 == 1 or op >> 6 == 2:
                return 19
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        t = self.taken
        if x == 1 or x == 2:
            n = 7 if z == 6 or x == 1 and y == 6 else 4
        elif x == 0:
            n = (4 if y < 2 else (13 if t else 8) if y == 2 else 12 if t or y == 3 else 7,
                 11 if y & 1 else 10, (7, 7, 7, 7, 16, 16, 13, 13)[y], 6,
                 11 if y == 6 else 4, 11 if y == 6 else 4, 10 if y == 6 else 7, 4)[z]
        else:
            n = {0xc3: 10, 0xc9: 10, 0xcd: 17, 0xd3: 11, 0xd9: 4, 0xdb: 11, 0xe3: 19, 0xe9: 4, 0xeb: 4, 0xf3: 4,
                 0xf9: 6, 0xfb: 4}.get(op) or (11 if t else 5, 10, 10, 0, 17 if t else 10, 11, 7, 11)[z]
        return n + add

    def r8get(self, i, ea=None):
        if i == 6:
            return self.rd(self.ea() if ea is None else ea)
        return self.r[R8[i]]

    def main(self, op):
        r = self.r
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        if op in (0xdd, 0xfd):
            if self.ix:
                raise Skip()
            self.ix = "IX" if op == 0xdd else "IY"
            op = self.f8()
            if op in (0xdd, 0xfd, 0xed):
                raise Skip()
            return ("%s_%02X" % (self.ix, op)) + self.indexed(op)
        if op == 0xcb:
            return "CB_%02X" % self.cb()
        if op == 0xed:
            return "ED_%02X" % self.ed()
        self.base(op, x, y, z)
        return "%02X" % op

    def indexed(self, op):
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        ok = False
        if op == 0xcb:
            d = self.f8()
            a = (self.r[self.ix] + (d - 256 if d > 127 else d)) & 0xffff
            op2 = self.f8()
            x, y, z = op2 >> 6, op2 >> 3 & 7, op2 & 7
            if z != 6:
                raise Skip()
            v = self.rd(a)
            if x == 0:
                self.wr(a, self.rot(y, v))
            elif x == 1:
                self.bit(y, v)
            elif x == 2:
                self.wr(a, v & ~(1 << y))
            else:
                self.wr(a, v | 1 << y)
            return "_%02X" % op2
        if x == 1 and (y == 6) != (z == 6):
            ok = True
        if x == 2 and z == 6:
            ok = True
        if x == 0 and ((z == 1 and (op & 8 or y == 4)) or op in (0x22, 0x2a, 0x23, 0x2b, 0x34, 0x35, 0x36)):
            ok = True
        if op in (0xe1, 0xe3, 0xe5, 0xe9, 0xf9):
            ok = True
        if not ok:
            raise Skip()
        self.base(op, x, y, z)
        return ""

    def base(self, op, x, y, z):
        r = self.r
        if x == 1:
            if op == 0x76:
                raise Skip()
            v = self.r8get(z)
            if y == 6:
                self.wr(self.ea(), v)
            else:
                r[R8[y]] = v
            return
        if x == 2:
            self.alu(y, self.r8get(z))
            return
        if x == 0:
            if z == 0:
                if op == 0x00:
                    return
                if op == 0x08:
                    r["A"], r["A'"] = r["A'"], r["A"]
                    r["F"], r["F'"] = r["F'"], r["F"]
                    return
                e = self.f8()
                t = (self.pc + (e - 256 if e > 127 else e)) & 0xffff
                if op == 0x10:
                    r["B"] = (r["B"] - 1) & 255
                    if r["B"]:
                        self.pc = t
                        self.taken = True
                elif op == 0x18 or self.cc(y - 4):
                    self.pc = t
                return
            if z == 1:
                n = R16[y >> 1]
                if n == "HL":
                    n = self.hl()
                if y & 1:
                    self.add16(self.hl(), self.p(n))
                else:
                    self.sp(n, self.f16())
                return
            if z == 2:
                if op in (0x02, 0x12):
                    self.wr(self.p("BC" if op == 2 else "DE"), r["A"])
                elif op in (0x0a, 0x1a):
                    r["A"] = self.rd(self.p("BC" if op == 0x0a else "DE"))
                elif op == 0x22:
                    self.wr16(self.f16(), self.p(self.hl()))
                elif op == 0x2a:
                    self.sp(self.hl(), self.rd16(self.f16()))
                elif op == 0x32:
                    self.wr(self.f16(), r["A"])
                else:
                    r["A"] = self.rd(self.f16())
                return
            if z == 3:
                n = R16[y >> 1]
                if n == "HL":
                    n = self.hl()
                self.sp(n, self.p(n) + (-1 if y & 1 else 1))
                return
            if z in (4, 5):
                fn = self.inc8 if z == 4 else self.dec8
                if y == 6:
                    a = self.ea()
                    self.wr(a, fn(self.rd(a)))
                else:
                    r[R8[y]] = fn(r[R8[y]])
                return
            if z == 6:
                if y == 6:
                    a = self.ea()
                    self.wr(a, self.f8())
                else:
                    r[R8[y]] = self.f8()
                return
            # z == 7
            a = r["A"]
            f = r["F"]
            k = f & (S_ | Z_ | P_)
            if y == 0:
                r["A"] = (a << 1 | a >> 7) & 255
                self.flags(k | a >> 7)
            elif y == 1:
                r["A"] = a >> 1 | (a & 1) << 7
                self.flags(k | a & 1)
            elif y == 2:
                r["A"] = (a << 1 | f & C_) & 255
                self.flags(k | a >> 7)
            elif y == 3:
                r["A"] = a >> 1 | (f & C_) << 7
                self.flags(k | a & 1)
            elif y == 4:
                self.daa()
            elif y == 5:
                r["A"] = a ^ 255
                self.flags((f & (S_ | Z_ | P_ | C_)) | H_ | N_)
            elif y == 6:
                self.flags(k | C_)
            else:
                self.flags(k | (H_ if f & C_ else 0) | (0 if f & C_ else C_))
            return
        # x == 3
        if z == 0:
            if self.cc(y):
                self.pc = self.pop()
        elif z == 1:
            if y & 1 == 0:
                v = self.pop()
                if y == 6:
                    r["A"] = v >> 8
                    r["F"] = v & 255
                else:
                    n = R16[y >> 1]
                    self.sp(self.hl() if n == "HL" else n, v)
            elif op == 0xc9:
                self.pc = self.pop()
            elif op == 0xd9:
                for k in "BCDEHL":
                    r[k], r[k + "'"] = r[k + "'"], r[k]
            elif op == 0xe9:
                self.pc = self.p(self.hl())
            else:
                r["SP"] = self.p(self.hl())
        elif z == 2:
            t = self.f16()
            if self.cc(y):
                self.pc = t
        elif z == 3:
            if op == 0xc3:
                self.pc = self.f16()
            elif op == 0xd3:
                self.m.s["outputs"].wr(self.f8(), r["A"])
            elif op == 0xdb:
                r["A"] = self.m.s["inputs"].rd(self.f8())
            elif op == 0xe3:
                v = self.rd16(r["SP"])
                self.wr16(r["SP"], self.p(self.hl()))
                self.sp(self.hl(), v)
            elif op == 0xeb:
                a, b = self.p("DE"), self.p("HL")
                self.sp("DE", b)
                self.sp("HL", a)
            elif op in (0xf3, 0xfb):
                pass
            else:
                raise Skip()
        elif z == 4:
            t = self.f16()
            if self.cc(y):
                self.push(self.pc)
                self.pc = t
        elif z == 5:
            if op == 0xcd:
                t = self.f16()
                self.push(self.pc)
                self.pc = t
            else:
                if y == 6:
                    v = r["A"] << 8 | r["F"]
                else:
                    n = R16[y >> 1]
                    v = self.p(self.hl() if n == "HL" else n)
                self.push(v)
        elif z == 6:
            self.alu(y, self.f8())
        else:
            self.push(self.pc)
            self.pc = y * 8

    def bit(self, b, v):
        self.flags((self.r["F"] & C_) | H_ | (0 if v >> b & 1 else Z_))
        self.looseF |= S_ | P_

    def cb(self):
        op = self.f8()
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        v = self.r8get(z)
        if x == 0:
            v = self.rot(y, v)
        elif x == 1:
            self.bit(y, v)
            return op
        elif x == 2:
            v &= ~(1 << y)
        else:
            v |= 1 << y
        if z == 6:
            self.wr(self.p("HL"), v)
        else:
            self.r[R8[z]] = v
        return op

    def ed(self):
        op = self.f8()
        r = self.r
        x, y, z = op >> 6, op >> 3 & 7, op & 7
        if x == 1:
            if z == 0 and y != 6:
                v = self.m.s["inputs"].rd(r["C"])
                r[R8[y]] = v
                self.flags(SZ[v] | PAR[v] | r["F"] & C_)
            elif z == 1 and y != 6:
                self.m.s["outputs"].wr(r["C"], r[R8[y]])
            elif z == 2:
                (self.adc16 if y & 1 else self.sbc16)(self.p(R16[y >> 1]))
            elif z == 3:
                a = self.f16()
                if y & 1:
                    self.sp(R16[y >> 1], self.rd16(a))
                else:
                    self.wr16(a, self.p(R16[y >> 1]))
            elif op == 0x44:
                a = r["A"]
                r["A"] = 0
                self.alu(2, a)
            elif op in (0x45, 0x4d):
                self.pc = self.pop()
            elif op in (0x46, 0x56, 0x5e):
                pass
            elif op == 0x47:
                r["I"] = r["A"]
            elif op == 0x4f:
                r["R"] = r["A"]
            elif op == 0x57:
                r["A"] = r["I"]
                self.flags(SZ[r["A"]] | r["F"] & C_)
                self.looseF |= P_       # IFF2
            elif op == 0x5f:
                raise Skip()
            elif op == 0x67:
                m = self.rd(self.p("HL"))
                a = r["A"]
                self.wr(self.p("HL"), m >> 4 | (a & 15) << 4)
                r["A"] = a & 0xf0 | m & 15
                self.flags(SZ[r["A"]] | PAR[r["A"]] | r["F"] & C_)
            elif op == 0x6f:
                m = self.rd(self.p("HL"))
                a = r["A"]
                self.wr(self.p("HL"), m << 4 | a & 15)
                r["A"] = a & 0xf0 | m >> 4
                self.flags(SZ[r["A"]] | PAR[r["A"]] | r["F"] & C_)
            else:
                raise Skip()
            return op
        if x == 2 and y >= 4 and z <= 3:
            dirn = -1 if y & 1 else 1
            rep = y >= 6
            hl = self.p("HL")
            if z == 0:
                de = self.p("DE")
                self.wr(de, self.rd(hl))
                self.sp("DE", de + dirn)
                self.sp("HL", hl + dirn)
                self.sp("BC", self.p("BC") - 1)
                bc = self.p("BC")
                self.flags(r["F"] & (S_ | Z_ | C_) | (P_ if bc else 0))
                if rep and bc:
                    self.pc = (self.pc - 2) & 0xffff
            elif z == 1:
                v = self.rd(hl)
                a = r["A"]
                t = (a - v) & 255
                self.sp("HL", hl + dirn)
                self.sp("BC", self.p("BC") - 1)
                bc = self.p("BC")
                self.flags(SZ[t] | N_ | (H_ if (a & 15) < (v & 15) else 0) | (P_ if bc else 0) |
                           r["F"] & C_)
                if rep and bc and t:
                    self.pc = (self.pc - 2) & 0xffff
            else:
                if z == 2:
                    self.wr(hl, self.m.s["inputs"].rd(r["C"]))
                else:
                    self.m.s["outputs"].wr(r["C"], self.rd(hl))
                self.sp("HL", hl + dirn)
                r["B"] = (r["B"] - 1) & 255
                f = r["F"]
                self.flags(f & ~Z_ | (0 if r["B"] else Z_))
                self.looseF |= S_ | H_ | P_ | N_
                if rep and r["B"]:
                    self.pc = (self.pc - 2) & 0xffff
            return op
        raise Skip()


MAIN = [o for o in range(256) if o not in (0x76, 0xcb, 0xdd, 0xed, 0xfd)]
ED = ([0x40 + 8 * y + z for y in range(8) for z in range(4) if not (y == 6 and z < 2)] +
      [0x44, 0x45, 0x4d, 0x46, 0x56, 0x5e, 0x47, 0x4f, 0x57, 0x67, 0x6f] +
      [0xa0 + 8 * y + z for y in range(4) for z in range(4)])
XD = ([0x40 + 8 * y + z for y in range(8) for z in range(8) if (y == 6) != (z == 6)] +
      [0x86 + 8 * y for y in range(8)] +
      [0x09, 0x19, 0x29, 0x39, 0x21, 0x22, 0x2a, 0x23, 0x2b, 0x34, 0x35, 0x36,
       0xe1, 0xe3, 0xe5, 0xe9, 0xf9])


class Z80(ISACheck):
    sim = "z80"
    args = ["-t", "Z80"]
    regs = ([Reg(n) for n in "AFBCDEHL"] + [Reg(n + "'", var="ALT_" + n) for n in "AFBCDEHL"] +
            [Reg("IX", 16), Reg("IY", 16), Reg("SP", 16), Reg("I")])
    spaces = {"rom": 65536, "inputs": 256, "outputs": 256}
    filled = ["inputs", "outputs"]

    def load_lines(self, name, img):
        return ["set mem %s %d %s" % (name, a, " ".join(str(x) for x in img[a:a + 64]))
                for a in range(0, 256, 64)]

    def addr(self, d):
        return d.weighted([(6, 0), (1, 1), (1, 2)])

    def gen_step(self, d, i):
        st = {}
        k = d.weighted([(5, 0), (2, 1), (2, 2), (2, 3), (1, 4)])
        code = []
        if k == 0:
            code = [d.choice(MAIN)]
        elif k == 1:
            op = d.bits(8)
            if 0x30 <= op < 0x38:
                op -= 0x10
            code = [0xcb, op]
        elif k == 2:
            code = [0xed, d.choice(ED)]
        elif k == 3:
            code = [0xdd if d.bool() else 0xfd, d.choice(XD)]
        else:
            op = d.bits(8) & 0xf8 | 6
            if op == 0x36:
                op = 0x26
            code = [0xdd if d.bool() else 0xfd, 0xcb, d.edge(8), op]
        while len(code) < 4:
            code.append(d.edge(8))
        st["pc"] = d.weighted([(30, 0x100), (30, d_pc), (1, 0xfff0), (1, 0xfffe)])
        if callable(st["pc"]):
            st["pc"] = d.bits(16)
        st["code"] = code
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
        st["set"] = regs
        return st

    def execute(self, m):
        return CPU(m).step()


def d_pc():
    pass

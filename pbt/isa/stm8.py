"""Reference model of the STM8 (PM0044)."""
from .common import ISACheck, Reg, Skip

V, I1, H, I0, N, Z, C = 0x80, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01
RAM = (0, 0x17ff)
RANGES = [RAM, (0x8000, 0x9fff), (0xff00, 0x100ff), (0x10800, 0x10fff)]


class CPU:
    def __init__(self, m):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]

    def ok(self, a):
        if not any(lo <= a <= hi for lo, hi in RANGES):
            raise Skip()

    def rd(self, a):
        self.ok(a)
        return self.s.m[a]

    def rd2(self, a):
        return self.rd(a) << 8 | self.rd(a + 1)

    def rd3(self, a):
        return self.rd2(a) << 8 | self.rd(a + 2)

    def wr(self, a, v):
        if not 0 <= a <= RAM[1]:
            raise Skip()
        self.s.wr(a, v & 255)

    def wr2(self, a, v):
        self.wr(a, v >> 8)
        self.wr(a + 1, v)

    def f8(self):
        v = self.rd(self.pc)
        self.pc += 1
        return v

    def f16(self):
        v = self.f8() << 8
        return v | self.f8()

    def fl(self, mask, v):
        self.r["CC"] = self.r["CC"] & ~mask | v

    def nz(self, v, w=8):
        self.fl(N | Z, (N if v >> (w - 1) & 1 else 0) | (Z if v & ((1 << w) - 1) == 0 else 0))

    def push(self, v):
        self.wr(self.r["SP"], v)
        self.r["SP"] = (self.r["SP"] - 1) & 0xffff

    def pop(self):
        self.r["SP"] = (self.r["SP"] + 1) & 0xffff
        return self.rd(self.r["SP"])

    def push16(self, v):
        self.push(v)
        self.push(v >> 8)

    def pop16(self):
        h = self.pop() << 8
        return h | self.pop()

    # -- effective addresses of the operand columns
    def ea(self, col, pfx):
        r = self.r
        if col == 0xb and not pfx:
            return self.f8()
        if col == 0x1 and not pfx:
            return self.f8() + r["SP"]
        x = r["Y"] if pfx in (0x90, 0x91) else r["X"]
        if col == 0xc:
            if pfx == 0:
                return self.f16()
            if pfx == 0x72:
                return self.rd2(self.f16())
            if pfx == 0x92:
                return self.rd2(self.f8())
        elif col == 0xd:
            if pfx in (0, 0x90):
                return self.f16() + x
            return self.rd2(self.f16() if pfx == 0x72 else self.f8()) + x
        elif col == 0xe and pfx in (0, 0x90):
            return self.f8() + x
        elif col == 0xf and pfx in (0, 0x90):
            return x
        raise Skip()

    def addf(self, a, b, c, w, mask):
        t = a + b + c
        m = (1 << w) - 1
        hb = w // 2 if w == 8 else 8
        v = C if t > m else 0
        if (a ^ t) & (b ^ t) & (m ^ m >> 1):
            v |= V
        if (a & (1 << hb) - 1) + (b & (1 << hb) - 1) + c >> hb:
            v |= H
        self.fl(mask, v & mask)
        self.nz(t, w)
        return t & m

    def subf(self, a, b, c, w, mask):
        t = a - b - c
        m = (1 << w) - 1
        hb = 4 if w == 8 else 8
        v = C if t < 0 else 0
        if (a ^ b) & (a ^ t) & (m ^ m >> 1):
            v |= V
        if (a & (1 << hb) - 1) - (b & (1 << hb) - 1) - c < 0:
            v |= H
        self.fl(mask, v & mask)
        self.nz(t, w)
        return t & m

    def step(self):
        op = self.f8()
        pfx = 0
        if op in (0x72, 0x90, 0x91, 0x92):
            pfx = op
            op = self.f8()
        self.do(pfx, op)
        if not 0 <= self.pc < 0x28000:
            raise Skip()
        self.r["PC"] = self.pc
        return "%02X_%02X" % (pfx, op)

    def alu(self, n, v):
        r = self.r
        a = r["A"]
        c = r["CC"] & C
        if n == 0:
            r["A"] = self.subf(a, v, 0, 8, V | C)
        elif n == 1:
            self.subf(a, v, 0, 8, V | C)
        elif n == 2:
            r["A"] = self.subf(a, v, c, 8, V | C)
        elif n == 9:
            r["A"] = self.addf(a, v, c, 8, V | C | H)
        elif n == 0xb:
            r["A"] = self.addf(a, v, 0, 8, V | C | H)
        elif n == 5:
            self.nz(a & v)
        else:
            r["A"] = {4: a & v, 6: v, 8: a ^ v, 0xa: a | v}[n]
            self.nz(r["A"])

    def rmw(self, n, v, w):
        """read-modify-write operations; None: nothing to be written"""
        c = self.r["CC"] & C
        top = 1 << (w - 1)
        m = (1 << w) - 1
        fl = None
        if n == 0:
            return self.subf(0, v, 0, w, V | C)
        if n == 3:
            t = v ^ m
            fl = C
        elif n == 4:
            t = v >> 1
            fl = v & 1
        elif n == 6:
            t = v >> 1 | (top if c else 0)
            fl = v & 1
        elif n == 7:
            t = v >> 1 | v & top
            fl = v & 1
        elif n == 8:
            t = v << 1 & m
            fl = v >> (w - 1)
        elif n == 9:
            t = (v << 1 | c) & m
            fl = v >> (w - 1)
        elif n == 0xa:
            return self.subf(v, 1, 0, w, V)
        elif n == 0xc:
            return self.addf(v, 1, 0, w, V)
        elif n == 0xd:
            self.nz(v, w)
            return None
        elif n == 0xe:
            t = v << w // 2 & m | v >> w // 2
        else:
            self.fl(N | Z, Z)
            return 0
        self.nz(t, w)
        if fl is not None:
            self.fl(C, fl)
        return t

    def cond(self, i):
        f = self.r["CC"]
        nv = bool(f & N) != bool(f & V)
        return [True, not f & (C | Z), not f & C, not f & Z, not f & V, not f & N,
                not (f & Z or nv), not nv][i]

    def do(self, pfx, op):
        r = self.r
        row, n = op >> 4, op & 15
        I = "Y" if pfx == 0x90 else "X"
        if pfx == 0x90 and row == 1:
            a = self.f16()
            b = 1 << (n >> 1)
            v = self.rd(a)
            self.wr(a, (v & ~b | (b if r["CC"] & C else 0)) if n & 1 else v ^ b)
            return
        if pfx == 0x72 and row in (0, 1):
            a = self.f16()
            b = 1 << (n >> 1)
            v = self.rd(a)
            if row == 1:
                self.wr(a, v & ~b if n & 1 else v | b)
            else:
                d = self.f8()
                self.fl(C, C if v & b else 0)
                if bool(v & b) != bool(n & 1):
                    self.pc += d - ((d & 128) << 1)
            return
        if row == 2:
            if pfx == 0:
                t = self.cond(n >> 1)
            elif pfx == 0x90 and n in (8, 9):
                t = not r["CC"] & H
            elif pfx == 0x90 and n in (12, 13):
                t = r["CC"] & (I0 | I1) != I0 | I1
            else:
                raise Skip()
            d = self.f8()
            if bool(t) != bool(n & 1):
                self.pc += d - ((d & 128) << 1)
            return
        if pfx == 0x72:
            w = {0xbb: ("X", 0, "l"), 0xfb: ("X", 0, "s"), 0xa9: ("Y", 0, "i"), 0xb9: ("Y", 0, "l"), 0xf9: ("Y", 0, "s"),
                 0xb0: ("X", 1, "l"), 0xf0: ("X", 1, "s"), 0xa2: ("Y", 1, "i"), 0xb2: ("Y", 1, "l"), 0xf2: ("Y", 1, "s")}.get(op)
            if w:
                q, sub, mode = w
                b = self.f16() if mode == "i" else self.rd2(self.f16() if mode == "l" else self.f8() + r["SP"])
                r[q] = (self.subf if sub else self.addf)(r[q], b, 0, 16, V | H | C)
                return
        if op in (0x1c, 0x1d) and not pfx:
            b = self.f16()
            r["X"] = (self.subf if op & 1 else self.addf)(r["X"], b, 0, 16, V | H | C)
            return
        # accumulator operations
        if (row >= 0xa or row == 1) and n in (0, 1, 2, 4, 5, 6, 8, 9, 0xa, 0xb) and op not in (0x16,):
            if row == 0xa:
                if pfx:
                    raise Skip()
                v = self.f8()
            else:
                v = self.rd(self.ea(row, pfx))
            self.alu(n, v)
            return
        if op == 0x7b and not pfx:
            self.alu(6, self.rd(self.ea(1, 0)))
            return
        if row >= 0xb and n == 7 or op == 0x6b and not pfx:
            a = self.ea(1 if op == 0x6b else row, pfx)
            self.wr(a, r["A"])
            self.nz(r["A"])
            return
        # read-modify-write
        if row in (0, 3, 4, 5, 6, 7) and n in (0, 3, 4, 6, 7, 8, 9, 0xa, 0xc, 0xd, 0xe, 0xf):
            k = (pfx, row)
            if k == (0, 4):
                t = self.rmw(n, r["A"], 8)
                if t is not None:
                    r["A"] = t
                return
            if k in ((0, 5), (0x90, 5)):
                t = self.rmw(n, r[I], 16)
                if t is not None:
                    r[I] = t
                return
            if k == (0, 0):
                a = self.ea(1, 0)
            elif k == (0, 3):
                a = self.f8()
            elif k == (0x72, 3):
                a = self.rd2(self.f16())
            elif k == (0x92, 3):
                a = self.rd2(self.f8())
            elif k in ((0x72, 4), (0x90, 4)):
                a = self.f16() + r[I]
            elif k == (0x72, 5):
                a = self.f16()
            elif k in ((0, 6), (0x90, 6)):
                a = self.f8() + r[I]
            elif k == (0x72, 6):
                a = self.rd2(self.f16()) + r["X"]
            elif k in ((0x91, 6), (0x92, 6)):
                a = self.rd2(self.f8()) + r["Y" if pfx == 0x91 else "X"]
            elif k in ((0, 7), (0x90, 7)):
                a = r[I]
            else:
                raise Skip()
            # (CLR does not read)
            t = self.rmw(n, 0 if n == 0xf else self.rd(a), 8)
            if t is not None:
                self.wr(a, t)
            return
        # compare, load, store of words
        if n == 3 and (row >= 0xa or row == 1) and not (row == 1 and pfx):
            if row in (1, 0xa, 0xb, 0xc):
                q = "Y" if pfx in (0x90, 0x91) else "X"
                b = self.word(row, pfx)
            else:
                # the register that is not the index
                q = "X" if pfx in (0x90, 0x91) else "Y"
                b = self.rd2(self.ea(row, pfx))
            self.subf(r[q], b, 0, 16, V | C)
            return
        if n == 0xe and (row >= 0xa or row == 1) and not (row == 1 and pfx) or op == 0x16 and not pfx:
            q = "Y" if pfx in (0x90, 0x91) or op == 0x16 else "X"
            r[q] = self.word(row, pfx)
            self.nz(r[q], 16)
            return
        if n == 0xf and (row >= 0xb or row == 1) and not (row == 1 and pfx) or op == 0x17 and not pfx:
            y = pfx in (0x90, 0x91)
            if row in (0xd, 0xe, 0xf):
                q = "X" if y else "Y"
                a = self.ea(row, pfx)
            else:
                q = "Y" if y or op == 0x17 else "X"
                a = self.wordea(row, pfx)
            v = r[q]
            self.wr2(a, v)
            self.nz(v, 16)
            return
        if row >= 0xc and n in (0xc, 0xd):
            a = self.ea(row, pfx)
            a += self.pc & 0xff0000
            if (a ^ self.pc) >> 16:
                raise Skip()
            if n == 0xd:
                self.push16(self.pc)
            self.pc = a
            return
        if op in (0xaf, 0xa7, 0xbc, 0xbd):
            x = 0
            if op in (0xaf, 0xa7):
                x = r["Y"] if pfx in (0x90, 0x91) else r["X"]
            if pfx in (0x91, 0x92):
                if pfx == 0x91 and not op in (0xaf, 0xa7):
                    raise Skip()
                a = self.rd3(self.f16())
            elif pfx == 0 or pfx == 0x90 and op in (0xaf, 0xa7):
                a = self.f16() << 8
                a |= self.f8()
            else:
                raise Skip()
            if op in (0xaf, 0xbc):
                r["A"] = self.rd(a + x)
            else:
                self.wr(a + x, r["A"])
            self.nz(r["A"])
            return
        if op in (0xac, 0x8d):
            if pfx == 0x92:
                p = self.f16()
                a = self.rd3(p)
                # (whether the pointer is read before the pushes is not documented)
                if op == 0x8d and p - 2 <= r["SP"] <= p + 5:
                    raise Skip()
            elif not pfx:
                a = self.f16() << 8
                a |= self.f8()
            else:
                raise Skip()
            if op == 0x8d:
                self.push16(self.pc)
                self.push(self.pc >> 16)
            self.pc = a
            return
        if pfx not in (0, 0x90):
            raise Skip()
        # both with X and Y
        q = r[I]
        if op == 0x01:
            r[I], r["A"] = r["A"] << 8 | q >> 8, q & 255
            self.nz(r[I], 16)
        elif op == 0x02:
            r[I], r["A"] = (q << 8 | r["A"]) & 0xffff, q >> 8
            self.nz(r[I], 16)
        elif op == 0x42:
            r[I] = (q & 255) * r["A"]
            self.fl(H | C, 0)
        elif op == 0x62:
            self.fl(V | N | H | Z | C, 0)
            if r["A"] == 0:
                self.fl(C, C)
                self.m.loose.update({"A": 0xff, I: 0xffff, "CC": Z})
            else:
                r[I], r["A"] = divmod(q, r["A"])
                self.fl(Z, Z if r[I] == 0 else 0)
        elif op == 0x85:
            r[I] = self.pop16()
        elif op == 0x89:
            self.push16(q)
        elif op == 0x93:
            r[I] = r["X" if I == "Y" else "Y"]
        elif op == 0x94:
            r["SP"] = q
        elif op == 0x95:
            r[I] = q & 255 | r["A"] << 8
        elif op == 0x96:
            r[I] = r["SP"]
        elif op == 0x97:
            r[I] = q & 0xff00 | r["A"]
        elif op == 0x9e:
            r["A"] = q >> 8
        elif op == 0x9f:
            r["A"] = q & 255
        elif pfx:
            raise Skip()
        elif op == 0x65:
            self.fl(V | N | H | Z | C, 0)
            if r["Y"] == 0:
                self.fl(C, C)
                self.m.loose.update({"X": 0xffff, "Y": 0xffff, "CC": Z})
            else:
                r["X"], r["Y"] = divmod(r["X"], r["Y"])
                self.fl(Z, Z if r["X"] == 0 else 0)
        elif op == 0x31:
            a = self.f16()
            t = self.rd(a)
            self.wr(a, r["A"])
            r["A"] = t
        elif op in (0x41, 0x61):
            k = "X" if op == 0x41 else "Y"
            r[k], r["A"] = r[k] & 0xff00 | r["A"], r[k] & 255
        elif op == 0x51:
            r["X"], r["Y"] = r["Y"], r["X"]
        elif op == 0x80:
            r["CC"] = self.pop()
            r["A"] = self.pop()
            r["X"] = self.pop16()
            r["Y"] = self.pop16()
            e = self.pop() << 16
            self.pc = e | self.pop16()
        elif op == 0x81:
            self.pc = self.pc & 0xff0000 | self.pop16()
        elif op == 0x87:
            e = self.pop() << 16
            self.pc = e | self.pop16()
        elif op == 0x82:
            a = self.f16() << 8
            self.pc = a | self.f8()
        elif op == 0x83:
            self.push16(self.pc)
            self.push(self.pc >> 16)
            self.push16(r["Y"])
            self.push16(r["X"])
            self.push(r["A"])
            self.push(r["CC"])
            self.fl(I0 | I1, I0 | I1)
            self.pc = 0x8004
        elif op == 0x32:
            a = self.f16()
            self.wr(a, self.pop())
        elif op == 0x3b:
            self.push(self.rd(self.f16()))
        elif op == 0x4b:
            self.push(self.f8())
        elif op == 0x84:
            r["A"] = self.pop()
        elif op == 0x86:
            r["CC"] = self.pop()
        elif op == 0x88:
            self.push(r["A"])
        elif op == 0x8a:
            self.push(r["CC"])
        elif op == 0x52:
            r["SP"] -= self.f8()
        elif op == 0x5b:
            r["SP"] += self.f8()
        elif op == 0x35:
            v = self.f8()
            self.wr(self.f16(), v)
        elif op == 0x45:
            v = self.rd(self.f8())
            self.wr(self.f8(), v)
        elif op == 0x55:
            v = self.rd(self.f16())
            self.wr(self.f16(), v)
        elif op in (0x98, 0x99):
            self.fl(C, op & 1)
        elif op == 0x8c:
            r["CC"] ^= C
        elif op == 0x9a:
            self.fl(I0 | I1, I1)
        elif op == 0x9b:
            self.fl(I0 | I1, I0 | I1)
        elif op == 0x9c:
            self.fl(V, 0)
        elif op == 0x9d:
            pass
        elif op == 0xad:
            d = self.f8()
            self.push16(self.pc)
            self.pc += d - ((d & 128) << 1)
        else:
            raise Skip()

    def wordea(self, row, pfx):
        r = self.r
        if row == 1:
            return self.f8() + r["SP"]
        if row == 0xb and pfx in (0, 0x90):
            return self.f8()
        if row == 0xc:
            if pfx in (0, 0x90):
                return self.f16()
            return self.rd2(self.f16() if pfx == 0x72 else self.f8())
        if row >= 0xd:
            return self.ea(row, pfx)
        raise Skip()

    def word(self, row, pfx):
        if row == 0xa:
            if pfx not in (0, 0x90):
                raise Skip()
            return self.f16()
        return self.rd2(self.wordea(row, pfx))


class STM8(ISACheck):
    sim = "stm8"
    regs = [Reg("A"), Reg("CC"), Reg("X", 16), Reg("Y", 16), Reg("SP", 16)]
    pcbits = 24
    spaces = {"rom": 0x28000}
    prologue = ["expr /n sp_limit=0;expr /n rollover=0"]

    def memcheck_ranges(self, name):
        return RANGES

    def readable(self, n, a):
        return any(lo <= a <= hi for lo, hi in RANGES)

    def image(self, name, ms):
        b = bytearray(super().image(name, ms))
        # pointers that lead somewhere
        for lo, hi in RANGES:
            for a in range(lo, hi + 1, 5):
                b[a] = b[a] % 24 if ms else 0
        return b

    def poke_cmd(self, sp, a, vals):
        out = []
        for i, v in enumerate(vals):
            x = (a + i) % 0x28000
            if x >= 0x8000:
                out.append("expr /n flash_chip[%d]=%d" % (x - 0x8000, v))
            else:
                out.append("expr /n rom[%d]=%d" % (x, v))
        return ";".join(out)

    def addr(self, d):
        k = d.below(20)
        if k < 12:
            return d.bits(13) % 0x1800
        if k < 14:
            return 0x8000 + d.bits(12)
        if k == 14:
            return d.choice([0xff00, 0xfff0, 0xfffe, 0xffff])
        if k == 15:
            return d.below(4)
        return d.edge(16)

    def gen_step(self, d, i):
        pfx = d.weighted([(10, 0), (4, 0x72), (4, 0x90), (2, 0x91), (3, 0x92)])
        op = d.below(256)
        code = ([pfx] if pfx else []) + [op]
        for _ in range(2):
            a = self.addr(d)
            code += [a >> 8, a & 255]
        pc = d.weighted([(10, 0x100), (10, 0x8100), (5, 0x10900), (3, None)])
        if pc is None:
            lo, hi = d.choice(RANGES)
            pc = min(lo + d.bits(13), hi - 6)
        pc = max(pc, 0)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                if g.name in "XYSP" and d.bool(0.7):
                    regs[g.name] = self.addr(d)
                else:
                    regs[g.name] = d.edge(g.bits)
        poke = []
        if pfx in (0x72, 0x91, 0x92):
            # a pointer
            a = code[2] << 8 | code[3] if pfx == 0x72 or op in (0xaf, 0xa7, 0xbc, 0xbd, 0xac, 0x8d) else code[2]
            if a + 2 < 0x1800:
                e = self.addr(d)
                poke = [["rom", a, [e >> 8, e & 255] if not op in (0xaf, 0xa7, 0xbc, 0xbd, 0xac, 0x8d)
                         else [d.below(2), e >> 8, e & 255]]]
        return {"pc": pc, "code": code, "set": regs, "poke": poke}

    def execute(self, m):
        return CPU(m).step()

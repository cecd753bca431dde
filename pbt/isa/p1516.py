"""The P1516 and P2223 processors, written from their instruction set descriptions."""
from .common import ISACheck, Reg, Skip

S, C, Z, O, P, U = 1, 2, 4, 8, 16, 32
M = 0xffffffff
N = 0x80000000
NAMES = ["R%d" % i for i in range(16)]


def sx(v, b):
    return v - (1 << b) if v >> (b - 1) & 1 else v


def okaddr(a):
    """plain memory: no registers of the peripherals, no built-in monitor"""
    return 0x100 <= a < 0xefff or 0x10010 <= a < 0x1fff0


class CPU:
    def __init__(self, m, v):
        self.m, self.r, self.v = m, m.r, v

    def fl(self, keep, on):
        self.r["F"] = self.r["F"] & keep | on

    def ad(self, a, b, c):
        t = a + b + c
        on = (C if t > M else 0)
        t &= M
        on |= (Z if not t else 0) | (S if t & N else 0)
        if (a & N) == (b & N) and (a ^ t) & N:
            on |= O
        self.fl(~(S | C | Z | O), on)
        return t

    def z(self, t):
        self.fl(~Z, 0 if t else Z)

    def zs(self, t):
        self.fl(~(Z | S), (0 if t else Z) | (S if t & N else 0))

    def c(self, v):
        self.fl(~C, C if v else 0)

    def rd(self, a):
        if not okaddr(a):
            raise Skip()
        return self.m.s["rom"].rd(a)

    def wr(self, a, v):
        if not okaddr(a):
            raise Skip()
        self.m.s["rom"].wr(a, v)

    def step(self):
        r = self.r
        w = self.m.s["rom"].rd(r["PC"])
        r["R15"] = r["PC"] + 1
        n = (self.p1516 if self.v == 0 else self.p2223)(w)
        if not 0 <= r["R15"] < 0x20000:
            raise Skip()
        r["PC"] = r["R15"]
        return n

    # P1516
    def p1516(self, w):
        r = self.r
        cc = w >> 28
        if cc & 1:
            if bool(r["F"] & (S, C, Z, O)[cc >> 2]) != bool(cc & 2):
                return "not_taken"
        if w & 0x08000000:
            r["R14"] = r["R15"]
            r["R15"] = w & 0x7ffffff
            return "CALL"
        d, a, b = (NAMES[w >> k & 15] for k in (20, 16, 12))
        i = w >> 24 & 7
        A, B = r[a], r[b]
        cy = 1 if r["F"] & C else 0
        k = w & 0xffff
        if i == 1:
            r[d] = self.rd(A)
        elif i == 2:
            self.wr(A, r[d])
        elif i == 3:
            r[d] = A
        elif i == 4:
            r[d] = k
        elif i == 5:
            r[d] = r[d] & 0xffff0000 | k
        elif i == 6:
            r[d] = r[d] & 0xffff | k << 16
        elif i == 7:
            op = w >> 7 & 31
            if op in (0, 1, 2, 3, 4, 5, 15):
                x, y, c = {0: (A, B, 0), 1: (A, B, cy), 2: (A, B ^ M, 1), 3: (A, B ^ M, cy), 4: (A, 1, 0),
                           5: (A, M ^ 1, 1), 15: (A, B ^ M, 1)}[op]
                t = self.ad(x, y, c)
                if op != 15:
                    r[d] = t
            elif op in (6, 7, 8):
                r[d] = (A & B, A | B, A ^ B)[op - 6]
                self.z(r[d])
            elif op in (9, 11):
                r[d] = (A << 1 | (cy if op == 11 else 0)) & M
                self.c(A & N)
                self.z(r[d])
            elif op in (10, 12, 16):
                top = {10: 0, 12: cy, 16: A >> 31}[op]
                r[d] = A >> 1 | top << 31
                self.c(A & 1)
                self.z(r[d])
            elif op in (13, 19):
                t = A * B
                r[d] = t & M if op == 13 else t >> 32
                self.zs(r[d])
            elif op in (17, 18):
                self.c(op == 17)
            else:
                raise Skip()
            return "ALU%d" % op
        return "I%d" % i

    # P2223
    def cond(self, cc):
        f = self.r["F"]
        n, c, z, v = (bool(f & x) for x in (S, C, Z, O))
        return (True, z, not z, c, not c, n, not n, v, not v, c and not z, not c or z, n == v, n != v,
                not z and n == v, z or n != v, True)[cc]

    def p2223(self, w):
        r = self.r
        cc = w >> 28
        i = w >> 25 & 7
        if not self.cond(cc):
            return "not_taken"
        if cc == 15 and i != 2:
            return "data"
        d = NAMES[w >> 20 & 15]
        b = NAMES[w >> 8 & 15]
        cy = 1 if r["F"] & C else 0
        D = r[d]
        op = w >> 16 & 15
        if i == 2:
            t = D + sx(w & 0xfffff, 20) & M if w >> 24 & 1 else w & 0xffffff
            r["R14"] = r["R15"]
            r["R15"] = t
            return "CALL"
        if i == 1:
            if op < 4:
                m = 0xff if op in (0, 2) else 0xffff
                t = D & m
                if op >= 2 and t & (m + 1 >> 1):
                    t |= M & ~m
                r[d] = t
            elif op == 4:
                r[d] = D ^ M
                self.zs(r[d])
            elif op == 5:
                r[d] = self.ad(0, D ^ M, 1)
            elif op in (6, 9, 10):
                r[d] = D >> 1 | {6: cy, 9: 0, 10: D >> 31}[op] << 31
                self.c(D & 1)
                self.zs(r[d])
            elif op in (7, 8):
                r[d] = (D << 1 | (cy if op == 7 else 0)) & M
                self.c(D & N)
                self.zs(r[d])
            elif op == 11:
                self.zs(D)
            elif op in (12, 13):
                self.c(op == 12)
            elif op == 14:
                r[d] = r["F"]
            else:
                if D > 63:
                    raise Skip()
                r["F"] = D
            return "ONE%d" % op
        if i == 0:
            imm = w >> 24 & 1
            u = w & 0xffff if imm else r[b]
            s = sx(u, 16) & M if imm else u
            if op < 4:
                if imm:
                    r[d] = (D & 0xffff0000 | u, D & 0xffff | u << 16, u, s)[op]
                elif op == 0:
                    r[d] = u
                elif op == 3:
                    r[d] = M if u & N else 0
                else:
                    raise Skip()
            elif op in (4, 5, 6, 7, 8):
                x, y, c = {4: (D, s, 0), 5: (D, s, cy), 6: (D, s ^ M, 1), 7: (D, s ^ M, cy), 8: (D, s ^ M, 1)}[op]
                t = self.ad(x, y, c)
                if op != 8:
                    r[d] = t
            elif op == 9:
                r[d] = D * s & M
                self.zs(r[d])
            elif op == 10:
                r[d] = D + s & M
            elif op == 11:
                r[d] = D & u
                self.zs(D & u)
            elif op == 12:
                self.zs(D & u)
            elif op in (13, 14):
                r[d] = D | u if op == 13 else D ^ u
                self.zs(r[d])
            else:
                r[d] = D & (u | 0xffff0000 if imm else u)
                self.zs(r[d])
            return "ALU%d%s" % (op, "i" if imm else "r")
        if i == 3:
            x = w >> 24 & 1
            if op == 0:
                if x:
                    r[d] = self.rd(w & 0xffff)
                else:
                    self.wr(w & 0xffff, D)
                return "ST_LD"[3 * x:3 * x + 2] + "_abs"
            if op == 1:
                k = (w if w & 0x8000 else r[NAMES[w & 15]]) & 3
                B = r[b]
                if x:
                    r[d] = D & ~(0xff << 8 * k) | (B & 255) << 8 * k
                else:
                    t = B >> 8 * k & 255
                    if not w & 0x4000:
                        t |= D & 0xffffff00
                    elif w & 0x2000 and t & 0x80:
                        t |= 0xffffff00
                    r[d] = t
                return "GETB_PUTB"[5 * x:5 * x + 4]
            if op == 2:
                if w >> 8 & 15:
                    raise Skip()
                if x:
                    if D > 63:
                        raise Skip()
                    r["F"] = D
                else:
                    r[d] = r["F"]
                return "RDS_WRS"[4 * x:4 * x + 3]
            raise Skip()
        # memory: i 4,5 register offset ST, LD; 6,7 immediate offset ST, LD
        a = NAMES[op]
        ld = i & 1
        wb = w >> 24 & 1
        if i >= 6:
            off = sx(w & 0xffff, 16)
            u, p = bool(r["F"] & U), bool(r["F"] & P)
            if ld:
                u, p = not u, not p
        else:
            off = r[b]
            u, p = bool(w & 0x8000), bool(w & 0x4000)
        A = r[a]
        if wb and ld and a == d:
            raise Skip()
        new = A + (1 if u else -1) & M
        ad = (new if p and wb else A) + off & M
        if ld:
            r[d] = self.rd(ad)
        else:
            self.wr(ad, D)
        if wb:
            r[a] = new
        return "%s%d_%d%d%d" % (("ST", "LD")[ld], i, wb, u, p)


class P1516(ISACheck):
    sim = "p1516"
    variants = [(["-t", "P1516"], 0), (["-t", "P2223"], 1)]
    pcbits = 32
    spaces = {"rom": 0x20000}
    cellbits = {"rom": 32}
    loaded = []
    filled = []
    regs = [Reg(n, 32) for n in NAMES[:15]] + [Reg("R15", 32, set=False), Reg("F", 6)]

    def image(self, name, ms):
        return [0] * self.spaces[name]

    def model_init(self, m):
        m.r["R15"] = 0

    def gen_step(self, d, i):
        pc = d.choice([0x10123, 0x10100 + d.below(0xf000), 0x100 + d.below(0xee00)])
        regs = {}
        w = 0
        fields = [d.below(16) for _ in range(3)]
        if d.bool(0.2):
            fields[1] = fields[0]
        if d.bool(0.1):
            fields[2] = fields[1]
        D, A, B = fields
        for k in {D, A, B} - {15}:
            if d.bool(0.7):
                regs["R%d" % k] = d.edge(32)
        t = d.choice([0x10000 + d.int(0x100, 0xff00), 0x200 + d.below(0xe000)])
        if self.v == 0:
            regs["F"] = d.below(16) if d.bool(0.6) else None
            cc = 0 if d.bool(0.6) else d.below(16)
            op = d.weighted([(6, 7), (1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 8)])
            w = cc << 28 | op << 24 | D << 20
            if op == 8:
                w = cc << 28 | 0x8000000 | d.below(0x20000)
            elif op == 7:
                w |= A << 16 | B << 12 | d.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19]) << 7
            elif op >= 4:
                w |= d.edge(16)
            else:
                w |= A << 16
                if op < 3 and A < 15:
                    regs["R%d" % A] = t
        else:
            regs["F"] = d.below(64) if d.bool(0.6) else None
            cc = 0 if d.bool(0.5) else d.below(16)
            i = d.weighted([(6, 0), (4, 1), (1, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7)])
            x = d.below(2)
            w = cc << 28 | i << 25 | x << 24 | D << 20 | A << 16
            off = 0
            if i == 0:
                w |= d.edge(16) if x else B << 8
            elif i == 1:
                w &= ~0x1000000
            elif i == 2:
                if x:
                    s = d.edge(20)
                    w = w & ~0xfffff | s
                    if D < 15:
                        regs["R%d" % D] = t - sx(s, 20) & M
                else:
                    w = w & ~0xffffff | d.below(0x20000)
            elif i == 3:
                op = d.below(3)
                w &= ~0xf0000
                w |= op << 16
                if op == 0:
                    t = 0x200 + d.below(0xe000)
                    w |= t
                elif op == 1:
                    w |= B << 8 | d.below(8) << 13 | d.below(16)
            elif i < 6:
                w |= B << 8 | d.below(4) << 14
                off = d.choice([0, 1, 5, M, M - 2, d.below(0x8000)])
                if B < 15:
                    regs["R%d" % B] = off
                if A < 15 and A != B:
                    regs["R%d" % A] = t - off & M
            else:
                s = d.edge(16)
                w |= s
                if A < 15:
                    regs["R%d" % A] = t - sx(s, 16) & M
            if i == 1 and A == 15 or i == 3 and op == 2 and x:
                if D < 15:
                    regs["R%d" % D] = d.below(64)
        if regs.get("F", 0) is None:
            del regs["F"]
        st = {"pc": pc, "code": [w], "set": regs, "poke": [["rom", t - 1, [d.edge(32), d.edge(32), d.edge(32)]]]}
        if abs(pc - t) < 4:
            del st["poke"]
        return st

    def execute(self, m):
        return CPU(m, self.v).step()

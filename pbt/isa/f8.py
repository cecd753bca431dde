"""The F8 processor: loads, arithmetic, shifts and jumps with all prefixes, from its opcode table."""
from .common import ISACheck, Reg, Skip

O, Z, N, C, H = 1, 2, 4, 8, 16
SWAP = 0x9c
# prefix: 8 bit accumulator, 16 bit accumulator, index partner
ACC = {0: ("XL", "Y", "X"), 0x9d: ("XH", "Y", "X"), 0x9e: ("YL", "Z", "Y"), 0x9f: ("ZL", "X", "Z"),
       0x94: ("YH", "Z", "Y"), 0xd8: ("ZH", "Y", "Z")}
ANY = [0x9d, 0x9e, 0x9f, 0x94, 0xd8]
WIDE = [0x9e, 0x9f]
SIX = [0x9e, 0x9f, 0x94]


def allowed(op):
    """(prefixes that select accumulators, swap allowed)"""
    h, l = op >> 4, op & 15
    if h < 4:
        return ANY, bool(l & 7)
    if h < 6:
        return (ANY if l & 3 == 2 else []), False
    if h == 6:
        return {2: ANY, 5: WIDE, 7: WIDE}.get(l, []), False
    if h == 7:
        return ANY, l not in (4, 8, 12)
    if h == 8:
        return ANY, 6 <= l <= 10
    if h == 9:
        return (ANY if l in (1, 2, 5, 6, 7, 8, 9, 10) else SIX if l == 3 else []), False
    if h == 10:
        return (WIDE if l & 3 == 3 else []), False
    if h == 11:
        return (WIDE if l == 3 else SIX if 4 <= l <= 9 else []), False
    if h == 12:
        return (ANY if l == 13 else WIDE if l == 14 else [] if l == 15 else SIX), False
    if h == 13:
        return {6: WIDE, 11: WIDE, 14: ANY}.get(l, []), l in (9, 13, 15)
    if h == 14:
        return (SIX if l < 6 or l in (9, 11) else ANY if l > 13 else []), False
    return (ANY if l in (0, 1, 2, 3, 12, 13, 14, 15) else WIDE if l in (4, 5) else SIX if l in (6, 8, 10, 11) else []), l in (1, 2, 3, 13, 14, 15)


class CPU:
    def __init__(self, m):
        self.m, self.r, self.s = m, m.r, m.s["rom"]
        self.pc = m.r["PC"]

    def rd(self, a):
        if not 0x2000 <= a <= 0xffff:
            raise Skip()
        return self.s.rd(a)

    def wr(self, a, v):
        if not 0x2000 <= a < 0x4000:
            raise Skip()
        self.s.wr(a, v & 255)

    def rd16(self, a):
        return self.rd(a) | self.rd(a + 1) << 8

    def wr16(self, a, v):
        self.wr(a, v)
        self.wr(a + 1, v >> 8)

    def f(self):
        v = self.rd(self.pc)
        self.pc = self.pc + 1 & 0xffff
        return v

    def fs(self):
        v = self.f()
        return v - 256 if v > 127 else v

    def f16(self):
        v = self.f()
        return v | self.f() << 8

    def g(self, n):
        v = self.r[n[0] if n != "SP" else n]
        return v if len(n) == 1 or n == "SP" else v >> 8 if n[1] == "H" else v & 255

    def st(self, n, v):
        if len(n) == 1 or n == "SP":
            self.r[n] = v & 0xffff
        else:
            k = self.r[n[0]]
            self.r[n[0]] = k & 255 | (v & 255) << 8 if n[1] == "H" else k & 0xff00 | v & 255

    def fl(self, mask, on):
        self.r["F"] = self.r["F"] & ~mask | on

    def zn(self, v, top=0x80, mask=Z | N, on=0):
        self.fl(mask, on | (0 if v else Z) | (N if v & top and mask & N else 0))

    # operands: ("r", name) or ("m", address)
    def og(self, o):
        return self.g(o[1]) if o[0] == "r" else self.rd(o[1]) if o[0] == "m" else o[1]

    def os(self, o, v):
        if o[0] == "r":
            self.st(o[1], v)
        else:
            self.wr(o[1], v)

    def wg(self, o):
        return self.g(o[1]) if o[0] == "r" else self.rd16(o[1])

    def ws(self, o, v):
        if o[0] == "r":
            self.st(o[1], v)
        else:
            self.wr16(o[1], v & 0xffff)

    def ad8(self, a, b, c):
        t = a + b + c
        r = t & 255
        on = (C if t > 255 else 0) | (H if (a & 15) + (b & 15) + c > 15 else 0) | (
            O if (a ^ r) & (b ^ r) & 0x80 else 0)
        self.zn(r, 0x80, O | Z | N | C | H, on)
        return r

    def ad16(self, a, b, c):
        t = a + b + c
        r = t & 0xffff
        self.zn(r, 0x8000, O | Z | N | C, (C if t > 0xffff else 0) | (O if (a ^ r) & (b ^ r) & 0x8000 else 0))
        return r

    def mm(self):
        return "m", self.f16()

    def nsp(self):
        return "m", self.f() + self.r["SP"] & 0xffff

    def nnz(self):
        return "m", self.f16() + self.r["Z"] & 0xffff

    def ny(self, signed=True):
        n = self.fs() if signed else self.f()
        return "m", n + self.r["Y"] & 0xffff

    def push(self, v, n):
        for k in reversed(range(n)):
            self.r["SP"] = self.r["SP"] - 1 & 0xffff
            self.wr(self.r["SP"], v >> 8 * k)

    def pop(self, n):
        v = 0
        for k in range(n):
            v |= self.rd(self.r["SP"]) << 8 * k
            self.r["SP"] = self.r["SP"] + 1 & 0xffff
        return v

    def step(self):
        op = self.f()
        sw = False
        alt = 0
        while op == SWAP or op in ACC:
            if op == SWAP:
                sw = True
            elif alt:
                raise Skip()
            else:
                alt = op
            op = self.f()
        al, s = allowed(op)
        if alt and alt not in al or sw and not s:
            raise Skip()
        self.a, self.w, self.x = ACC[alt]
        self.alt, self.sw = alt, sw
        mn = self.do(op)
        self.r["PC"] = self.pc
        return mn + ("~" if sw else "") + ("" if not alt else "^%x" % alt)

    def shift(self, k, v, top):
        """SRL SLL RRC RLC"""
        cy = 1 if self.r["F"] & C else 0
        if k & 1:
            c = v & top
            v = v << 1 & 2 * top - 1 | (cy if k == 3 else 0)
        else:
            c = v & 1
            v = v >> 1 | (top if k == 2 and cy else 0)
        self.zn(v, top, C | Z | N, C if c else 0)
        return v

    def do(self, op):
        r = self.r
        h, l = op >> 4, op & 15
        cy = 1 if r["F"] & C else 0
        A, W, X = ("r", self.a), ("r", self.w), ("r", self.x)
        if h < 4:
            k = h * 2 + (l >> 3)
            l &= 7
            if l == 0 and k < 2:
                if k == 1:
                    return "NOP"
                raise Skip()
            if l == 0:
                o = ("i", self.f())
            elif l < 4:
                o = (self.mm, self.nsp, self.nnz)[l - 1]()
            else:
                o = ("r", ("ZL", "XH", "YL", "YH")[l - 4])
            p, q = (o, A) if self.sw else (A, o)
            a, b = self.og(p), self.og(q)
            if k in (2, 3):
                v = self.ad8(a, b, cy if k == 3 else 0)
            elif k in (0, 1, 4):
                v = self.ad8(a, b ^ 255, cy if k == 1 else 1)
            else:
                v = {5: a | b, 6: a & b, 7: a ^ b}[k]
                self.zn(v)
            if k != 4:
                self.os(p, v)
            return ("SUB", "SBC", "ADD", "ADC", "CP", "OR", "AND", "XOR")[k] + str(l)
        if h in (4, 5):
            k = op >> 2 & 7
            o = A if l & 3 == 2 else (self.mm, self.nsp, None, self.ny)[l & 3]()
            nm = ("SRL", "SLL", "RRC", "RLC", "INC", "DEC", "CLR", "TST")[k if h == 4 else k] + str(l & 3)
            if nm[:3] == "CLR":
                self.os(o, 0)
                return nm
            v = self.og(o)
            if h == 4:
                self.os(o, self.shift(k & 3, v, 0x80))
            elif k & 3 < 2:
                t = v + (-1 if k & 1 else 1) & 255
                self.zn(t, 0x80, C | Z | N, C if (v != 0 if k & 1 else v == 255) else 0)
                self.os(o, t)
            else:
                self.zn(v, 0x80, O | Z | N | C, 0 if bin(v).count("1") & 1 else O)
            return nm
        if h == 6 or op in (0x90,) or op >> 2 == 0x2c or op in (0xe8, 0x99, 0xe9):
            if l >= 8 and h == 6:
                b = 1 << (l & 7)
                o = self.mm()
                v = self.og(o)
                a = self.og(A)
                self.os(A, 1 if v & b else 0)
                self.os(o, v & ~b | (b if a & 1 else 0))
                self.fl(Z, 0 if v & b else Z)
                return "XCHB"
            if op in (0x60, 0x61, 0x62, 0x63):
                o = A if l == 2 else (self.mm, self.nsp, None, self.ny)[l]()
                self.push(self.og(o), 1)
                return "PUSH%d" % l
            if op == 0x90:
                self.push(self.f(), 1)
                return "PUSH_i"
            if h == 11:
                o = W if l == 3 else (self.mm, self.nsp, self.nnz)[l]()
                self.push(self.wg(o), 2)
                return "PUSHW%d" % l
            if op == 0xe8:
                self.push(self.f16(), 2)
                return "PUSHW_i"
            if op == 0x99:
                self.os(A, self.pop(1))
                return "POP"
            if op == 0xe9:
                self.ws(W, self.pop(2))
                return "POPW"
            # 64..67
            t = self.wg(W) if l & 1 else self.f16()
            if l >= 6:
                self.push(self.pc, 2)
                if l & 1:
                    t = self.wg(W)
            self.pc = t
            return ("JP", "JP_A", "CALL", "CALL_A")[l - 4]
        if h == 7 or op in (0xf0, 0xf1, 0xf2, 0xf3, 0xfc, 0xfd, 0xfe, 0xff):
            if op == 0x70:
                if self.sw:
                    r["SP"] = self.wg(W)
                else:
                    self.ws(W, r["SP"])
                return "LDW_A_SP"
            if op == 0x74:
                a = self.rd16(self.f() + r["SP"] & 0xffff)
                self.wr(a, self.wg(W))
                self.wr(a + 1 & 0xffff, self.wg(W) >> 8)
                return "LDW_dSP"
            k = l >> 2 if h == 7 else l >> 2 | 4
            l &= 3
            o = X if l == 3 else (self.imm16, self.mm, self.nsp)[l]()
            if self.sw and (k < 2 and l < 3 or l == 3 and self.alt):
                raise Skip()            # not settled by the description
            p, q = (o, W) if self.sw else (W, o)
            a, b = self.wg(p), self.wg(q)
            if k < 2:
                v = self.ad16(a, b ^ 0xffff, cy if k else 1)
            elif k < 4:
                v = self.ad16(a, b, cy if k == 3 else 0)
            else:
                v = a | b if k == 4 else a ^ b
                self.zn(v, 0x8000, O | Z | N)
            self.ws(p, v)
            return ("SUBW", "SBCW", "ADDW", "ADCW", "ORW", "", "", "XORW")[k] + str(l)
        if h == 8:
            if l == 0:
                self.os(A, ("i", self.f())[1])
            elif l < 6:
                o = (self.mm, self.nsp, self.nnz, lambda: ("m", r["Y"]), self.ny)[l - 1]()
                v = self.og(o)
                self.zn(v)
                self.os(A, v)
            elif l < 11:
                o = ("r", ("XH", "YL", "YH", "ZL", "ZH")[l - 6])
                p, q = (o, A) if self.sw else (A, o)
                self.os(p, self.og(q))
            else:
                o = (self.mm, self.nsp, self.nnz, lambda: ("m", r["Y"]), self.ny)[l - 11]()
                self.os(o, self.og(A))
            return "LD%x" % l
        return self.rest(op)

    def imm16(self):
        a = self.pc
        self.f16()
        return "m", a

    def jr(self, c):
        a = self.pc - 1
        d = self.fs()
        if c:
            self.pc = a + d & 0xffff

    def rest(self, op):
        r = self.r
        h, l = op >> 4, op & 15
        F = r["F"]
        cy = 1 if F & C else 0
        A, W, X = ("r", self.a), ("r", self.w), ("r", self.x)
        nm = "%02x" % op
        if op in (0x91, 0x92):
            o = self.nsp() if op == 0x91 else ("m", r["Y"])
            a, b = self.og(A), self.og(o)
            self.os(A, b)
            self.os(o, a)
            if op == 0x92 and self.alt in (0x9e, 0x94):
                raise Skip()
        elif op == 0x93:
            v = self.wg(W)
            self.ws(W, v >> 8 | v << 8 & 0xff00)
        elif op == 0x95:
            k = self.f() & 7
            v = self.og(A)
            self.os(A, v << k | v >> 8 - k)
        elif op == 0x96:
            v = self.og(A)
            t = v >> 1 | v & 0x80
            self.zn(t, 0x80, C | Z | N, C if v & 1 else 0)
            self.os(A, t)
        elif op == 0x98:
            v = self.og(A)
            self.fl(Z, 0 if v else Z)
            self.os(A, 1 if v else 0)
        elif op == 0x9b:
            v = self.rd(r["Y"])
            if v == self.g("XH"):
                self.wr(r["Z"], self.g("XL"))
            else:
                self.st("XH", v)
        elif h == 10 or op >> 2 == 0x2d:
            k = l >> 2
            o = W if l & 3 == 3 else (self.mm, self.nsp, self.nnz)[l & 3]()
            if h == 10 and k == 0:
                self.ws(o, 0)
                return nm
            v = self.wg(o)
            if h == 11:
                self.zn(v, 0x8000, Z | N, C)
                self.m.loose["F"] = O
            else:
                self.ws(o, self.ad16(v, (1, 0, 0xffff)[k - 1], (0, cy, cy)[k - 1]))
        elif op == 0xb9:
            v = self.wg(W)
            t = (v >> 8) * (v & 255)
            self.zn(t, 0x8000, C | Z | N)
            self.ws(W, t)
        elif op in (0xba, 0xbb):
            self.pc = self.pop(2)
        elif op >> 2 == 0x2f:
            o = (self.mm, self.nsp, self.nnz, lambda: ("m", r["Z"]))[l & 3]()
            t = self.og(o) * self.g("YL") + self.g("XH") + cy
            self.fl(C, C if t > 0xffff else 0)
            r["X"] = t & 0xffff
            if self.alt:
                raise Skip()
        elif op in (0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc7):
            if op == 0xc7:
                v = self.fs() & 0xffff
            else:
                o = W if op == 0xc5 else (self.imm16, self.mm, self.nsp, self.nnz, lambda: self.ny(False))[l]()
                v = self.rd16(self.wg(W)) if op == 0xc5 else self.wg(o)
            self.zn(v, 0x8000)
            self.ws(W, v)
            if op == 0xc4:
                self.skipneg(1)
        elif op == 0xc6:
            self.ws(W, r["X"])
        elif op == 0xdc:
            self.ws(W, r["Z"])
        elif op in (0xc8, 0xc9, 0xca):
            o = (self.mm, self.nsp, self.nnz)[l - 8]()
            self.ws(o, self.wg(W))
        elif op == 0xcb:
            r["X"] = self.wg(W)
        elif op == 0xcc:
            r["Z"] = self.wg(W)
        elif op == 0xcd:
            self.wr16(self.wg(W), self.wg(X))
        elif op == 0xce:
            if self.alt:
                raise Skip()
            o = self.ny(False)
            self.skipneg(1)
            self.wr16(o[1], self.wg(X))
        elif op == 0xde:
            v = self.rd16(self.wg(W))
            self.zn(v, 0x8000)
            self.ws(X, v)
        elif op == 0xed:
            v = self.rd(r["Z"])
            r["Z"] = r["Z"] + 1 & 0xffff
            o = self.ny(False)
            self.skipneg(1)
            self.wr(o[1], v)
            self.zn(v)
        elif op == 0xcf:
            o = self.ny(False)
            self.skipneg(1)
            v = self.rd16(r["Z"])
            r["Z"] = r["Z"] + 2 & 0xffff
            self.wr16(o[1], v)
            self.zn(v, 0x8000)
        elif op in (0xf4, 0xf5):
            a = self.wg(W) if op == 0xf4 else self.nsp()[1]
            R = X if op == 0xf4 else W
            t = self.rd16(a)
            self.wr16(a, self.wg(R))
            self.ws(R, t)
        elif op == 0xf9:
            v = self.rd16(r["Y"])
            if v == r["Z"]:
                self.wr16(r["Y"], r["X"])
            else:
                r["X"] = v
        elif op == 0xec:
            o = self.nsp()
            v = self.og(o)
            self.os(o, F)
            r["F"] = v
        elif op == 0xfa:
            self.ws(W, self.ad16(self.wg(W) ^ 0xffff, 1, 0))
        elif op == 0xfb:
            v = 1 if self.wg(W) else 0
            self.fl(Z, 0 if v else Z)
            self.ws(W, v)
        elif op in (0xe0, 0xe1, 0xe2, 0xe3):
            self.ws(W, self.shift(l, self.wg(W), 0x8000))
            if op == 0xe0:
                self.m.loose["F"] = N
        elif op in (0xe6, 0xe7):
            o = self.nsp()
            self.ws(o, self.shift(2 + (l & 1), self.wg(o), 0x8000))
        elif op == 0xe4:
            v = self.wg(W)
            t = v >> 1 | v & 0x8000
            self.zn(t, 0x8000, C | Z | N, C if v & 1 else 0)
            self.ws(W, t)
        elif op == 0xe5:
            n = self.og(A)
            if n > 31:
                raise Skip()
            v = self.wg(W) << n & 0xffff
            self.zn(v, 0x8000)
            self.ws(W, v)
        elif op == 0xea:
            r["SP"] = r["SP"] + self.fs() & 0xffff
        elif op == 0xeb:
            d = self.fs() & 0xffff
            self.ws(W, self.ad16(self.wg(W), d, 0))
        elif op == 0xee:
            v = self.og(A)
            v |= 0xff00 if v & 0x80 else 0
            self.zn(v, 0x8000)
            self.ws(W, v)
        elif op == 0xef:
            v = self.og(A)
            self.fl(Z, 0 if v else Z)
            self.ws(W, v)
        elif op == 0xf8:
            a = self.wg(W)
            self.ad16(a, self.f16() ^ 0xffff, 1)
        elif op == 0xf6:
            self.ws(W, self.wg(W) + 1)
        elif op == 0xf7:
            o = self.nsp()
            self.ws(o, self.ad16(self.wg(o), 0xfffe, 1))
        elif op == 0xd1:
            v = self.g("YH") - 1 & 255
            self.st("YH", v)
            self.zn(v)
            self.jr(v)
        elif h == 13:
            n, o = bool(F & N), bool(F & O)
            c = {0: True, 2: F & Z, 3: not F & Z, 4: F & C, 5: not F & C, 6: F & N, 7: not F & N,
                 9: not o, 10: n == o, 11: n != o, 13: F & Z or n != o, 15: not F & C or F & Z}[l]
            self.jr(bool(c) != self.sw)
        else:
            raise Skip()
        return nm

    def skipneg(self, n):
        """displacements above 127 are not settled by the description"""
        if self.rd(self.pc - n & 0xffff) > 127:
            raise Skip()


BAD = {0x00, 0x97, 0x9a, 0xb8, SWAP} | set(ACC)
OPS = [i for i in range(256) if i not in BAD]


class F8(ISACheck):
    sim = "f8"
    regs = [Reg(n, 16) for n in ("X", "Y", "Z", "SP")] + [Reg("F")]

    def image(self, name, ms):
        b = bytearray(super().image(name, ms))
        b[:0x2000] = bytes(0x2000)
        return b

    def memcheck_ranges(self, name):
        return [(0x2000, 0xffff)]

    def gen_step(self, d, i):
        op = d.choice(OPS)
        alts, s = allowed(op)
        code = []
        if alts and d.bool(0.4):
            code.append(d.choice(alts))
        if s and d.bool(0.4):
            code.insert(d.below(len(code) + 1), SWAP)
        code.append(op)
        regs = {}
        for n in "XYZ":
            if d.bool(0.8):
                regs[n] = d.weighted([(1, 0), (1, 1)])
                regs[n] = d.edge(16) if regs[n] else 0x2100 + d.below(0x1e00)
        if d.bool(0.5):
            regs["SP"] = 0x2200 + d.below(0x1c00)
        if d.bool(0.6):
            regs["F"] = d.below(32)
        a = d.int(0x2100, 0x3f00)
        mm = d.bool(0.7)
        if op in (0x13, 0x1b, 0x03, 0x0b, 0x23, 0x2b, 0x33, 0x3b, 0x83, 0x8d, 0xc3, 0xca, 0xb2, 0xa2, 0xa6, 0xaa, 0xae,
                  0xb6, 0xbe) and "Z" in regs:
            a = a - regs["Z"] & 0xffff
        b = [a & 255, a >> 8] if mm else [d.edge(8), d.edge(8)]
        code += b
        pc = d.choice([0x2010, 0x2000 + d.below(0x1fe0), 0x2000 + d.below(0x1fe0)])
        return {"pc": pc, "code": code, "set": regs}

    def execute(self, m):
        return CPU(m).step()

"""Reference model of the MOS 6502 (NMOS, documented opcodes) and the 65C02/65C02S."""
from .common import ISACheck, Reg, Skip, Space

N, V, B_, D, I, Z, C = 0x80, 0x40, 0x10, 0x08, 0x04, 0x02, 0x01

OPS = {}        # opcode -> (mnemonic, mode, cpu: 0 all, 1 CMOS, 2 bit manipulation)


def _t():
    def o(c, m, mode, cpu=0):
        assert c not in OPS, hex(c)
        OPS[c] = (m, mode, cpu)
    alu = ["ORA", "AND", "EOR", "ADC", "STA", "LDA", "CMP", "SBC"]
    for i, m in enumerate(alu):
        for c, mode in ((1, "izx"), (5, "zp"), (9, "imm"), (0xd, "abs"), (0x11, "izy"), (0x15, "zpx"),
                        (0x19, "aby"), (0x1d, "abx")):
            if m == "STA" and mode == "imm":
                continue
            o(i << 5 | c, m, mode)
        o(i << 5 | 0x12, m, "izp", 1)
    for i, m in enumerate(["ASL", "ROL", "LSR", "ROR", None, None, "DEC", "INC"]):
        if m:
            for c, mode in ((6, "zp"), (0xe, "abs"), (0x16, "zpx"), (0x1e, "abx")):
                o(i << 5 | c, m, mode)
            if i < 4:
                o(i << 5 | 0xa, m, "acc")
    for c, m, mode in ((0x86, "STX", "zp"), (0x96, "STX", "zpy"), (0x8e, "STX", "abs"),
                       (0x84, "STY", "zp"), (0x94, "STY", "zpx"), (0x8c, "STY", "abs"),
                       (0xa2, "LDX", "imm"), (0xa6, "LDX", "zp"), (0xb6, "LDX", "zpy"), (0xae, "LDX", "abs"),
                       (0xbe, "LDX", "aby"), (0xa0, "LDY", "imm"), (0xa4, "LDY", "zp"), (0xb4, "LDY", "zpx"),
                       (0xac, "LDY", "abs"), (0xbc, "LDY", "abx"), (0xe0, "CPX", "imm"), (0xe4, "CPX", "zp"),
                       (0xec, "CPX", "abs"), (0xc0, "CPY", "imm"), (0xc4, "CPY", "zp"), (0xcc, "CPY", "abs"),
                       (0x24, "BIT", "zp"), (0x2c, "BIT", "abs"), (0x4c, "JMP", "abs"), (0x6c, "JMP", "ind"),
                       (0x20, "JSR", "abs")):
        o(c, m, mode)
    for c, m in ((0, "BRK"), (0x40, "RTI"), (0x60, "RTS"), (8, "PHP"), (0x28, "PLP"), (0x48, "PHA"),
                 (0x68, "PLA"), (0x88, "DEY"), (0xa8, "TAY"), (0xc8, "INY"), (0xe8, "INX"), (0x18, "CLC"),
                 (0x38, "SEC"), (0x58, "CLI"), (0x78, "SEI"), (0x98, "TYA"), (0xb8, "CLV"), (0xd8, "CLD"),
                 (0xf8, "SED"), (0x8a, "TXA"), (0x9a, "TXS"), (0xaa, "TAX"), (0xba, "TSX"), (0xca, "DEX"),
                 (0xea, "NOP")):
        o(c, m, "imp")
    for i, m in enumerate(["BPL", "BMI", "BVC", "BVS", "BCC", "BCS", "BNE", "BEQ"]):
        o(i << 5 | 0x10, m, "rel")
    for c, m, mode in ((0x80, "BRA", "rel"), (0x64, "STZ", "zp"), (0x74, "STZ", "zpx"), (0x9c, "STZ", "abs"),
                       (0x9e, "STZ", "abx"), (0x14, "TRB", "zp"), (0x1c, "TRB", "abs"), (4, "TSB", "zp"),
                       (0xc, "TSB", "abs"), (0xda, "PHX", "imp"), (0xfa, "PLX", "imp"), (0x5a, "PHY", "imp"),
                       (0x7a, "PLY", "imp"), (0x1a, "INC", "acc"), (0x3a, "DEC", "acc"), (0x89, "BIT", "imm"),
                       (0x34, "BIT", "zpx"), (0x3c, "BIT", "abx"), (0x7c, "JMP", "iax")):
        o(c, m, mode, 1)
    for i in range(8):
        o(i << 4 | 7, "RMB%d" % i, "zp", 2)
        o(0x80 | i << 4 | 7, "SMB%d" % i, "zp", 2)
        o(i << 4 | 0xf, "BBR%d" % i, "zpr", 2)
        o(0x80 | i << 4 | 0xf, "BBS%d" % i, "zpr", 2)


_t()


class PortSpace(Space):
    """cells 0 and 1 are the direction and the data register of the port; the pins are low, so only
    the output bits of the data register read back"""

    def __init__(self, sp):
        Space.__init__(self, sp.name, sp.m)
        self.latch = self.latch0 = sp.m[1]
        sp.m[1] &= sp.m[0]

    def wr(self, a, v):
        if not self.log:
            self.latch0 = self.latch
        if a == 1:
            self.latch = v
        Space.wr(self, a, v & self.m[0] if a == 1 else v)
        if a == 0:
            Space.wr(self, 1, self.latch & v)

    def undo(self):
        if self.log:
            self.latch = self.latch0
        Space.undo(self)


class CPU:
    def __init__(self, m, cmos):
        self.m = m
        self.r = m.r
        self.s = m.s["rom"]
        self.pc = m.r["PC"]
        self.cmos = cmos

    def rd(self, a):
        return self.s.m[a & 0xffff]

    def wr(self, a, v):
        self.s.wr(a & 0xffff, v & 255)

    def f8(self):
        v = self.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def f16(self):
        v = self.f8()
        return v | self.f8() << 8

    def ea(self, mode):
        r = self.r
        if mode == "imm":
            self.pc = (self.pc + 1) & 0xffff
            return (self.pc - 1) & 0xffff
        if mode in ("zp", "zpr"):
            return self.f8()
        if mode == "zpx":
            return (self.f8() + r["X"]) & 255
        if mode == "zpy":
            return (self.f8() + r["Y"]) & 255
        if mode == "abs":
            return self.f16()
        if mode in ("abx", "aby"):
            b = self.f16()
            a = (b + r["X" if mode == "abx" else "Y"]) & 0xffff
            self.cross = int(a >> 8 != b >> 8)
            return a
        if mode == "izx":
            p = (self.f8() + r["X"]) & 255
            return self.rd(p) | self.rd((p + 1) & 255) << 8
        p = self.f8()
        a = self.rd(p) | self.rd((p + 1) & 255) << 8
        if mode == "izy":
            self.cross = int((a + r["Y"]) >> 8 != a >> 8)
            return (a + r["Y"]) & 0xffff
        assert mode == "izp", mode
        return a

    def nz(self, v):
        self.fl(N | Z, (v & N) | (Z if v == 0 else 0))

    def fl(self, mask, v):
        self.r["P"] = self.r["P"] & ~mask | v

    def push(self, v):
        self.wr(0x100 | self.r["SP"], v)
        self.r["SP"] = (self.r["SP"] - 1) & 255

    def pop(self):
        self.r["SP"] = (self.r["SP"] + 1) & 255
        return self.rd(0x100 | self.r["SP"])

    def adc(self, v):
        a, c = self.r["A"], self.r["P"] & C
        if self.r["P"] & D:
            if max(a & 15, a >> 4, v & 15, v >> 4) > 9:
                raise Skip()
            t = (a >> 4) * 10 + (a & 15) + (v >> 4) * 10 + (v & 15) + c
            self.fl(C, C if t > 99 else 0)
            t %= 100
            self.r["A"] = t // 10 << 4 | t % 10
            self.bcd()
            return
        t = a + v + c
        self.fl(C | V, (C if t > 255 else 0) | (V if ~(a ^ v) & (a ^ t) & 0x80 else 0))
        self.r["A"] = t & 255
        self.nz(t & 255)

    def bcd(self):
        if self.cmos:
            self.nz(self.r["A"])
            self.m.loose["P"] = V | 0x30
        else:
            self.m.loose["P"] = N | V | Z | 0x30

    def sbc(self, v):
        if self.r["P"] & D:
            a, c = self.r["A"], self.r["P"] & C
            if max(a & 15, a >> 4, v & 15, v >> 4) > 9:
                raise Skip()
            t = (a >> 4) * 10 + (a & 15) - (v >> 4) * 10 - (v & 15) - (1 - c)
            self.fl(C, C if t >= 0 else 0)
            t %= 100
            self.r["A"] = t // 10 << 4 | t % 10
            self.bcd()
            return
        self.adc(v ^ 255)

    def branch(self, cond):
        self.taken = cond
        e = self.f8()
        if cond:
            self.pc = (self.pc + (e - 256 if e > 127 else e)) & 0xffff

    def step(self):
        op = self.f8()
        r = self.r
        self.m.loose["P"] = 0x30
        if op not in OPS:
            raise Skip()
        m, mode, cpu = OPS[op]
        if cpu and not self.cmos or cpu == 2 and self.cmos < 2:
            raise Skip()
        self.cross = 0
        dec = r["P"] & D
        pc0 = self.pc
        self.do(op, m, mode)
        self.m.ticks = self.cycles(m, mode, dec, pc0)
        r["PC"] = self.pc
        return "%02X_%s" % (op, m)

    def cycles(self, m, mode, dec, pc0):
        """clock cycles by the data sheet"""
        if mode == "rel":
            nxt = (pc0 + 1) & 0xffff
            if not self.taken:
                return 2
            return 3 + ((nxt ^ self.pc) >> 8 != 0)
        if mode == "zpr":
            return None
        if mode == "imp":
            if m in ("BRK",):
                return 7
            if m in ("RTI", "RTS"):
                return 6
            return 3 if m[:2] == "PH" else 4 if m[:2] == "PL" else 2
        if m == "JMP":
            return {"abs": 3, "ind": 6 if self.cmos else 5, "iax": 6}[mode]
        if m == "JSR":
            return 6
        if mode == "acc":
            return 2
        rmw = m in ("ASL", "LSR", "ROL", "ROR", "INC", "DEC", "TRB", "TSB") or m[:3] in ("RMB", "SMB")
        if rmw:
            if mode == "abx" and self.cmos and m not in ("INC", "DEC"):
                return 6 + self.cross
            return {"zp": 5, "zpx": 6, "abs": 6, "abx": 7}[mode]
        n = {"imm": 2, "zp": 3, "zpx": 4, "zpy": 4, "abs": 4, "abx": 4, "aby": 4, "izx": 6, "izy": 5, "izp": 5}[mode]
        if m[:2] == "ST":
            return n + (1 if mode in ("abx", "aby", "izy") else 0)
        n += self.cross
        if self.cmos and dec and m in ("ADC", "SBC"):
            n += 1
        return n

    def do(self, op, m, mode):
        r = self.r
        p = r["P"]
        if mode == "rel":
            self.branch({"BPL": not p & N, "BMI": p & N, "BVC": not p & V, "BVS": p & V, "BCC": not p & C,
                         "BCS": p & C, "BNE": not p & Z, "BEQ": p & Z, "BRA": True}[m])
        elif mode == "zpr":
            v = self.rd(self.f8())
            self.branch(bool(v >> int(m[3]) & 1) == (m[2] == "S"))
        elif m[:3] in ("RMB", "SMB"):
            a = self.ea(mode)
            b = 1 << int(m[3])
            self.wr(a, self.rd(a) | b if m[0] == "S" else self.rd(a) & ~b)
        elif m == "JMP":
            if mode == "abs":
                self.pc = self.f16()
            else:
                a = self.f16()
                if mode == "iax":
                    a = (a + r["X"]) & 0xffff
                elif not self.cmos and a & 255 == 255:
                    raise Skip()    # (the bug of the NMOS type)
                self.pc = self.rd(a) | self.rd(a + 1) << 8
        elif m == "JSR":
            lo = self.f8()
            self.push(self.pc >> 8)
            self.push(self.pc)
            self.pc = lo | self.rd(self.pc) << 8
        elif m == "RTS":
            lo = self.pop()
            self.pc = ((lo | self.pop() << 8) + 1) & 0xffff
        elif m == "RTI":
            r["P"] = self.pop()
            lo = self.pop()
            self.pc = lo | self.pop() << 8
        elif m == "BRK":
            a = (self.pc + 1) & 0xffff
            self.push(a >> 8)
            self.push(a)
            self.push(p | 0x30)
            r["P"] = p | I
            if self.cmos:
                r["P"] &= ~D
            self.pc = self.rd(0xfffe) | self.rd(0xffff) << 8
        elif m == "PHP":
            self.push(p | 0x30)
        elif m == "PLP":
            r["P"] = self.pop()
        elif m[:2] == "PH":
            self.push(r[m[2]])
        elif m[:2] == "PL":
            r[m[2]] = self.pop()
            self.nz(r[m[2]])
        elif m in ("CLC", "SEC", "CLI", "SEI", "CLV", "CLD", "SED"):
            b = {"C": C, "I": I, "V": V, "D": D}[m[2]]
            self.fl(b, b if m[0] == "S" else 0)
        elif m in ("TAX", "TAY", "TXA", "TYA", "TSX", "TXS"):
            s = "SP" if m[1] == "S" else m[1]
            d = "SP" if m[2] == "S" else m[2]
            r[d] = r[s]
            if d != "SP":
                self.nz(r[d])
        elif m in ("INX", "INY", "DEX", "DEY"):
            r[m[2]] = (r[m[2]] + (1 if m[0] == "I" else -1)) & 255
            self.nz(r[m[2]])
        elif m == "NOP":
            pass
        elif m in ("ASL", "LSR", "ROL", "ROR", "INC", "DEC"):
            if mode == "acc":
                a, v = None, r["A"]
            else:
                a = self.ea(mode)
                v = self.rd(a)
            c = p & C
            if m == "INC":
                t = (v + 1) & 255
            elif m == "DEC":
                t = (v - 1) & 255
            else:
                if m[2] == "L":
                    t = (v << 1 | (c if m == "ROL" else 0)) & 255
                    co = v >> 7
                else:
                    t = v >> 1 | (c << 7 if m == "ROR" else 0)
                    co = v & 1
                self.fl(C, co)
            if a is None:
                r["A"] = t
            else:
                self.wr(a, t)
            self.nz(t)
        elif m in ("STA", "STX", "STY", "STZ"):
            a = self.ea(mode)
            self.wr(a, 0 if m == "STZ" else r[m[2]])
        elif m in ("TRB", "TSB"):
            a = self.ea(mode)
            v = self.rd(a)
            self.fl(Z, 0 if v & r["A"] else Z)
            self.wr(a, v & ~r["A"] if m == "TRB" else v | r["A"])
        else:
            a = self.ea(mode)
            v = self.rd(a)
            if m in ("LDA", "LDX", "LDY"):
                r[m[2]] = v
                self.nz(v)
            elif m in ("CMP", "CPX", "CPY"):
                t = r["A" if m == "CMP" else m[2]] - v
                self.fl(C, C if t >= 0 else 0)
                self.nz(t & 255)
            elif m == "BIT":
                if mode == "imm":
                    self.fl(Z, 0 if v & r["A"] else Z)
                else:
                    self.fl(Z | N | V, (0 if v & r["A"] else Z) | v & 0xc0)
            elif m == "ADC":
                self.adc(v)
            elif m == "SBC":
                self.sbc(v)
            else:
                r["A"] = {"ORA": r["A"] | v, "AND": r["A"] & v, "EOR": r["A"] ^ v}[m]
                self.nz(r["A"])


CODES = [sorted(c for c in OPS if OPS[c][2] <= k) for k in range(3)]
BCD = [0x00, 0x01, 0x09, 0x10, 0x49, 0x50, 0x51, 0x79, 0x80, 0x90, 0x99]


class M6502(ISACheck):
    sim = "mos6502"
    variants = [(["-t", "6502"], 0), (["-t", "65C02"], 1), (["-t", "65C02S"], 2),
                (["-t", "6510"], 0, True), (["-t", "8500"], 0, True), (["-t", "8502"], 0, True), (["-t", "7501"], 0),
                (["-t", "8501"], 0)]
    regs = [Reg(n) for n in ("A", "X", "Y", "P", "SP")]

    def gen_step(self, d, i):
        op = d.choice(CODES[self.variants[self.v][1]])
        code = [op, d.edge(8), d.edge(8)]
        pc = d.weighted([(30, 0x300), (30, None), (1, 0xfffe), (1, 0xfffd)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
        if OPS[op][0] in ("ADC", "SBC") and d.bool(0.5):
            b = [d.choice(BCD) if d.bool() else d.int(0, 9) << 4 | d.int(0, 9) for _ in range(2)]
            regs["P"] = D | (1 if d.bool() else 0)
            regs["A"] = b[0]
            if OPS[op][1] == "imm":
                code[1] = b[1]
        st = {"pc": pc, "code": code, "set": regs}
        if len(self.variants[self.v]) > 2 and d.bool(0.3):
            # the data direction and the data register of the port
            st["poke"] = [["rom", 0, [d.edge(8), d.edge(8)]]]
            if d.bool() and len(code) > 1:
                code[1] = d.below(2)
                code[2] = 0
        return st

    def execute(self, m):
        return CPU(m, self.variants[self.v][1]).step()

    def model_init(self, m):
        if len(self.variants[self.v]) > 2:
            m.s["rom"] = PortSpace(m.s["rom"])

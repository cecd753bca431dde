"""Reference model of the MCS-51 instruction set (8052: 256 bytes of internal RAM)."""
from .common import ISACheck, Reg, Skip

CY, AC, OV, P = 0x80, 0x40, 0x04, 0x01
SFR = {0x81: "SP", 0x82: "DPL", 0x83: "DPH", 0x90: "P1", 0xa0: "P2", 0xd0: "PSW", 0xe0: "ACC", 0xf0: "B"}
DIRS = sorted(SFR)
BITS = list(range(0x80)) + [0xd0 + i for i in (1, 2, 3, 4, 5, 6, 7)] + [0xe0 + i for i in range(8)] + \
    [0xf0 + i for i in range(8)] + [0x90 + i for i in range(8)]

# operands of the opcodes: d direct, b bit, i any byte, r relative
OPS = {}


def _ops():
    def put(ops, *codes):
        for c in codes:
            OPS[c] = ops
    for hi in range(8):
        put("i", hi << 5 | 1, hi << 5 | 0x11)
    put("ii", 0x02, 0x12, 0x90)
    put("bi", 0x10, 0x20, 0x30)
    put("i", 0x40, 0x50, 0x60, 0x70, 0x80)
    for h in (0x2, 0x3, 0x4, 0x5, 0x6, 0x9):
        put("i", h << 4 | 4)
        put("d", h << 4 | 5)
    put("d", 0x05, 0x15, 0x42, 0x52, 0x62, 0xc0, 0xd0, 0xc5, 0xe5, 0xf5)
    put("di", 0x43, 0x53, 0x63, 0x75, 0xb5, 0xd5)
    put("i", 0x74)
    put("b", 0x72, 0x82, 0xa0, 0xb0, 0x92, 0xa2, 0xb2, 0xc2, 0xd2)
    put("ii", 0xb4, *range(0xb6, 0xc0))
    put("dd", 0x85)
    put("i", *range(0x76, 0x80))
    put("d", *range(0x86, 0x90), *range(0xa6, 0xb0))
    put("i", *range(0xd8, 0xe0))


_ops()
CODES = [c for c in range(256) if c != 0xa5]
TWO = set([0x01 | h << 5 for h in range(8)] + [0x11 | h << 5 for h in range(8)] +
          [0x02, 0x12, 0x22, 0x32, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x73, 0x43, 0x53, 0x63,
           0x75, 0x85, 0x86, 0x87, 0x83, 0x93, 0x90, 0x92, 0xa3, 0x72, 0x82, 0xa0, 0xb0, 0xc0, 0xd0, 0xd5,
           0xe0, 0xe2, 0xe3, 0xf0, 0xf2, 0xf3] +
          list(range(0x88, 0x90)) + list(range(0xa6, 0xb0)) + list(range(0xb4, 0xc0)) +
          list(range(0xd8, 0xe0)))


class CPU:
    SFR = SFR

    def __init__(self, m):
        self.m = m
        self.r = m.r
        self.rom = m.s["rom"]
        self.iram = m.s["iram"]
        self.x = m.s["xram"]
        self.pc = m.r["PC"]
        self.over = False

    def f8(self):
        v = self.rom.rd(self.pc)
        self.pc = (self.pc + 1) & 0xffff
        return v

    def rel(self):
        v = self.f8()
        return v - 256 if v > 127 else v

    def jr(self, cond, e):
        if cond:
            self.pc = (self.pc + e) & 0xffff

    def d(self, a):
        if a < 0x80:
            return self.iram.rd(a)
        if a not in self.SFR:
            raise Skip()
        return self.r[self.SFR[a]]

    def wd(self, a, v):
        v &= 255
        if a < 0x80:
            self.iram.wr(a, v)
        elif a not in self.SFR:
            raise Skip()
        else:
            self.r[self.SFR[a]] = v

    def bit(self, b):
        if b < 0x80:
            return 0x20 + b // 8, 1 << (b & 7)
        return b & 0xf8, 1 << (b & 7)

    def gb(self, b):
        a, m = self.bit(b)
        return 1 if self.d(a) & m else 0

    def sb(self, b, v):
        a, m = self.bit(b)
        o = self.d(a)
        self.wd(a, o | m if v else o & ~m)

    def rn(self, n):
        return (self.r["PSW"] & 0x18) + n

    def dptr(self):
        return self.r["DPH"] << 8 | self.r["DPL"]

    def src(self, op):
        """operand of the ALU instructions, by the low nibble of the opcode"""
        n = op & 15
        if n == 4:
            return self.f8()
        return self.loc(op)[1]

    def loc(self, op):
        n = op & 15
        if n == 5:
            a = self.f8()
            return (lambda v: self.wd(a, v)), self.d(a)
        if n in (6, 7):
            a = self.iram.rd(self.rn(n - 6))
            return (lambda v: self.iram.wr(a, v & 255)), self.iram.rd(a)
        a = self.rn(n - 8)
        return (lambda v: self.iram.wr(a, v & 255)), self.iram.rd(a)

    def fl(self, c=None, ac=None, ov=None):
        p = self.r["PSW"]
        for v, m in ((c, CY), (ac, AC), (ov, OV)):
            if v is not None:
                p = p | m if v else p & ~m
        self.r["PSW"] = p

    def c(self):
        return 1 if self.r["PSW"] & CY else 0

    def push(self, v):
        self.over |= self.r["SP"] == 255
        self.r["SP"] = (self.r["SP"] + 1) & 255
        self.iram.wr(self.r["SP"], v & 255)

    def pop(self):
        v = self.iram.rd(self.r["SP"])
        self.r["SP"] = (self.r["SP"] - 1) & 255
        return v

    def call(self, a):
        self.push(self.pc)
        self.push(self.pc >> 8)
        self.pc = a

    def add(self, v, ci):
        a = self.r["ACC"]
        t = a + v + ci
        self.fl(t > 255, (a & 15) + (v & 15) + ci > 15, (~(a ^ v) & (a ^ t)) & 0x80)
        self.r["ACC"] = t & 255

    def step(self):
        op = self.f8()
        cyc = 2 if op in TWO else 4 if op in (0xa4, 0x84) else 1
        self.op(op)
        self.r["PC"] = self.pc
        self.r["PSW"] = self.r["PSW"] & 0xfe | (bin(self.r["ACC"]).count("1") & 1)
        # (an overflow of the stack is reported as an error)
        self.m.ticks = None if self.over else 12 * cyc
        return "%02X" % op

    def op(self, op):
        r = self.r
        n, h = op & 15, op >> 4
        if op == 0xa5:
            raise Skip()
        if op == 0:
            return
        if n == 1:
            a = (op & 0xe0) << 3 | self.f8()
            a |= self.pc & 0xf800
            if h & 1:
                self.call(a)
            else:
                self.pc = a
            return
        if op in (0x02, 0x12):
            a = self.f8() << 8
            a |= self.f8()
            if op == 2:
                self.pc = a
            else:
                self.call(a)
            return
        if op in (0x22, 0x32):
            hi = self.pop()
            self.pc = hi << 8 | self.pop()
            return
        if op in (0x03, 0x23):
            a = r["ACC"]
            r["ACC"] = (a >> 1 | a << 7) & 255 if op == 3 else (a << 1 | a >> 7) & 255
            return
        if op == 0x13:
            a = r["ACC"]
            r["ACC"] = a >> 1 | self.c() << 7
            self.fl(a & 1)
            return
        if op == 0x33:
            a = r["ACC"]
            r["ACC"] = (a << 1 | self.c()) & 255
            self.fl(a & 0x80)
            return
        if op in (0x04, 0x14):
            r["ACC"] = (r["ACC"] + (1 if op == 4 else -1)) & 255
            return
        if h in (0, 1) and n >= 5:
            w, v = self.loc(op)
            w(v + (1 if h == 0 else -1))
            return
        if op in (0x10, 0x20, 0x30):
            b = self.f8()
            e = self.rel()
            v = self.gb(b)
            if op == 0x30:
                self.jr(not v, e)
            else:
                if v and op == 0x10:
                    self.sb(b, 0)
                self.jr(v, e)
            return
        if n == 0 and 4 <= h <= 8:
            e = self.rel()
            self.jr([self.c(), not self.c(), r["ACC"] == 0, r["ACC"] != 0, True][h - 4], e)
            return
        if h in (2, 3) and n >= 4:
            self.add(self.src(op), self.c() if h == 3 else 0)
            return
        if h in (4, 5, 6) and n >= 4:
            v = self.src(op)
            a = r["ACC"]
            r["ACC"] = a | v if h == 4 else a & v if h == 5 else a ^ v
            return
        if h in (4, 5, 6) and n in (2, 3):
            a = self.f8()
            v = r["ACC"] if n == 2 else self.f8()
            o = self.d(a)
            self.wd(a, o | v if h == 4 else o & v if h == 5 else o ^ v)
            return
        if op in (0x72, 0x82, 0xa0, 0xb0):
            v = self.gb(self.f8())
            c = self.c()
            self.fl({0x72: c | v, 0x82: c & v, 0xa0: c | (1 - v), 0xb0: c & (1 - v)}[op])
            return
        if op == 0x73:
            self.pc = (self.dptr() + r["ACC"]) & 0xffff
            return
        if op == 0x74:
            r["ACC"] = self.f8()
            return
        if op == 0x75:
            a = self.f8()
            self.wd(a, self.f8())
            return
        if h == 7:
            if n in (6, 7):
                self.iram.wr(self.iram.rd(self.rn(n - 6)), self.f8())
            else:
                self.iram.wr(self.rn(n - 8), self.f8())
            return
        if op in (0x83, 0x93):
            a = self.pc if op == 0x83 else self.dptr()
            r["ACC"] = self.rom.rd((a + r["ACC"]) & 0xffff)
            return
        if op == 0x84:
            a, b = r["ACC"], r["B"]
            if b == 0:
                self.fl(0, None, 1)
                r["ACC"] = 0
                raise Skip()    # the result is undefined, and so is the parity
            self.fl(0, None, 0)
            r["ACC"], r["B"] = a // b, a % b
            return
        if op == 0xa4:
            t = r["ACC"] * r["B"]
            self.fl(0, None, t > 255)
            r["ACC"], r["B"] = t & 255, t >> 8
            return
        if op == 0x85:
            s = self.f8()
            v = self.d(s)
            self.wd(self.f8(), v)
            return
        if h == 8:
            v = self.loc(op)[1]
            self.wd(self.f8(), v)
            return
        if op == 0x90:
            r["DPH"] = self.f8()
            r["DPL"] = self.f8()
            return
        if op == 0x92:
            self.sb(self.f8(), self.c())
            return
        if h == 9 and n >= 4:
            v = self.src(op)
            a = r["ACC"]
            c = self.c()
            t = a - v - c
            self.fl(t < 0, (a & 15) - (v & 15) - c < 0, ((a ^ v) & (a ^ t)) & 0x80)
            r["ACC"] = t & 255
            return
        if op == 0xa2:
            self.fl(self.gb(self.f8()))
            return
        if op == 0xa3:
            t = (self.dptr() + 1) & 0xffff
            r["DPH"], r["DPL"] = t >> 8, t & 255
            return
        if h == 10:
            a = self.d(self.f8())
            if n in (6, 7):
                self.iram.wr(self.iram.rd(self.rn(n - 6)), a)
            else:
                self.iram.wr(self.rn(n - 8), a)
            return
        if op in (0xb2, 0xc2, 0xd2):
            b = self.f8()
            self.sb(b, 1 - self.gb(b) if op == 0xb2 else op == 0xd2)
            return
        if op in (0xb3, 0xc3, 0xd3):
            self.fl(1 - self.c() if op == 0xb3 else op == 0xd3)
            return
        if h == 11:
            if n == 4:
                a, b = r["ACC"], self.f8()
            elif n == 5:
                a, b = r["ACC"], self.d(self.f8())
            else:
                a = self.loc(op)[1]
                b = self.f8()
            e = self.rel()
            self.fl(a < b)
            self.jr(a != b, e)
            return
        if op == 0xc0:
            a = self.f8()
            if a == 0x81:
                raise Skip()
            self.push(self.d(a))
            return
        if op == 0xd0:
            a = self.f8()
            if a == 0x81:
                raise Skip()
            v = self.pop()
            self.wd(a, v)
            return
        if op == 0xc4:
            r["ACC"] = (r["ACC"] >> 4 | r["ACC"] << 4) & 255
            return
        if h == 12:
            w, v = self.loc(op)
            w(r["ACC"])
            r["ACC"] = v
            return
        if op == 0xd4:
            a, c = r["ACC"], self.c()
            if (a & 15) > 9 or r["PSW"] & AC:
                a += 6
                if a > 255:
                    c = 1
                    a &= 255
            if a > 0x9f or c:
                a += 0x60
                if a > 255:
                    c = 1
            r["ACC"] = a & 255
            self.fl(c)
            return
        if op in (0xd6, 0xd7):
            a = self.iram.rd(self.rn(n - 6))
            v = self.iram.rd(a)
            x = r["ACC"]
            self.iram.wr(a, v & 0xf0 | x & 15)
            r["ACC"] = x & 0xf0 | v & 15
            return
        if op == 0xd5:
            a = self.f8()
            e = self.rel()
            if a == 0xd0:
                raise Skip()
            v = (self.d(a) - 1) & 255
            self.wd(a, v)
            self.jr(v, e)
            return
        if h == 13:
            e = self.rel()
            a = self.rn(n - 8)
            v = (self.iram.rd(a) - 1) & 255
            self.iram.wr(a, v)
            self.jr(v, e)
            return
        if op in (0xe0, 0xe2, 0xe3, 0xf0, 0xf2, 0xf3):
            a = self.dptr() if n == 0 else r["P2"] << 8 | self.iram.rd(self.rn(n - 2))
            if h == 14:
                r["ACC"] = self.x.rd(a)
            else:
                self.x.wr(a, r["ACC"])
            return
        if op in (0xe4, 0xf4):
            r["ACC"] = 0 if op == 0xe4 else r["ACC"] ^ 255
            return
        if h == 14:
            if n == 5:
                a = self.f8()
                if a == 0xe0:
                    raise Skip()
                r["ACC"] = self.d(a)
            else:
                r["ACC"] = self.loc(op)[1]
            return
        if h == 15:
            self.loc(op)[0](r["ACC"])
            return
        raise AssertionError("%02x" % op)


class MCS51(ISACheck):
    sim = "s51"
    args = ["-t", "52"]
    regs = [Reg(n) for n in ("ACC", "B", "PSW", "SP", "DPL", "DPH", "P1", "P2")]
    spaces = {"rom": 65536, "iram": 256, "xram": 65536}
    loaded = ["rom", "iram", "xram"]

    def gen_step(self, d, i):
        op = d.choice(CODES)
        code = [op]
        for k in OPS.get(op, ""):
            if k == "i":
                code.append(d.edge(8))
            elif k == "d":
                code.append(d.weighted([(3, d.bits(7)), (1, d.int(0, 31)), (3, d.choice(DIRS))]))
            else:
                code.append(d.choice(BITS) if d.bool(0.7) else d.bits(7))
        pc = d.weighted([(30, 0x100), (30, None), (1, 0xfffe), (1, 0xfffd), (2, -1)])
        if pc is None:
            pc = d.bits(16)
        elif pc == -1:
            pc = (d.bits(5) << 11 | 0x7fe) & 0xffff
        regs = {}
        for g in self.regs:
            if d.bool(0.6):
                regs[g.name] = d.edge(g.bits)
        if "ACC" in regs and "PSW" not in regs:
            regs["PSW"] = d.edge(8)
        poke = []
        if d.bool(0.3):
            poke.append(["iram", d.int(0, 31), [d.edge(8)]])
        return {"pc": pc, "code": code, "set": regs, "poke": poke}

    def pre(self, m):
        m.r["PSW"] = m.r["PSW"] & 0xfe | (bin(m.r["ACC"]).count("1") & 1)

    def model_init(self, m):
        self.pre(m)

    def execute(self, m):
        return CPU(m).step()

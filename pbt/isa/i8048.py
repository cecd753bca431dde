"""Reference model of the Intel MCS-48 (8048, 8049, 8050 and 8021)."""
from .common import ISACheck, Reg, Skip

C, AC, F0, BS = 0x80, 0x40, 0x20, 0x10

# codes that start something which goes on after the instruction (timer, counter,
# interrupts), and codes that do not exist
NO = {0x01, 0x06, 0x0b, 0x22, 0x33, 0x38, 0x3b, 0x63, 0x66, 0x73, 0x82, 0x87, 0x8b, 0x9b,
      0xa2, 0xa6, 0xb7, 0xc0, 0xc1, 0xc2, 0xc3, 0xd6, 0xe0, 0xe1, 0xe2, 0xf3,
      0x05, 0x25, 0x45, 0x55}
# what the 8021 does not have
NO21 = NO | {0x02, 0x15, 0x35, 0x26, 0x36, 0x75, 0x76, 0x80, 0x81, 0x85, 0x86, 0x88, 0x89,
             0x8a, 0x91, 0x93, 0x94, 0x95, 0x98, 0x99, 0x9a, 0xa5, 0xb4, 0xb5, 0xb6, 0xc4,
             0xc5, 0xc7, 0xd4, 0xd5, 0xd7, 0xe3, 0xe4, 0xe5, 0xf4, 0xf5, 0x84, 0xa4,
             0x0a, 0x3a} | {0x12 + 0x20 * i for i in range(8)} | set(range(0xc8, 0xd0))
for _p in (0x0c, 0x3c, 0x8c, 0x9c):
    NO21 |= set(range(_p, _p + 4))

TWO = {0x02, 0x08, 0x09, 0x0a, 0x39, 0x3a, 0x90, 0x91, 0x80, 0x81, 0x83, 0x93, 0xa3, 0xe3, 0xb3,
       0x03, 0x13, 0x23, 0x43, 0x53, 0xd3, 0x88, 0x89, 0x8a, 0x98, 0x99, 0x9a, 0xb0, 0xb1}
for _p in (0x0c, 0x3c, 0x8c, 0x9c):
    TWO |= set(range(_p, _p + 4))
TWO |= set(range(0xb8, 0xc0)) | set(range(0xe8, 0xf0))
TWO |= {x for x in range(256) if x & 15 in (2, 6, 4) and x not in (0x42, 0x62)}
TWO -= {0x42, 0x62}


class CPU:
    def __init__(self, m, ram, is21):
        self.m = m
        self.r = m.r
        self.rom = m.s["rom"]
        self.ir = m.s["iram"]
        self.ram = ram
        self.is21 = is21
        self.pc = m.r["PC"]

    def fetch(self):
        v = self.rom.m[self.pc % len(self.rom.m)]
        self.pc = self.pc & 0x800 | (self.pc + 1) & 0x7ff
        return v

    def base(self):
        return 24 if self.r["psw"] & BS and not self.is21 else 0

    def gr(self, i):
        return self.ir.m[self.base() + i]

    def sr(self, i, v):
        self.ir.wr(self.base() + i, v & 255)

    def ind(self, i):
        a = self.gr(i)
        if a >= self.ram:
            raise Skip()
        return a

    def psw(self, v):
        self.r["psw"] = v | (0x18 if self.is21 else 8)

    def fl(self, mask, v):
        self.psw(self.r["psw"] & ~mask | (mask if v else 0))

    def jump(self, cond):
        a = self.fetch()
        if self.m.start & 0xff == 0xfe:
            raise Skip()                # which page, is told in two ways
        if cond:
            self.pc = self.pc & 0xf00 | a

    def push(self):
        r = self.r
        sp = r["psw"] & 7
        if sp == 7:
            raise Skip()
        self.ir.wr(8 + 2 * sp, self.pc & 255)
        self.ir.wr(9 + 2 * sp, self.pc >> 8 | (0 if self.is21 else r["psw"] & 0xf0))
        self.psw(r["psw"] & 0xf8 | (sp + 1) & 7)

    def pop(self, fl):
        sp = (self.r["psw"] - 1) & 7
        lo, hi = self.ir.m[8 + 2 * sp], self.ir.m[9 + 2 * sp]
        v = self.r["psw"] & 0xf8 | sp
        if fl:
            v = v & 0x0f | hi & 0xf0
        self.psw(v)
        self.pc = (hi & 15) << 8 | lo

    def add(self, v, c):
        a = self.r["A"]
        c = 1 if c and self.r["psw"] & C else 0
        self.fl(C, a + v + c > 255)
        self.fl(AC, (a & 15) + (v & 15) + c > 15)
        self.r["A"] = (a + v + c) & 255

    def step(self):
        op = self.fetch()
        if op in (NO21 if self.is21 else NO):
            raise Skip()
        if self.m.start & 0x7ff == 0x7ff and op in (0xa3, 0xe3, 0xb3):
            raise Skip()
        self.do(op)
        self.r["PC"] = self.pc
        if not self.is21:
            self.m.ticks = 10 if op in TWO else 5
        return "%02X" % op

    def p2lo(self):
        self.m.loose["P2"] = 0x0f

    def do(self, op):
        r = self.r
        a = r["A"]
        lo = op & 15
        i = op & 7
        if op & 0xfe in (0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0xa0, 0xb0, 0xd0, 0xf0):
            k = op & 1
            p = self.ind(k)
            v = self.ir.m[p]
            h = op >> 4
            if h == 1:
                self.ir.wr(p, (v + 1) & 255)
            elif h == 2:
                self.ir.wr(p, a)
                r["A"] = v
            elif h == 3:
                self.ir.wr(p, v & 0xf0 | a & 15)
                r["A"] = a & 0xf0 | v & 15
            elif h == 4:
                r["A"] = a | v
            elif h == 5:
                r["A"] = a & v
            elif h == 6:
                self.add(v, 0)
            elif h == 7:
                self.add(v, 1)
            elif h == 0xa:
                self.ir.wr(p, a)
            elif h == 0xb:
                self.ir.wr(p, self.fetch())
            elif h == 0xd:
                r["A"] = a ^ v
            else:
                r["A"] = v
        elif lo >= 8 and op >> 4 in (1, 2, 4, 5, 6, 7, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf):
            v = self.gr(i)
            h = op >> 4
            if h == 1:
                self.sr(i, v + 1)
            elif h == 2:
                self.sr(i, a)
                r["A"] = v
            elif h == 4:
                r["A"] = a | v
            elif h == 5:
                r["A"] = a & v
            elif h == 6:
                self.add(v, 0)
            elif h == 7:
                self.add(v, 1)
            elif h == 0xa:
                self.sr(i, a)
            elif h == 0xb:
                self.sr(i, self.fetch())
            elif h == 0xc:
                self.sr(i, v - 1)
            elif h == 0xd:
                r["A"] = a ^ v
            elif h == 0xe:
                self.sr(i, v - 1)
                self.jump((v - 1) & 255)
            else:
                r["A"] = v
        elif lo == 4:
            t = (op & 0xe0) << 3 | self.fetch()
            if not self.is21 and r["DBF"]:
                t |= 0x800
            if op & 0x10:
                self.push()
            self.pc = t
        elif lo == 2 and op & 0x10:
            self.jump(a >> (op >> 5) & 1)
        elif op == 0x00 or op in (0x15, 0x35, 0x65, 0x75):
            pass
        elif op == 0x02:
            r["BO"] = a
        elif op == 0x08:
            if self.is21:
                r["A"] = r["P0"] & r["P0in"]
            else:
                r["A"] = r["BI"]
        elif op in (0x09, 0x0a):
            r["A"] = r["P%d" % (op & 3)] & r["P%din" % (op & 3)]
        elif op in (0x39, 0x3a):
            r["P%d" % (op & 3)] = a
        elif op == 0x90 and self.is21:
            r["P0"] = a
        elif op in (0x89, 0x8a):
            r["P%d" % (op & 3)] |= self.fetch()
        elif op in (0x99, 0x9a):
            r["P%d" % (op & 3)] &= self.fetch()
        elif op == 0x88:
            r["BO"] |= self.fetch()
        elif op == 0x98:
            r["BO"] &= self.fetch()
        elif 0x0c <= op <= 0x0f:
            r["A"] = r["E%din" % (i)]
            r["E%ddir" % i] = 0
            self.p2lo()
        elif op in range(0x3c, 0x40) or op in range(0x8c, 0x90) or op in range(0x9c, 0xa0):
            o = r["E%d" % i]
            v = a & 15
            r["E%d" % i] = v if op < 0x40 else v | o if op < 0x90 else v & o
            r["E%ddir" % i] = 15
            self.p2lo()
        elif op in (0x03, 0x13):
            self.add(self.fetch(), op & 0x10)
        elif op == 0x23:
            r["A"] = self.fetch()
        elif op == 0x43:
            r["A"] = a | self.fetch()
        elif op == 0x53:
            r["A"] = a & self.fetch()
        elif op == 0xd3:
            r["A"] = a ^ self.fetch()
        elif op == 0x07:
            r["A"] = (a - 1) & 255
        elif op == 0x17:
            r["A"] = (a + 1) & 255
        elif op == 0x27:
            r["A"] = 0
        elif op == 0x37:
            r["A"] = a ^ 255
        elif op == 0x47:
            r["A"] = a >> 4 | (a & 15) << 4
        elif op == 0x57:
            t, c = a, r["psw"] & C
            if t & 15 > 9 or r["psw"] & AC:
                t += 6
            if t > 255:
                c = 1
            t &= 255
            if t >> 4 > 9 or c:
                t += 0x60
                c = 1
            r["A"] = t & 255
            self.fl(C, c)
        elif op == 0x67:
            r["A"] = a >> 1 | r["psw"] & C
            self.fl(C, a & 1)
        elif op == 0x77:
            r["A"] = a >> 1 | (a & 1) << 7
        elif op == 0xe7:
            r["A"] = (a << 1 | a >> 7) & 255
        elif op == 0xf7:
            r["A"] = (a << 1 | r["psw"] >> 7) & 255
            self.fl(C, a & 0x80)
        elif op == 0x97:
            self.fl(C, 0)
        elif op == 0xa7:
            self.fl(C, not r["psw"] & C)
        elif op == 0x85:
            self.fl(F0, 0)
        elif op == 0x95:
            self.fl(F0, not r["psw"] & F0)
        elif op == 0xa5:
            r["F1"] = 0
        elif op == 0xb5:
            r["F1"] ^= 1
        elif op == 0xc5:
            self.fl(BS, 0)
        elif op == 0xd5:
            self.fl(BS, 1)
        elif op == 0xe5:
            r["DBF"] = 0
        elif op == 0xf5:
            r["DBF"] = 1
        elif op == 0xc7:
            r["A"] = r["psw"]
        elif op == 0xd7:
            self.psw(a)
        elif op == 0x42:
            r["A"] = r["T"]
        elif op == 0x62:
            r["T"] = a
        elif op == 0x16:
            t = r["TF"]
            r["TF"] = 0
            self.jump(t)
        elif op == 0x26:
            self.jump(not r["T0"])
        elif op == 0x36:
            self.jump(r["T0"])
        elif op == 0x46:
            self.jump(not r["T1"])
        elif op == 0x56:
            self.jump(r["T1"])
        elif op == 0x76:
            self.jump(r["F1"])
        elif op == 0xb6:
            self.jump(r["psw"] & F0)
        elif op == 0x86:
            self.jump(not r["INT"])
        elif op == 0x96:
            self.jump(a)
        elif op == 0xc6:
            self.jump(not a)
        elif op == 0xe6:
            self.jump(not r["psw"] & C)
        elif op == 0xf6:
            self.jump(r["psw"] & C)
        elif op in (0x80, 0x81):
            r["A"] = self.m.s["xram"].rd(self.gr(op & 1))
            self.m.loose["BO"] = 255
        elif op in (0x90, 0x91):
            self.m.s["xram"].wr(self.gr(op & 1), a)
            self.m.loose["BO"] = 255
        elif op == 0x83:
            self.pop(0)
        elif op == 0x93:
            self.pop(1)
        elif op == 0xa3:
            r["A"] = self.rom.rd(self.pc & 0xf00 | a)
        elif op == 0xe3:
            if self.pc & 0x800:
                raise Skip()
            r["A"] = self.rom.rd(0x300 | a)
        elif op == 0xb3:
            self.pc = self.pc & 0xf00 | self.rom.rd(self.pc & 0xf00 | a)
        else:
            raise Skip()


OPS48 = [x for x in range(256) if x not in NO]
OPS21 = [x for x in range(256) if x not in NO21]
COMMON = [Reg("A", 8, "ACC"), Reg("psw"), Reg("T", 8, "timer0"), Reg("TF", 1, "timer0_flag"),
          Reg("T1", 1), Reg("P1", 8, "port1_odr"), Reg("P1in", 8, "port1_pin")]
R21 = COMMON + [Reg("P0", 8, "port0_odr"), Reg("P0in", 8, "port0_pin")]
R48 = COMMON + [Reg("F1", 1), Reg("DBF", 1), Reg("T0", 1), Reg("INT", 1),
                Reg("P2", 8, "port2_odr"), Reg("P2in", 8, "port2_pin"),
                Reg("BI", 8, "bus0_in"), Reg("BO", 8, "bus0_out")]
for _i in range(4, 8):
    R48 += [Reg("E%d" % _i, 4, "pext0_odr%d" % _i), Reg("E%din" % _i, 4, "pext0_pin%d" % _i),
            Reg("E%ddir" % _i, 4, "pext0_dir%d" % _i, False)]
BCD = [0x00, 0x01, 0x09, 0x10, 0x49, 0x50, 0x51, 0x79, 0x80, 0x90, 0x99]


class I8048(ISACheck):
    sim = "i8048"
    variants = [(["-t", "I8050"], (4096, 256)), (["-t", "I8049"], (2048, 128)),
                (["-t", "I8048"], (1024, 64)), (["-t", "I8021"], (1024, 64))]
    pcbits = 12
    loaded = ["rom", "iram", "xram"]

    @property
    def is21(self):
        return self.v == 3

    @property
    def regs(self):
        return R21 if self.is21 else R48

    @property
    def spaces(self):
        rom, ram = self.variants[self.v][1]
        return {"rom": rom, "iram": ram, "xram": 256}

    def regmask(self, k):
        if k == "PC":
            return 0xfff
        return next((g.mask for g in self.regs if g.name == k), -1)

    def regvar(self, k):
        return next((g.var for g in self.regs if g.name == k), k)

    def model_init(self, m):
        self.pre(m)
        for i in range(4, 8):
            m.r["E%ddir" % i] = 0

    def pre(self, m):
        m.r["psw"] |= 0x18 if self.is21 else 8

    def gen_step(self, d, i):
        rom, ram = self.variants[self.v][1]
        op = d.choice(OPS21 if self.is21 else OPS48)
        code = [op, d.edge(8)]
        if op & 15 == 4 and rom < 2048:
            code[0] = op & 0x1f | (op & 0x60)
            if self.is21 and code[0] not in OPS21:
                code[0] = 4
        pc = d.weighted([(30, 0x123), (30, None), (2, rom - 2), (1, 0x7ff), (1, 0x2ff)])
        if pc is None or pc >= rom:
            pc = d.below(rom - 2)
        regs = {}
        for g in self.regs:
            if g.settable and d.bool(0.25 if g.name not in ("A", "psw") else 0.6):
                regs[g.name] = d.edge(g.bits)
        if op == 0x57 and d.bool(0.7):
            x, y = d.choice(BCD), d.int(0, 9) << 4 | d.int(0, 9)
            t = x + y
            regs["A"] = t & 255
            regs["psw"] = (C if t > 255 else 0) | (AC if (x & 15) + (y & 15) > 15 else 0)
        poke = []
        if op & 0xfe in (0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0xa0, 0xb0, 0xd0, 0xf0) \
                or op & 0xfe in (0x80, 0x90) or d.bool(0.1):
            poke.append(["iram", (op & 1) + (0 if d.bool(0.6) or self.is21 else 24), [d.below(ram)]])
        if op & 0xf8 == 0xe8 and d.bool(0.6):
            poke.append(["iram", (op & 7) + (0 if d.bool(0.6) or self.is21 else 24),
                         [d.choice([1, 1, 2, 0, 255])]])
        st = {"pc": pc, "code": code, "set": regs}
        if poke:
            st["poke"] = poke
        return st

    def execute(self, m):
        rom, ram = self.variants[self.v][1]
        if m.r["PC"] >= rom - 2 and rom < 4096:     # (the bus tells addresses of outer memory)
            raise Skip()
        n = CPU(m, ram, self.is21).step()
        if m.r["PC"] >= rom:
            raise Skip()
        return n

"""Padauk PDK13, PDK14 and PDK15 cores, written from the instruction tables of the
PMS150C, PFS154 and PMS171 data sheets."""
from .common import ISACheck, Reg, Skip

Z, C, AC, OV = 1, 2, 4, 8
#        PDK13   PDK14   PDK15   operands
TBL = {
    "nop": (0, 0, 0, ""),
    "ret k": (0x100, 0x200, 0x200, "k"), "ret": (0x3a, 0x7a, 0x7a, ""),
    "mov a,k": (0x1700, 0x2f00, 0x5700, "k"),
    "mov io,a": (0x80, 0x180, 0x100, "i"), "mov a,io": (0xa0, 0x1c0, 0x180, "i"),
    "mov m,a": (0x5c0, 0xb80, 0x1700, "m"), "mov a,m": (0x7c0, 0xf80, 0x1f00, "m"),
    "ldt16": (0xc1, 0x301, 0x601, "M"), "stt16": (0xc0, 0x300, 0x600, "M"),
    "idxm a,m": (0xe1, 0x381, 0x701, "M"), "idxm m,a": (0xe0, 0x380, 0x700, "M"),
    "xch m": (0x9c0, 0x1380, 0x2700, "m"),
    "pushaf": (0x32, 0x72, 0x72, ""), "popaf": (0x33, 0x73, 0x73, ""),
    "add a,k": (0x1000, 0x2800, 0x5000, "k"), "add a,m": (0x600, 0xc00, 0x1800, "m"),
    "add m,a": (0x400, 0x800, 0x1000, "m"),
    "sub a,k": (0x1100, 0x2900, 0x5100, "k"), "sub a,m": (0x640, 0xc80, 0x1900, "m"),
    "sub m,a": (0x440, 0x880, 0x1100, "m"),
    "addc a,m": (0x680, 0xd00, 0x1a00, "m"), "addc m,a": (0x480, 0x900, 0x1200, "m"),
    "addc a": (0x10, 0x60, 0x60, ""), "addc m": (0x800, 0x1000, 0x2000, "m"),
    "subc a,m": (0x6c0, 0xd80, 0x1b00, "m"), "subc m,a": (0x4c0, 0x980, 0x1300, "m"),
    "subc a": (0x11, 0x61, 0x61, ""), "subc m": (0x840, 0x1080, 0x2100, "m"),
    "inc m": (0x900, 0x1200, 0x2400, "m"), "dec m": (0x940, 0x1280, 0x2500, "m"),
    "clear m": (0x980, 0x1300, 0x2600, "m"),
    "sr a": (0x1a, 0x6a, 0x6a, ""), "sr m": (0xa80, 0x1500, 0x2a00, "m"),
    "sl a": (0x1b, 0x6b, 0x6b, ""), "sl m": (0xac0, 0x1580, 0x2b00, "m"),
    "src a": (0x1c, 0x6c, 0x6c, ""), "src m": (0xb00, 0x1600, 0x2c00, "m"),
    "slc a": (0x1d, 0x6d, 0x6d, ""), "slc m": (0xb40, 0x1680, 0x2d00, "m"),
    "and a,k": (0x1400, 0x2c00, 0x5400, "k"), "and a,m": (0x700, 0xe00, 0x1c00, "m"),
    "and m,a": (0x500, 0xa00, 0x1400, "m"),
    "or a,k": (0x1500, 0x2d00, 0x5500, "k"), "or a,m": (0x740, 0xe80, 0x1d00, "m"),
    "or m,a": (0x540, 0xa80, 0x1500, "m"),
    "xor a,k": (0x1600, 0x2e00, 0x5600, "k"), "xor a,m": (0x780, 0xf00, 0x1e00, "m"),
    "xor m,a": (0x580, 0xb00, 0x1600, "m"), "xor io,a": (0x60, 0xc0, 0x80, "i"),
    "not a": (0x18, 0x68, 0x68, ""), "not m": (0xa00, 0x1400, 0x2800, "m"),
    "neg a": (0x19, 0x69, 0x69, ""), "neg m": (0xa40, 0x1480, 0x2900, "m"),
    "set0 io": (0xe00, 0x1c00, 0x3800, "b"), "set0 m": (0x300, 0x2400, 0x4800, "B"),
    "set1 io": (0xf00, 0x1e00, 0x3c00, "b"), "set1 m": (0x310, 0x2600, 0x4c00, "B"),
    "t0sn io": (0xc00, 0x1800, 0x3000, "b"), "t0sn m": (0x200, 0x2000, 0x4000, "B"),
    "t1sn io": (0xd00, 0x1a00, 0x3400, "b"), "t1sn m": (0x210, 0x2200, 0x4400, "B"),
    "ceqsn a,k": (0x1200, 0x2a00, 0x5200, "k"), "ceqsn a,m": (0xb80, 0x1700, 0x2e00, "m"),
    "cneqsn a,k": (0x1300, 0x2b00, 0x5300, "k"), "cneqsn a,m": (0xbc0, 0x1780, 0x2f00, "m"),
    "izsn a": (0x12, 0x62, 0x62, ""), "izsn m": (0x880, 0x1100, 0x2200, "m"),
    "dzsn a": (0x13, 0x63, 0x63, ""), "dzsn m": (0x8c0, 0x1180, 0x2300, "m"),
    "call": (0x1c00, 0x3800, 0x7000, "a"), "goto": (0x1800, 0x3000, 0x6000, "a"),
    "comp a,m": (None, 0x600, 0xc00, "m"), "comp m,a": (None, 0x680, 0xd00, "m"),
    "nadd a,m": (None, 0x700, 0xe00, "m"), "nadd m,a": (None, 0x780, 0xf00, "m"),
    "swap": (0x1e, 0x6e, 0x6e, ""), "pcadd": (0x17, 0x67, 0x67, ""),
    "swapc io": (None, 0x400, 0x5c00, "b"), "mul": (0x3c, 0x7c, 0x7c, ""),
}
WID = {"k": (8, 8, 8), "i": (5, 6, 7), "m": (6, 7, 8), "M": (5, 7, 8), "b": (8, 9, 10),
       "B": (8, 9, 10), "a": (10, 11, 12), "": (0, 0, 0)}
IOS = [0, 2, 4, 7, 8, 0xb, 0xd, 0x10, 0x15, 0x1e, 0x1f, 0x2a, 0x3f, 0x40, 0x7f]


class CPU:
    def __init__(self, m, v):
        self.m, self.r, self.v = m, m.r, v
        self.ram = m.s["ram"]

    def dec(self, w):
        for n, t in TBL.items():
            b, k = t[self.v], t[3]
            if b is None:
                continue
            wd = WID[k][self.v]
            mask = (1 << wd) - 1
            if k == "M":
                mask &= ~1
            if k == "B" and self.v == 0:
                mask &= ~0x10
            if w & ~mask == b:
                return n, k, w & mask
        raise Skip()

    # operands
    def io(self, a):
        r = self.r
        if a == 0:
            return r["F"]
        if a == 2:
            return r["SP"]
        k = "io%x" % a
        if k not in r:
            raise Skip()
        return r[k]

    def wio(self, a, x):
        if a == 0:
            if x > 15:
                raise Skip()
            self.r["F"] = x
        elif a == 2:
            self.r["SP"] = x
        else:
            self.io(a)
            self.r["io%x" % a] = x

    def flags(self, f, mask=15):
        self.r["F"] = self.r["F"] & ~mask | f & mask

    def add(self, x, y, c=0):
        t = x + y + c
        f = (C if t > 255 else 0) | (Z if not t & 255 else 0)
        if (x & 15) + (y & 15) + c > 15:
            f |= AC
        if ~(x ^ y) & (x ^ t) & 0x80:
            f |= OV
        self.flags(f)
        return t & 255

    def sub(self, x, y, c=0):
        t = x - y - c
        f = (C if t < 0 else 0) | (Z if not t & 255 else 0)
        if (x & 15) - (y & 15) - c < 0:
            f |= AC
        if (x ^ y) & (x ^ t) & 0x80:
            f |= OV
        self.flags(f)
        return t & 255

    def z(self, x):
        x &= 255
        self.flags(Z if not x else 0, Z)
        return x

    def step(self):
        r, ram = self.r, self.ram
        w = self.m.s["rom"].rd(r["PC"])
        name, k, x = self.dec(w)
        pc0 = r["PC"]
        pc = pc0 + 1
        op, _, form = name.partition(" ")
        A = r["A"]
        c = r["F"] >> 1 & 1

        def pop16():
            if not 2 <= r["SP"]:
                raise Skip()
            r["SP"] -= 2
            t = ram.rd(r["SP"]) | ram.rd(r["SP"] + 1) << 8
            if t >= (1 << WID["a"][self.v]):
                raise Skip()
            return t

        def push(lo, hi):
            if r["SP"] > 253:
                raise Skip()
            ram.wr(r["SP"], lo)
            ram.wr(r["SP"] + 1, hi)
            r["SP"] += 2

        # two operand instructions
        if form in ("a,k", "a,m", "m,a"):
            mem = None if form == "a,k" else x
            v = x if form == "a,k" else None
            if op == "idxm":
                p = ram.rd(x)
                if form == "a,m":
                    r["A"] = ram.rd(p)
                else:
                    ram.wr(p, A)
            elif op == "mov":
                if form == "m,a":
                    ram.wr(x, A)
                elif form == "a,k":
                    r["A"] = x
                else:
                    r["A"] = ram.rd(x)
                    # the data sheets tell Z affected in this form
                    self.m.loose["F"] = Z
            else:
                if v is None:
                    v = ram.rd(mem)
                dst, src = (v, A) if form == "m,a" else (A, v)
                skip = False
                keep = False
                if op == "add":
                    t = self.add(dst, src)
                elif op == "addc":
                    t = self.add(dst, src, c)
                elif op == "sub":
                    t = self.sub(dst, src)
                elif op == "subc":
                    t = self.sub(dst, src, c)
                elif op == "nadd":
                    t = self.add(-dst & 255, src)
                    self.m.loose["F"] = C | OV | AC
                elif op == "comp":
                    self.sub(dst, src)
                    keep = True
                elif op in ("ceqsn", "cneqsn"):
                    self.sub(dst, src)
                    keep = True
                    skip = (dst == src) == (op == "ceqsn")
                elif op == "and":
                    t = self.z(dst & src)
                elif op == "or":
                    t = self.z(dst | src)
                else:
                    t = self.z(dst ^ src)
                if skip:
                    pc += 1
                if not keep:
                    if form == "m,a":
                        ram.wr(mem, t)
                    else:
                        r["A"] = t
        elif op in ("t0sn", "t1sn", "set0", "set1", "swapc"):
            pos = (5, 6, 7)[self.v]
            bit = 1 << (x >> pos & 7)
            a = x & ((1 << pos) - 1)
            if k == "B" and self.v == 0:
                a &= 15
            v = self.io(a) if k == "b" else ram.rd(a)
            t = None
            if op == "t0sn":
                pc += not v & bit
            elif op == "t1sn":
                pc += bool(v & bit)
            elif op == "set0":
                t = v & ~bit
            elif op == "set1":
                t = v | bit
            else:
                if a == 0:
                    raise Skip()
                t = v | bit if c else v & ~bit
                self.flags(C if v & bit else 0, C)
            if t is not None:
                self.wio(a, t) if k == "b" else ram.wr(a, t)
        elif form in ("a", "m") and op not in ("xch", "clear"):
            v = A if form == "a" else ram.rd(x)
            if op == "addc":
                t = self.add(v, 0, c)
            elif op == "subc":
                t = self.sub(v, 0, c)
            elif op in ("inc", "izsn"):
                t = self.add(v, 1)
            elif op in ("dec", "dzsn"):
                t = self.sub(v, 1)
            elif op == "sr":
                t = v >> 1
                self.flags(v << 1, C)
            elif op == "src":
                t = v >> 1 | c << 7
                self.flags(v << 1, C)
            elif op == "sl":
                t = v << 1 & 255
                self.flags(v >> 6, C)
            elif op == "slc":
                t = v << 1 & 255 | c
                self.flags(v >> 6, C)
            elif op == "not":
                t = self.z(~v)
            else:
                t = self.z(-v)
            if op in ("izsn", "dzsn") and t == 0:
                pc += 1
            if form == "a":
                r["A"] = t
            else:
                ram.wr(x, t)
        elif name == "mov io,a":
            self.wio(x, A)
        elif name == "mov a,io":
            r["A"] = self.io(x)
            self.m.loose["F"] = Z
        elif name == "xor io,a":
            self.wio(x, A ^ self.io(x))
        elif op == "xch":
            r["A"] = ram.rd(x)
            ram.wr(x, A)
        elif op == "clear":
            ram.wr(x, 0)
        elif op == "swap":
            r["A"] = (A << 4 | A >> 4) & 255
        elif op == "mul":
            t = A * r["io8"]
            r["A"], r["io9"] = t & 255, t >> 8
        elif op == "ret":
            pc = pop16()
            if k:
                r["A"] = x
        elif op == "call":
            push(pc & 255, pc >> 8)
            pc = x
        elif op == "goto":
            pc = x
        elif op == "pcadd":
            pc = pc - 1 + A
        elif op == "pushaf":
            push(A, r["F"])
        elif op == "popaf":
            if r["SP"] < 2:
                raise Skip()
            f = ram.rd(r["SP"] - 1)
            if f > 15:
                raise Skip()
            r["F"] = f
            r["A"] = ram.rd(r["SP"] - 2)
            r["SP"] -= 2
        elif op == "stt16":
            self.m.t16 = ram.rd(x) | ram.rd(x + 1) << 8
        elif op == "ldt16":
            if self.m.t16 is None:
                raise Skip()
            ram.wr(x, self.m.t16 & 255)
            ram.wr(x + 1, self.m.t16 >> 8)
        if pc >= 1 << WID["a"][self.v]:
            raise Skip()
        r["PC"] = pc
        # returns, pcadd and taken skips are left out: the simulator does not count their second cycle
        if op in ("call", "goto", "idxm"):
            self.m.ticks = 2
        elif op not in ("ret", "reti", "pcadd") and pc == pc0 + 1:
            self.m.ticks = 1
        return name.replace(" ", "_")


class PDK(ISACheck):
    sim = "pdk"
    variants = [(["-t", "PDK13"], 0), (["-t", "PDK14"], 1), (["-t", "PDK15"], 2)]
    pcbits = 13
    spaces = {"rom": 0x2000, "ram": 0x200}
    cellbits = {"rom": 16}
    loaded = ["ram"]
    regs = [Reg("A"), Reg("F", 4), Reg("SP")] + \
        [Reg("io%x" % a, 8, "regs8[%d]" % a) for a in IOS if a not in (0, 2)] + \
        [Reg("io9", 8, "regs8[9]", set=False)]
    prologue = ["expr /n regs8[6]=0"]

    def image(self, name, ms):
        if name == "rom":
            return [0] * self.spaces[name]
        return super().image(name, ms)

    def model_init(self, m):
        m.t16 = None
        m.r["io9"] = 0

    def pre(self, m):
        pass

    def gen_step(self, d, i):
        v = self.v
        n = d.choice([x for x in TBL if TBL[x][v] is not None])
        b, k = TBL[n][v], TBL[n][3]
        wd = WID[k][v]
        io = [a for a in IOS if a < (32, 64, 128)[v]]
        x = 0
        if k == "i":
            x = d.choice(io)
        elif k == "b":
            x = d.choice(io) | d.below(8) << (5, 6, 7)[v]
        elif k:
            x = d.edge(wd)
        if k == "M":
            x &= ~1
        if k == "B" and v == 0:
            x &= ~0x10
        top = 1 << WID["a"][v]
        pc = d.choice([0x123, d.below(top - 4), d.below(top - 4), 0xff])
        regs = {}
        for g in self.regs:
            if g.settable and d.bool(0.6 if g.name in ("A", "F", "SP") else 0.15):
                regs[g.name] = d.edge(g.bits)
        if "SP" in regs:
            regs["SP"] &= 0xfe
        st = {"pc": pc, "code": [b | x], "set": regs}
        poke = []
        if n.startswith("ret") or n == "popaf":
            sp = d.int(1, 120) * 2
            regs["SP"] = sp
            poke.append(["ram", sp - 2, [d.edge(8), d.below(top >> 8 if n != "popaf" else 16)]])
        if k == "m" and d.bool(0.3):
            p = d.edge(8)
            poke.append(["ram", x, [p]])
            if d.bool():
                regs["A"] = (p + d.choice([0, 0, 1, -1])) & 255
        if k == "k" and d.bool(0.3):
            regs["A"] = (x + d.choice([0, 0, 1, -1])) & 255
        if n.startswith("idxm"):
            poke.append(["ram", x, [d.edge(8)]])
        if n == "ldt16" and d.bool(0.3):
            st["code"] = [TBL["stt16"][v] | x]
        if poke:
            st["poke"] = poke
        return st

    def execute(self, m):
        return CPU(m, self.v).step()

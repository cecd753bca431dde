"""Reference model of the one instruction computers (OISC, URISC, MISC16, EM):
every instruction moves one word, the memory map of docs in oisc.src says what
the special addresses do."""
from .common import ISACheck, Reg, Skip

A, F, CY, P = Reg("A", 16), Reg("F", 4), Reg("C", 1), Reg("P", 16)
FO, FN, FC, FZ = 8, 4, 2, 1


class OISC(ISACheck):
    sim = "oisc"
    variants = [(["-t", "URISC"], "u"), (["-t", "MISC16"], "m"), (["-t", "EM"], "e"), (["-t", "OISC"], "o")]
    REGS = {"u": [A, F], "m": [A, CY], "e": [A, CY, P], "o": [A]}
    regs = [A]
    spaces = {"rom": 0x10000}
    cellbits = {"rom": 16}
    loaded = []
    filled = ["rom"]
    ROMLO, ROMHI = 0x10, 0x30f
    n_quick = 2000

    @property
    def kind(self):
        return self.variants[self.v][1]

    def gen(self, d):
        n = d.int(1, self.steps_max)
        case = {"mem": d.bits(16), "v": d.below(len(self.variants))}
        self.sel(case["v"])
        case["steps"] = [self.gen_step(d, i) for i in range(n)]
        return case

    def sel(self, v):
        self.v = v
        self.regs = self.REGS[self.kind]
        self._rm = {g.name: g.mask for g in self.regs}
        self._rm["PC"] = 0xffff
        self._rv = {g.name: g.var for g in self.regs}
        self.prologue = ["fill rom 0x10 %#x 0" % (0xffff if self.kind == "o" else 0xffef)]

    def run(self, case):
        self.sel(case["v"])
        return super().run(case)

    def image(self, name, ms):
        img = super().image(name, ms)
        return [v if self.ROMLO <= i <= self.ROMHI else 0 for i, v in enumerate(img)]

    def load_lines(self, name, img):
        return ["set mem %s %d %s" % (name, a, " ".join(str(x) for x in img[a:a + 64]))
                for a in range(self.ROMLO, self.ROMHI + 1, 64)]

    def special(self, a):
        k = self.kind
        if k == "o":
            return False
        if k == "u":
            return 0xfff0 <= a <= 0xfff7 or a == 0xffff
        return a < 16 or a >= 0xfff0

    def readable(self, n, a):
        return not self.special(a) and (self.kind == "o" or 16 <= a < 0xfff0)

    def addr(self, d):
        k = d.below(10)
        if k < 4 and self.kind != "o":
            return d.choice([0xfff0 + i for i in range(8)] * 2 + [0xffff]) if self.kind == "u" else d.below(16)
        if k < 8:
            return self.ROMLO + d.below(self.ROMHI - self.ROMLO)
        a = d.bits(16)
        return a if k == 8 or self.kind == "o" else min(max(a, 16), 0xffef)

    def gen_step(self, d, i):
        src, dst = self.addr(d), self.addr(d)
        pc = d.weighted([(30, 0x120), (10, None), (1, 0xffee)])
        if pc is None:
            pc = 16 + d.below(0xffee - 16)
        regs, poke = {}, []
        for g in self.regs:
            if d.bool(0.5):
                regs[g.name] = self.addr(d) if g.bits == 16 and d.bool(0.4) else d.edge(g.bits)
        if self.readable("rom", src) and d.bool(0.6):
            v = d.edge(16)
            if d.bool(0.2):
                v = regs.get("A", 0) if d.bool() else -regs.get("A", 0) & 0xffff
            poke.append(["rom", src, [v]])
        return {"pc": pc, "code": [src, dst], "set": regs, "poke": poke}

    def execute(self, m):
        self.m = m
        r, s = m.r, m.s["rom"]
        pc = r["PC"]
        self.depth = 0
        if self.special(pc) or self.special(pc + 1 & 0xffff):
            raise Skip()
        src, dst = s.m[pc], s.m[pc + 1 & 0xffff]
        v = self.read(src)
        r["PC"] = pc + 2 & 0xffff
        self.write(dst, v)
        m.ticks = 4
        nm = lambda a: "%x" % a if self.special(a) else "mem"
        return "%s:%s->%s" % (self.kind, nm(src), nm(dst))

    def read(self, a):
        r, s, k = self.m.r, self.m.s["rom"], self.kind
        self.depth += 1
        if self.depth > 20:
            raise Skip()
        if not self.special(a):
            if k != "o" and k != "u" and not 16 <= a < 0xfff0:
                raise Skip()
            return s.m[a]
        if k == "u":
            f = r["F"]
            n, z, o, c = f >> 2 & 1, f & 1, f >> 3 & 1, f >> 1 & 1
            if a == 0xfff0:
                return r["A"]
            if a == 0xffff:
                return r["PC"]
            return 2 * [0, n, z, o, c, n ^ o, n ^ o | z, c ^ z ^ 1][a & 7]
        if a < 4:
            return r["PC"] + 2 * a & 0xffff
        if a == 7:
            if r["A"] == 7:
                return 7
            return self.read(r["A"])
        if a == 8:
            return r["A"]
        if k == "e":
            if a == 5:
                return r["P"]
            if a == 6:
                x = r["P"]
                r["P"] = x + 1 & 0xffff
                return self.read(x)
            if a == 10:
                x = r["A"]
                r["A"] = x + 1 & 0xffff
                return self.read(x)
        raise Skip()       # not readable

    def uadd(self, a, b, c):
        x = a + b + c
        v = x & 0xffff
        f = 0
        if x > 0xffff:
            f |= FC
        if ~(a ^ b) & (a ^ v) & 0x8000:
            f |= FO
        if v == 0:
            f |= FZ
        if v & 0x8000:
            f |= FN
        self.m.r["F"] = f
        return v

    def write(self, a, v):
        r, s, k = self.m.r, self.m.s["rom"], self.kind
        self.depth += 1
        if self.depth > 20:
            raise Skip()
        if not self.special(a):
            if k != "o" and k != "u" and not 16 <= a < 0xfff0:
                raise Skip()
            s.wr(a, v)
            return
        acc = r["A"]
        if k == "u":
            if a == 0xffff:
                r["PC"] = v
                return
            a &= 7
            r["A"] = (v if a == 0 else
                      self.uadd(acc, v ^ 0xffff, 1) if a == 1 else
                      self.uadd(v, acc ^ 0xffff, 1) if a == 2 else
                      self.uadd(acc, v, 0) if a == 3 else
                      acc ^ v if a == 4 else acc & v if a == 5 else acc | v if a == 6 else v >> 1)
            return
        if a == 0 or a == 1 and acc & 0x8000 or a == 2 and acc == 0 or a == 4 and r["C"]:
            r["PC"] = v
        elif a in (1, 2, 4):
            pass
        elif a == 7:
            if acc != 7:
                self.write(acc, v)
        elif a == 8:
            r["A"] = v
        elif a == 9:
            r["C"] = int(acc < v)
            r["A"] = acc - v & 0xffff
        elif a == 11:
            r["C"] = int(acc + v > 0xffff)
            r["A"] = acc + v & 0xffff
        elif a == 12:
            r["A"] = acc ^ v
        elif a == 13:
            r["A"] = acc | v
        elif a == 14:
            r["A"] = acc & v
        elif a == 15:
            c = r["C"]
            r["C"] = v & 1
            r["A"] = v >> 1 | c << 15
        elif k == "e" and a == 5:
            r["P"] = v
        elif k == "e" and a == 6:
            r["P"] = r["P"] - 1 & 0xffff
            self.write(r["P"], v)
        elif k == "e" and a == 10:
            r["A"] = acc + 1 & 0xffff
            self.write(acc, v)
        else:
            raise Skip()

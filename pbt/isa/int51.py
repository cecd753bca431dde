"""The interrupt system of the MCS-51 (8052, and the 4 level one of the 89C51R with PCA)
on top of the model of its instructions."""
from .common import ISACheck, Reg, Skip
from .mcs51 import MCS51, CPU, OPS, CODES

BASE = {0x81: "SP", 0x82: "DPL", 0x83: "DPH", 0xa0: "P2", 0xd0: "PSW", 0xe0: "ACC", 0xf0: "B",
        0xa8: "IE", 0xb8: "IP", 0x88: "TCON", 0x98: "SCON", 0xc8: "T2CON", 0x87: "PCON"}
S2 = BASE
S4 = dict(BASE)
S4.update({0xb7: "IPH", 0xd8: "CCON"})
# (enable mask, register of the request, its mask, vector, cleared by hardware)
SRC2 = [(1, "TCON", 0x02, 0x03, 1), (2, "TCON", 0x20, 0x0b, 1), (4, "TCON", 0x08, 0x13, 1), (8, "TCON", 0x80, 0x1b, 1),
        (0x10, "SCON", 0x02, 0x23, 0), (0x10, "SCON", 0x01, 0x23, 0), (0x20, "T2CON", 0x80, 0x2b, 0), (0x20, "T2CON", 0x40, 0x2b, 0)]
PCA = [(0x40, "CCON", 0x80, 0x33, 0)] + [(0x40, "CCON", 1 << i, 0x33, 0) for i in range(5)]
SRC4 = SRC2[:4] + PCA + SRC2[4:]
EN = ["CMOD", "CCAPM0", "CCAPM1", "CCAPM2", "CCAPM3", "CCAPM4"]


class Int51(MCS51):
    variants = [(["-t", "C52"], 2), (["-t", "89C51R"], 4)]
    args = []
    R2 = [Reg(n) for n in ("ACC", "B", "PSW", "SP", "DPL", "DPH", "P2", "IE", "IP", "TCON", "SCON", "T2CON", "PCON")]
    R4 = R2 + [Reg(n) for n in ["IPH", "CCON"] + EN]
    regs = R2
    rule = ("a case is 1..200 instructions with interrupt requests; non-trivial when at least one "
            "request was served")

    def sel(self, v):
        self.v = v
        self.four = self.variants[v][1] == 4
        self.regs = self.R4 if self.four else self.R2
        self.SFR = S4 if self.four else S2
        self.src = SRC4 if self.four else SRC2
        self._rm = {g.name: g.mask for g in self.regs}
        self._rm["PC"] = 0xffff
        self._rv = {g.name: g.var for g in self.regs}

    def gen(self, d):
        n = d.int(1, self.steps_max)
        case = {"mem": d.bits(16), "v": d.below(2)}
        self.sel(case["v"])
        case["steps"] = [self.gen_step(d, i) for i in range(n)]
        return case

    def run(self, case):
        self.sel(case["v"])
        self.lv = []
        self.idle = False
        self.served = 0
        o = super().run(case)
        o.nontrivial = self.served > 0
        return o

    def init_regs(self, case):
        r = super().init_regs(case)
        for k in r:
            if k in ("IE", "TCON", "SCON", "T2CON", "PCON", "CCON") or k in EN:
                r[k] = 0
        return r

    def regval(self, d, n):
        if n == "IE":
            return d.choice([0x80, 0xff, 0xbf, 0]) ^ (1 << d.below(8) if d.bool(0.6) else 0) if d.bool(0.7) else d.bits(8)
        if n == "PCON":
            return d.choice([0, 1, 0x80, 0])
        if n in EN:
            return d.choice([0, 1]) | (0x40 if n != "CMOD" and d.bool() else 0)
        if n == "TCON":
            return (d.bits(8) & d.bits(8)) & 0xaf
        if n in ("SCON", "T2CON", "CCON"):
            m = {"SCON": 3, "T2CON": 0xc0, "CCON": 0x9f}[n]
            return 1 << d.below(8) & m if d.bool(0.7) else 0
        return d.edge(8)

    CTRL = ("IE", "IP", "IPH", "TCON", "SCON", "T2CON", "CCON", "PCON")

    def gen_step(self, d, i):
        k = d.below(12)
        adr = {v: a for a, v in self.SFR.items()}
        ctrl = [n for n in self.CTRL if n in adr]
        if k < 4:
            op = d.choice(CODES)
        elif k < 7:
            op = 0x32
        elif k < 8:
            op = 0
        else:
            op = d.choice([0x75, 0x43, 0x53, 0x63, 0x42, 0x52, 0xf5, 0x85, 0xd0, 0xd2, 0xc2, 0xb2, 0x10, 0x20, 0x30, 0x92, 0xa2])
        code = [op]
        for c in OPS.get(op, ""):
            if c == "i":
                code.append(d.edge(8))
            elif c == "d":
                a = d.weighted([(3, d.bits(7)), (3, d.choice(sorted(self.SFR))), (6 if k >= 8 else 0, adr[d.choice(ctrl)])])
                code.append(a)
                if op in (0x75, 0x43) and self.SFR.get(a) in self.CTRL and len(code) == 2 and d.bool(0.8):
                    code.append(self.regval(d, self.SFR[a]))
                    break
            else:
                b = d.bits(7)
                if k >= 8:
                    b = adr[d.choice([n for n in ctrl if adr[n] & 7 == 0])] | d.below(8)
                elif d.bool(0.5):
                    b = d.choice([0xd0, 0xe0, 0xf0]) | d.int(1, 7)
                code.append(b)
        pc = d.weighted([(30, 0x100), (20, None), (1, 0xfffe)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        for g in self.regs:
            if g.name in self.CTRL or g.name in EN:
                p = 0.25 if g.name in ("IE", "TCON", "IP", "IPH", "SCON", "T2CON", "CCON") else 0.05
                if d.bool(p):
                    regs[g.name] = self.regval(d, g.name)
            elif d.bool(0.15):
                regs[g.name] = d.edge(g.bits)
        return {"pc": pc, "code": code, "set": regs, "poke": []}

    def execute(self, m):
        r = m.r
        was_idle = self.idle
        if was_idle and any(k in m.setnow for k in ("IE", "IP")):
            raise Skip()
        cpu = CPU(m)
        cpu.SFR = self.SFR
        block = False
        if not was_idle:
            wrote = []
            orig = cpu.wd

            def wd(a, v):
                wrote.append(a)
                orig(a, v)
            cpu.wd = wd
            mn = cpu.step()
            if r["PCON"] & 2 or r["SP"] > 0xf8:
                raise Skip()
            op = m.s["rom"].m[m.start]
            block = op == 0x32 or 0xa8 in wrote or 0xb8 in wrote
            if op == 0x32 and self.lv:
                self.lv.pop()
        else:
            mn = "idle"
            m.ticks = 12
        best = None
        if not block and r["IE"] & 0x80:
            cur = self.lv[-1] if self.lv else -1
            for s in self.src:
                en, reg, mask, vec, clr = s
                if not r["IE"] & en or not r[reg] & mask:
                    continue
                if reg == "CCON":
                    x = "CMOD" if mask == 0x80 else "CCAPM%d" % (mask.bit_length() - 1)
                    if not r[x] & 1:
                        continue
                pr = 1 if r["IP"] & en else 0
                if self.four and r["IPH"] & en:
                    pr += 2
                if pr > cur and (best is None or pr > best[0]):
                    best = (pr, s)
        if best:
            pr, (en, reg, mask, vec, clr) = best
            if clr:
                r[reg] &= ~mask
            self.lv.append(pr)
            cpu.push(r["PC"])
            cpu.push(r["PC"] >> 8)
            r["PC"] = vec
            r["PCON"] &= ~1
            self.idle = False
            m.ticks = None
            self.served += 1
            return "%s+int%02x" % ("RETI" if mn == "32" else "idle" if was_idle else "op", vec)
        if r["PCON"] & 1:
            self.idle = True
        return mn

"""Timers 0, 1 and 2 of the MCS-51 on top of the model of its instructions."""
from .common import ISACheck, Reg, Skip
from .mcs51 import MCS51, CPU, OPS, CODES

NAMES = {0x81: "SP", 0x82: "DPL", 0x83: "DPH", 0x90: "P1", 0xa0: "P2", 0xb0: "P3", 0xd0: "PSW", 0xe0: "ACC", 0xf0: "B",
         0x88: "TCON", 0x89: "TMOD", 0x8a: "TL0", 0x8b: "TL1", 0x8c: "TH0", 0x8d: "TH1",
         0xc8: "T2CON", 0xca: "RCAP2L", 0xcb: "RCAP2H", 0xcc: "TL2", 0xcd: "TH2"}
WITH_DOWN = dict(NAMES)
WITH_DOWN[0xc9] = "T2MOD"
PORTS = ("P1", "P3")
TIMER = ["TCON", "TMOD", "TL0", "TL1", "TH0", "TH1", "T2CON", "RCAP2L", "RCAP2H", "TL2", "TH2", "T2MOD"]
CTRL = ("TCON", "TMOD", "T2CON", "T2MOD")
LOGIC = (0x42, 0x43, 0x52, 0x53, 0x62, 0x63, 0x10, 0x20, 0x30, 0x92, 0xa2, 0xb2, 0xc2, 0xd2, 0x72, 0x82, 0xa0, 0xb0)
RMW = set([0x05, 0x15, 0x42, 0x43, 0x52, 0x53, 0x62, 0x63, 0xd5, 0x10, 0x92, 0xb2, 0xc2, 0xd2])


class TCPU(CPU):
    """keeps the latches of the ports, sees their pins"""
    def d(self, a):
        n = self.SFR.get(a)
        v = CPU.d(self, a)
        if n == "TCON" and self.opcode not in LOGIC:
            raise Skip()    # (flags of the external interrupts)
        if n in PORTS and not self.rmw:
            v &= self.chk.pins[n]
        return v

    def gb(self, b):
        if b in (0x89, 0x8b) and "TCON" in self.SFR.values():
            raise Skip()
        return CPU.gb(self, b)


class Tim51(MCS51):
    variants = [(["-t", "C52"], 1), (["-t", "89C51R"], 0)]
    args = []
    R0 = [Reg(n) for n in ("ACC", "B", "PSW", "SP", "DPL", "DPH", "P2")] + [Reg("P1", var="port1_odr"), Reg("P3", var="port3_odr")]
    steps_max = 200
    rule = ("a case is 1..200 instructions with the timers programmed, started, gated and clocked by "
            "pins; non-trivial when a timer overflowed, was captured or reloaded")

    def sel(self, v):
        self.v = v
        k = self.variants[v][1]
        self.kind = k
        self.SFR = WITH_DOWN if k == 1 else NAMES
        if k == 2:
            self.SFR = {a: n for a, n in NAMES.items() if not 0xc8 <= a < 0xd0}
        have = set(self.SFR.values())
        self.regs = self.R0 + [Reg(n, var="sfr[0xc9]" if n == "T2MOD" else None) for n in TIMER if n in have] + [Reg("PIN1", var="pins1"), Reg("PIN3", var="pins3")]
        for g in self.regs:
            if g.name == "TCON":
                g.mask = 0xf5
        self._rm = {g.name: g.mask for g in self.regs}
        self._rm["PC"] = 0xffff
        self._rv = {g.name: g.var for g in self.regs}

    def gen(self, d):
        n = d.int(1, self.steps_max)
        case = {"mem": d.bits(16), "v": d.weighted([(4, 0), (1, 1)])}
        self.sel(case["v"])
        case["steps"] = [self.gen_step(d, i) for i in range(n)]
        return case

    def run(self, case):
        self.sel(case["v"])
        self.events = 0
        o = super().run(case)
        o.nontrivial = self.events > 0
        return o

    def init_regs(self, case):
        r = super().init_regs(case)
        for k in r:
            if k in CTRL:
                r[k] = 0
            if k in ("P1", "P3", "PIN1", "PIN3"):
                r[k] = 0xff
        return r

    def regval(self, d, n):
        if n == "TMOD":
            v = d.bits(8)
            if v & 3 == 3 or d.below(5) == 0:
                v |= 0x33
            if d.bool():
                v &= 0x77
            return v
        if n == "TCON":
            return d.choice([0x50, 0x10, 0x40, 0x50, 0, d.bits(8)])
        if n == "T2CON":
            return d.choice([4, 5, 0, 6, 7, 0xc, 0xd, 0xe, 0xf, 0x14, 0x24, 0x34, 0x3e, d.bits(8)])
        if n == "T2MOD":
            return d.below(4)
        if n[:2] in ("TL", "TH"):
            return d.choice([0xff, 0xfe, 0xfc, 0xff, 0x1f, 0, d.bits(8), d.bits(8)])
        if n[:5] == "RCAP2":
            return d.choice([0xff, 0xfd, 0, d.bits(8), d.bits(8)])
        if n in ("P1", "P3", "PIN1", "PIN3"):
            # the pins of the timers
            return (0xff ^ (d.bits(8) & (0x03 if n[-1] == "1" else 0x3c)))
        return d.edge(8)

    def gen_step(self, d, i):
        k = d.below(12)
        adr = {v: a for a, v in self.SFR.items()}
        tim = [n for n in TIMER + ["P1", "P3", "P1", "P3"] if n in adr]
        if k < 2:
            op = d.choice(CODES)
        elif k < 5:
            op = d.choice([0, 0, 0xa4, 0xa3, 0x04, 0x74])
        else:
            op = d.choice([0x75, 0x75, 0x75, 0x43, 0x53, 0x63, 0xf5, 0xe5, 0x85, 0xd2, 0xc2, 0xb2, 0xd2, 0xc2, 0xb2, 0x10, 0x20, 0x30, 0x92, 0xa2, 0x05, 0x15])
        code = [op]
        for c in OPS.get(op, ""):
            if c == "i":
                code.append(d.edge(8))
            elif c == "d":
                a = adr[d.choice(tim)] if k >= 5 else d.weighted([(3, d.bits(7)), (2, d.choice(sorted(self.SFR)))])
                code.append(a)
                if op in (0x75, 0x43, 0x53, 0x63) and a in self.SFR and len(code) == 2 and d.bool(0.85):
                    v = self.regval(d, self.SFR[a])
                    code.append(v if op in (0x75, 0x43) else v ^ 0xff if op == 0x53 else v ^ 0x0f)
                    break
            else:
                b = d.bits(7)
                if k >= 5:
                    b = d.choice([0x8c, 0x8e, 0x8d, 0x8f, 0xca, 0x90, 0x91, 0xb4, 0xb5, 0xb2, 0xb3] +
                                 [adr[d.choice([n for n in tim if adr[n] & 7 == 0])] | d.below(8)])
                    if b == 0xca and "T2CON" not in adr:
                        b = 0x8c
                code.append(b)
        pc = 0x100 if d.bool(0.8) else d.bits(16)
        regs = {}
        for g in self.regs:
            n = g.name
            if n in TIMER:
                if d.bool(0.06):
                    regs[n] = self.regval(d, n)
            elif n in ("P1", "P3", "PIN1", "PIN3"):
                if d.bool(0.15):
                    regs[n] = self.regval(d, n)
            elif d.bool(0.1):
                regs[n] = d.edge(8)
        return {"pc": pc, "code": code, "set": regs, "poke": []}

    # ---- the model

    def model_init(self, m):
        self.st = {"e": [0, 0, 0], "ex": 0}
        self.last = dict(m.r)

    def port(self, st, r, k, v):
        """a port or pins of a port change"""
        n = k[-1]
        o = r["P" + n] & r["PIN" + n]
        r[k] = v
        fall = o & ~(r["P" + n] & r["PIN" + n])
        if n == "3":
            st["e"][0] += fall >> 4 & 1
            st["e"][1] += fall >> 5 & 1
        elif self.kind != 2:
            st["e"][2] += fall & 1
            st["ex"] += fall >> 1 & 1

    def mode2(self, r):
        c = r["T2CON"]
        if c & 0x30:
            return "baud"
        if c & 1:
            return "capture"
        return "down" if self.kind == 1 and r["T2MOD"] & 1 else "reload"

    def change(self, st, r, k, v):
        """a register is written"""
        if k in ("P1", "P3", "PIN1", "PIN3"):
            self.port(st, r, k, v)
            return
        if k in ("TMOD", "TCON"):
            st["e"][0] = st["e"][1] = 0
        if k in ("T2CON", "T2MOD"):
            o = (self.mode2(r), r["T2CON"] & 4)
            r[k] = v
            if o != (self.mode2(r), r["T2CON"] & 4):
                st["e"][2] = st["ex"] = 0
        r[k] = v

    def execute(self, m):
        r = m.r
        st = {"e": list(self.st["e"]), "ex": self.st["ex"]}
        # what was set from outside
        cur = dict(r)
        cur.update({k: self.last[k] for k in m.setnow})
        for k in m.setnow:
            self.change(st, cur, k, r[k])
        cpu = TCPU(m)
        cpu.chk = self
        cpu.SFR = self.SFR
        op = m.s["rom"].m[m.start]
        cpu.rmw = op in RMW
        cpu.opcode = op
        self.pins = {"P1": r["PIN1"], "P3": r["PIN3"]}
        orig = cpu.wd

        def wd(a, v):
            n = self.SFR.get(a)
            if n in CTRL or n in ("P1", "P3"):
                self.change(st, r, n, v & 255)
            else:
                orig(a, v)
        cpu.wd = wd
        mn = cpu.step()
        if m.ticks is None:
            raise Skip()
        cyc = m.ticks // 12
        m0, m1 = r["TMOD"] & 3, r["TMOD"] >> 4 & 3
        if m0 == 3 and m1 != 3:
            raise Skip()
        ev = self.timer01(m, st, 0, cyc, m0) + self.timer01(m, st, 1, cyc, m1)
        if self.kind != 2:
            ev += self.timer2(m, st, cyc)
        self.st = st
        self.last = dict(r)
        self.events += bool(ev)
        return mn + ev

    def timer01(self, m, st, n, cyc, mode):
        r = m.r
        tm = r["TMOD"] >> (4 * n)
        run = r["TCON"] & (0x40 if n else 0x10)
        tl, th, tf = "TL%d" % n, "TH%d" % n, 0x80 if n else 0x20
        ev = ""
        closed = tm & 8 and not r["P3"] & r["PIN3"] & (8 if n else 4)
        if closed:
            st["e"][n] = 0
        if mode == 3:
            if n == 1:
                return ""
            if r["TCON"] & 0x40:
                r[th] += cyc
                if r[th] > 255:
                    r[th] &= 255
                    r["TCON"] |= 0x80
                    ev = "+TF1(3)"
        if not run or closed:
            return ev
        c = cyc
        if tm & 4:
            c = st["e"][n]
            st["e"][n] = 0
        over = 0
        if mode == 0:
            v = (r[th] << 5 | r[tl] & 31) + c
            over = v > 0x1fff
            r[th], r[tl] = v >> 5 & 255, v & 31 | r[tl] & 0xe0
            m.loose[tl] = 0xe0
        elif mode == 1:
            v = (r[th] << 8 | r[tl]) + c
            over = v > 0xffff
            r[th], r[tl] = v >> 8 & 255, v & 255
        elif mode == 2:
            for i in range(c):
                r[tl] += 1
                if r[tl] > 255:
                    r[tl] = r[th]
                    over = 1
        else:
            r[tl] += c
            over = r[tl] > 255
            r[tl] &= 255
        if over:
            r["TCON"] |= tf
            ev += "+TF%d(%d%s)" % (n, mode, "c" if tm & 4 else "")
        return ev

    def timer2(self, m, st, cyc):
        r = m.r
        c2 = r["T2CON"]
        mode = self.mode2(r)
        ev = ""
        v = r["TH2"] << 8 | r["TL2"]
        cap = r["RCAP2H"] << 8 | r["RCAP2L"]
        if not c2 & 8:
            st["ex"] = 0
        if not c2 & 2:
            st["e"][2] = 0
        if c2 & 8 and st["ex"] and mode != "down":
            st["ex"] = 0
            r["T2CON"] |= 0x40
            ev = "+EXF2" + mode
            if mode == "capture":
                cap = v
            elif mode == "reload":
                v = cap
        if c2 & 4:
            n = cyc * 6 if mode == "baud" else cyc
            if c2 & 2:
                n = st["e"][2]
                st["e"][2] = 0
            toggle = False
            down = mode == "down" and not r["P1"] & r["PIN1"] & 2
            for i in range(n):
                if down:
                    if v == cap:
                        v = 0xffff
                        toggle = not toggle
                        r["T2CON"] |= 0x80
                        ev += "+TF2down"
                    else:
                        v = (v - 1) & 0xffff
                    continue
                v += 1
                if v > 0xffff:
                    v = 0 if mode == "capture" else cap
                    if mode != "baud":
                        r["T2CON"] |= 0x80
                    toggle ^= mode == "down"
                    ev = ev[:8] + "+TF2" + mode
            if toggle:
                r["T2CON"] ^= 0x40
        r["TH2"], r["TL2"] = v >> 8, v & 255
        r["RCAP2H"], r["RCAP2L"] = cap >> 8, cap & 255
        return ev

"""Interrupts of the 6800, 6801, 68HC11 and 6502 families on top of the models of their
instructions.  The request cells of the interrupt controller are handled as registers."""
from .common import Reg, Skip
from .m6800 import M6800, I as M_I
from .m68hc11 import M68HC11
from .m6809 import M6809
from . import m6800, m6809, m68hc11, m6502

DELAYED = ("CLI", "TAP")        # the next instruction always executes before the interrupt


class IntMixin:
    steps_max = 150
    n_req = {"NMI": 0.06, "IRQ": 0.12}

    def run(self, case):
        self.idle = False
        self.served = 0
        o = super().run(case)
        o.nontrivial = self.served > 0
        return o

    def init_regs(self, case):
        r = super().init_regs(case)
        for k in self.n_req:
            r[k] = 0
        return r

    def gen_step(self, d, i):
        s = super().gen_step(d, i)
        regs = {k: v for k, v in s["set"].items() if k not in self.n_req and d.bool(0.4)}
        for k, p in self.n_req.items():
            if d.bool(p):
                regs[k] = 1 if d.bool(0.85) else 0
        s["set"] = regs
        x = self.special(d)
        if x:
            s["code"][:len(x)] = x
        return s

    def load16(self, cpu, a):
        return cpu.rd16(a)

    def execute(self, m):
        r = m.r
        cpu = self.make(m)
        wait = False
        if self.idle:
            mn = "idle"
            for j in range(6):
                cpu.rd(m.start + j)     # (no code in devices)
            m.loose[self.flags] = self.loose_ok
        else:
            f0 = r[self.flags]
            op = cpu.rd(r["PC"])
            if op == self.wai:
                cpu.pc = (cpu.pc + 1) & 0xffff
                r["PC"] = cpu.pc
                mn = "WAI"
                m.loose[self.flags] = self.loose_ok
                wait = True
                self.push_all(cpu)
            else:
                mn = cpu.step()
            loose = m.loose.get(self.flags, 0) & ~self.loose_ok or any(v for k, v in m.loose.items() if k != self.flags)
        irq = r["IRQ"] and not r[self.flags] & self.imask
        if r["NMI"]:
            if not self.nmi_ok(r):
                raise Skip()
        if r["NMI"] or irq:
            if not self.idle and (loose or self.delays(mn, f0, r) and not r["NMI"]):
                raise Skip()
            if not self.idle and self.delays(mn, None, r):
                return mn
            k = "NMI" if r["NMI"] else "IRQ"
            if not wait and not self.idle:
                self.push_all(cpu)
            r[self.flags] |= self.imask
            self.accepted(cpu, k)
            r["PC"] = self.load16(cpu, self.vec(k))
            self.idle = False
            m.ticks = None
            self.served += 1
            return ("WAI+" if wait else "idle+" if mn == "idle" else "op+") + k
        if wait:
            self.idle = True
        return mn


class Int6800(IntMixin, M6800):
    regs = M6800.regs + [Reg("NMI", 1, var="irq_0_cfg[1]"), Reg("IRQ", 1, var="irq_0_cfg[3]")]
    flags = "CC"
    imask = M_I
    loose_ok = 0
    wai = 0x3e
    swi = "SWI"

    def make(self, m):
        return m6800.CPU(m, self.variants[self.v][1])

    def special(self, d):
        k = d.below(10)
        return [0x3b] if k < 2 else [0x3e] if k == 3 else [0x0e] if k == 4 else None

    def nmi_ok(self, r):
        return True

    def delays(self, mn, f0, r):
        if f0 is None:
            return mn.split("_")[-2:-1] == ["SWI"]
        # (recognised after the next instruction only by some of the CPUs)
        return mn.split("_")[-2:-1] in (["CLI"], ["TAP"]) and f0 & self.imask

    def push_all(self, cpu):
        r = cpu.r
        cpu.push16(r["PC"])
        if "Y" in r:
            cpu.push16(r["Y"])
        cpu.push16(r["X"])
        cpu.push(r["A"])
        cpu.push(r["B"])
        cpu.push(r["CC"] | 0xc0)        # (upper bits of the register are always set)

    def accepted(self, cpu, k):
        cpu.r[k] = 0

    def vec(self, k):
        return 0xfffc if k == "NMI" else 0xfff8


class Int68hc11(Int6800, M68HC11):
    sim = M68HC11.sim
    variants = M68HC11.variants
    regs = M68HC11.regs + Int6800.regs[-2:]
    cpu = M68HC11.cpu
    loose_ok = 0xc0
    codes = M68HC11.codes

    def make(self, m):
        return m68hc11.CPU(m, 1)

    def vec(self, k):
        return 0xfff4 if k == "NMI" else 0xfff2


class Int6502(IntMixin, m6502.M6502):
    regs = m6502.M6502.regs + [Reg("NMI", 1), Reg("IRQ", 1)]
    flags = "P"
    imask = 0x04
    loose_ok = 0x30
    wai = -1

    def make(self, m):
        return m6502.CPU(m, self.variants[self.v][1])

    def special(self, d):
        k = d.below(10)
        return [0x40] if k < 2 else [0x58] if k == 3 else [0] if k == 4 else None

    def nmi_ok(self, r):
        return True

    def delays(self, mn, f0, r):
        if f0 is None:
            return mn.split("_")[-2:-1] == ["BRK"] or "BRK" in mn
        return ("CLI" in mn or "PLP" in mn) and f0 & self.imask

    def push_all(self, cpu):
        r = cpu.r
        pc = r["PC"]
        cpu.push(pc >> 8)
        cpu.push(pc & 255)
        cpu.push(r["P"] & ~0x10 | 0x20)

    def accepted(self, cpu, k):
        if k == "NMI":
            cpu.r[k] = 0        # edge triggered; the IRQ line keeps its level
        if cpu.cmos:
            cpu.r["P"] &= ~8

    def vec(self, k):
        return 0xfffa if k == "NMI" else 0xfffe

    def load16(self, cpu, a):
        return cpu.rd(a) | cpu.rd(a + 1) << 8


class Int6809(IntMixin, M6809):
    n_req = {"NMI": 0.06, "FIRQ": 0.08, "IRQ": 0.12}
    regs = M6809.regs + [Reg("NMI", 1), Reg("FIRQ", 1), Reg("IRQ", 1), Reg("NMIEN", 1, var="irq_0_cfg[0]", set=False)]

    def gen_step(self, d, i):
        s = super().gen_step(d, i)
        s["set"].pop("NMIEN", None)
        return s

    def special(self, d):
        k = d.below(20)
        if k < 4:
            return [0x3b]
        return {5: [0x3c, d.edge(8)], 6: [0x3c, 0xaf], 7: [0x1c, 0xaf], 8: [0x10, 0xce]}.get(k)

    def model_init(self, m):
        m.r["NMIEN"] = 0

    def execute(self, m):
        r = m.r
        cpu = m6809.CPU(m)
        wait = False
        idle = self.idle
        if idle:
            mn = "idle"
            for j in range(6):
                cpu.rd(m.start + j)     # (no code in devices)
        elif cpu.rd(r["PC"]) == 0x3c:
            cpu.pc = (cpu.pc + 1) & 0xffff
            r["CC"] = r["CC"] & cpu.f8() | m6809.E
            r["PC"] = cpu.pc
            cpu.push_all()
            wait = True
            mn = "CWAI"
        else:
            mn = cpu.step()
            op = mn.split("_")[1]
            if op == "LDS":
                r["NMIEN"] = 1
            elif r["NMI"] and not r["NMIEN"] and op in ("LEAS", "TFR", "EXG", "PULU"):
                raise Skip()        # (loading of S enables NMI)
        k = None
        if r["NMI"] and r["NMIEN"]:
            k, vec, mask = "NMI", 0xfffc, m6809.I | m6809.F
        elif r["FIRQ"] and not r["CC"] & m6809.F:
            k, vec, mask = "FIRQ", 0xfff6, m6809.I | m6809.F
        elif r["IRQ"] and not r["CC"] & m6809.I:
            k, vec, mask = "IRQ", 0xfff8, m6809.I
        if k:
            if m.loose.get("CC"):
                raise Skip()
            cpu.pc = r["PC"]
            if not wait and not idle:
                if k == "FIRQ":
                    r["CC"] &= ~m6809.E
                    cpu.push_all("S", 0x81)
                else:
                    r["CC"] |= m6809.E
                    cpu.push_all()
            else:
                m.loose["CC"] = m6809.E
            if k == "NMI":
                r["NMI"] = 0        # (the other lines keep their levels)
            r["CC"] |= mask
            r["PC"] = cpu.rd16(vec)
            self.idle = False
            self.served += 1
            return ("CWAI+" if wait else "idle+" if idle else "op+") + k
        if wait:
            self.idle = True
        return mn

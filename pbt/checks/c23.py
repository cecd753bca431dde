from ..engine import Check
from ..isa.int51 import Int51
from ..isa import reset_int
from ..isa.intm68 import Int6800, Int68hc11, Int6502, Int6809


class C(Check):
    id = "C23"
    subs = [Int51(), Int6800(), Int68hc11(), Int6502(), Int6809()]
    names = ["mcs51", "6800", "68hc11", "6502", "6809"]
    sims = sorted({s.sim for s in subs} | set(reset_int.sims))
    unit_name = "instructions"
    n_quick = 2400
    n_thorough = 40000
    rule = ("a case is 1..200 single-instruction steps of one CPU with interrupt requests raised, "
            "masked, prioritised and returned from; non-trivial when at least one request was served; "
            "or requests after a reset, which must not be served; non-trivial when interrupts were enabled before and requested after")

    def gen(self, d):
        if d.below(12) == 0:
            return {"cpu": -1, "reset": reset_int.gen(d)}
        k = d.below(len(self.subs))
        c = self.subs[k].gen(d)
        c["cpu"] = k
        return c

    def run(self, case):
        k = case["cpu"]
        if k < 0:
            return reset_int.run(case["reset"])
        o = self.subs[k].run(case)
        for f in o.fails:
            f.sig = self.names[k] + "/" + f.sig
        o.labels = [self.names[k] + "/" + x for x in o.labels]
        return o

    def sample(self, case):
        if case["cpu"] < 0:
            return case
        return self.subs[case["cpu"]].sample(case)


CHECK = C()

"""After a reset no maskable interrupt is accepted, whatever was going on before."""
from ..engine import Outcome
from .. import sim as S

# simulator, arguments, NOP, registers that enable, request expressions, first free address
CPUS = [
    ("m6800", ["-t", "6800"], 1, ["CC=0xc0"], ["irq_0_cfg[3]=1"], "SP=0x7000"),
    ("m6800", ["-t", "6801"], 1, ["CC=0xc0"], ["irq_0_cfg[3]=1"], "SP=0x7000"),
    ("m68hc11", [], 1, ["CC=0xc0"], ["irq_0_cfg[3]=1"], "SP=0x7000"),
    ("m6809", [], 0x12, ["CC=0", "CC=0x40", "CC=0x10"], ["IRQ=1", "FIRQ=1", "NMI=1"], "S=0x7000"),
    ("mos6502", ["-t", "6502"], 0xea, ["P=0"], ["IRQ=1"], "SP=0xff"),
    ("mos6502", ["-t", "65C02"], 0xea, ["P=0"], ["IRQ=1"], "SP=0xff"),
    ("mos6502", ["-t", "65C02S"], 0xea, ["P=0"], ["IRQ=1"], "SP=0xff"),
    ("s51", ["-t", "C52"], 0, ["IE=0xff", "IP=0xff"], ["TCON=0x0a", "TCON=0xaa", "SCON=3", "T2CON=0xc0"], "SP=0x30"),
    ("s51", ["-t", "89C51R"], 0, ["IE=0xff", "IP=0xff", "IPH=0xff"], ["TCON=0x0a", "TCON=0xaa", "SCON=1", "CCON=0x80"], "SP=0x30"),
]
sims = sorted({c[0] for c in CPUS})


def gen(d):
    c = CPUS[d.below(len(CPUS))]

    def some(x, p):
        return [y for y in x if d.bool(p)]
    return {"k": CPUS.index(c), "en": some(c[3], 0.8), "before": some(c[4], 0.6), "n0": d.below(4), "pc": 0x300 + d.below(0x400),
            "after": some(c[4], 0.8), "n": d.int(1, 8)}


def run(case):
    sim, args, nop, _, _, sp = CPUS[case["k"]]
    o = Outcome()
    sc = S.Script()
    sc("fill rom 0 0x1fff %d" % nop)
    sc("pc 0x200", "expr /n " + sp, *["expr /n " + x for x in case["en"] + case["before"]])
    b0 = sc(*(["step"] * case["n0"]))
    sc("reset")
    sc("pc %d" % case["pc"], "expr /n " + sp, *["expr /n " + x for x in case["after"]])
    sc(*(["step"] * case["n"]))
    b = sc("expr PC")
    r = sc.run(sim, args=args)
    if not S.health(r, o, sim):
        return o
    o.units = case["n"] + case["n0"]
    o.nontrivial = bool(case["after"] and case["en"])
    got = [int(x) for x in r.blocks[b] if x.strip()]
    e = case["pc"] + case["n"]
    o.label(sim + "/reset")
    if got != [e]:
        o.fail("reset/%s" % sim, "%s %s: after reset and requests %s %d NOPs from %#x ended at %s instead of %#x" % (
            sim, " ".join(args), ", ".join(case["after"]), case["n"], case["pc"], ["%#x" % x for x in got], e))
    return o

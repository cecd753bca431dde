"""C11: reset"""
import re
from ..engine import Check, Outcome
from .. import anycpu as A, sim as S

NEVER = {"ccyc", "sim_reason"}

# registers that a reset need not change: their value after a reset depends on the past (working
# registers of most processors, and variables that are cells of the RAM)
_R8080 = "A|F|B|C|D|E|H|L|AF|BC|DE|HL|SP"
_RX = "(ALT_|a)?(A|F|B|C|D|E|H|L|J|K|JK|AF|BC|DE|HL|BCDE|JKHL|F_.)|P[WXYZ]|IX|IY|SU|HTR"
FREE = {
    "f8": "[AWXYZ]|[XYZ][HL]|F|SP", "i8048": "ACC|bus0?_out|DBBOUT|pext0_odr[4-7]", "i8085": _R8080,
    "m6800": "A|B|D|IX|SP|uart[01]_.*", "m6809": "A|B|D|S|U|X|Y|uart[01]_.*", "m68hc11": "A|B|D|IX|IY|SP|uart[01]_.*",
    "m68hc12": "A|B|D|IX|IY|SP|TMP[123]|uart[01]_.*", "mos6502": "A|X|Y|MPR[0-6]|IRQ|NMI", "oisc": "A|F|P|[A-Z]", "p1516": "R([0-9]|1[0-4])",
    "pdk": "F|FLAG|INTEGS|INTRQ|MISC|MULOP|SP", "rxk": _RX, "tlcs": _RX + "|SP", "s51": "R[0-7]|DPTR[01]?",
    "avr": "[XYZ][HL]?|[XYZ]|r[0-9]+|R[0-9]+", "z80": _RX + "|R",
}
_free = {}


def free(i):
    if i not in _free:
        sim, typ = A.FLEET[i]
        r = S.run(sim, "info variables\nquit\n", args=["-t", typ], timeout=20)
        p = re.compile("(?:%s)$" % FREE[sim]) if sim in FREE else None
        _free[i] = [n for n in variables(r.out.split("\n")) if p and p.match(n)]
    return _free[i]


_chips = {}


def chips(i):
    if i not in _chips:
        sim, typ = A.FLEET[i]
        r = S.run(sim, "info memory\nquit\n", args=["-t", typ], timeout=20)
        out = []
        for l in r.out.split("Address spaces")[0].split("\n"):
            m = re.match(r"\s+0x([0-9a-f]+)-0x([0-9a-f]+)\s+(\d+)\s+(\S+) \((\d+),", l)
            if m and m[4] != "variable_storage" and not re.match(r"sfr|io_chip|cpu_chip|option|boot|dptr|ports|mpr|eeprom|flash", m[4]):
                out.append((m[4], int(m[1], 16), int(m[2], 16), int(m[5])))
        _chips[i] = out
    return _chips[i]


VAR = re.compile(r"^(\S+) .* = ")
CNT = re.compile(r"^(Operation since.*|Inst=.*|Total time since.*|Time in.*|Simulation:.*|Runtime.*|CPU state.*)$")


def variables(block):
    out = {}
    for l in block:
        m = VAR.match(l)
        if m and m[1] not in NEVER:
            out[m[1]] = l
    return out


# what the reset does to the cells of hardware registers is seen at the variables
HWMEM = dict(A.HWREGS)
# the reset of these does not include the serial lines and the PIA
MOTO = A.MOTO


class C11(Check):
    id = "C11"
    sims = sorted({s for s, t in A.FLEET if s != "xa"})
    rule = "at least 3 instructions were executed and at least one register had another value than after the reset"
    unit_name = "instructions"
    n_quick = 2400
    n_thorough = 40000
    assumptions = ["registers that have no defined value after a reset are listed in pbt/data/noreset.json"]

    def setup(self):
        for i in range(len(A.FLEET)):
            A.spaces(i)
            chips(i)
            free(i)

    def gen(self, d):
        sc = A.gen_scene(d, only=self.sims, hw=0.7)
        sc["steps"] = [d.int(1, 12) for _ in range(d.size(1, 12))]
        sc["brk"] = [d.int(*A.code_of(A.FLEET[sc["cpu"]][0])[1:]) for _ in range(d.size(0, 3))] if d.bool(0.5) else []
        sc["after"] = d.int(1, 40)
        sc["pc2"] = d.bool(0.7)
        sc["twice"] = d.bool(0.3)
        # interrupt requests before the reset, and after it
        sim = A.FLEET[sc["cpu"]][0]
        if sim in IRQ and d.bool(0.6):
            sc.setdefault("pre", []).extend(d.choice(IRQ[sim]) for _ in range(d.size(1, 4)))
        sc["post"] = []
        if sim in IRQ and d.bool(0.6):
            sc["post"] = [d.choice(IRQ[sim]) for _ in range(d.size(1, 4))]
        elif sim in A.HWREGS and d.bool(0.4):
            for _ in range(d.size(1, 8)):
                m, a, b, w = d.choice(A.HWREGS[sim])
                sc["post"].append("set mem %s 0x%x 0x%x" % (m, d.int(a, b), d.edge(w)))
        return sc

    def directed(self, tier):
        return [dict(cpu=i, R=5, img=i, p=100, pc=A.code_of(s)[1] + 0x40, steps=[9] * 6, brk=[], after=20, pc2=True, twice=True)
                for i, (s, t) in enumerate(A.FLEET) if s != "xa"]

    def run(self, sc):
        o = Outcome()
        i = sc["cpu"]
        sim, typ = A.FLEET[i]
        what = "%s -t %s" % (sim, typ)
        a = one(sc, True)
        if not S.health(a["r"], o, what):
            return o
        b = one(sc, False)
        if not S.health(b["r"], o, what + ", fresh"):
            return o
        o.label(sim)
        ra, rb = a["r"], b["r"]
        stops = [A.stop_of(ra.blocks[k]) for k in a["steps"]]
        o.units = sum(x is not None for x in stops)
        mid, va, vb = (variables(r.blocks[k]) for r, k in ((ra, a["mid"]), (ra, a["vars"]), (rb, b["vars"])))
        dirty = [n for n in vb if mid.get(n) != vb[n] and n not in free(i)]
        o.nontrivial = o.units >= 3 and bool(dirty)
        hist = "; ".join(sc.get("pre", []) + ["pc 0x%x" % sc["pc"]] + ["step %d" % n for n in sc["steps"]])
        # counters
        z = [l for l in ra.blocks[a["state"]] if CNT.match(l) and not l.startswith(("Runtime", "CPU"))]
        y = [l for l in rb.blocks[b["state"]] if CNT.match(l) and not l.startswith(("Runtime", "CPU"))]
        if z != y:
            df = [(p, q) for p, q in zip(z, y) if p != q]
            o.fail("count/" + typ, "%s: after the reset the state shows %r, a fresh simulator %r" % (what, df and df[0][0], df and df[0][1]))
        # registers
        bad = [n for n in vb if va.get(n) != vb[n] and n not in free(i)]
        if typ == "9S08":
            # (memory seen through the MMU)
            bad = [n for n in bad if n not in ("LWP", "LBP", "LB")]
        if sim in MOTO or sim in VECTOR:
            bad = [n for n in bad if n != "PC"]
        if bad:
            o.fail("reg/%s/%s" % (typ, bad[0]), "%s: after the reset: %s; a fresh simulator: %s; before the reset: %s; history: %s" % (
                what, va.get(bad[0]), vb[bad[0]], mid.get(bad[0]), hist))
        if sim in VECTOR:
            at = VECTOR[sim]
            at = at.get(typ, at.get("")) if isinstance(at, dict) else at
            m = re.search(r"PC= 0x([0-9a-f]+)", "\n".join(ra.blocks[a["state"]]))
            v = [int(x, 16) for l in ra.blocks[a["vec"]] for x in re.findall(r" ([0-9a-f]{2})(?= )", l[:14] + " ")]
            if m and len(v) == 2:
                want = v[0] + 256 * v[1] if sim in LITTLE else v[0] * 256 + v[1]
                if want != int(m[1], 16):
                    o.fail("vector/" + typ, "%s: the reset vector at 0x%x is 0x%x, but PC is 0x%s after the reset" % (what, at, want, m[1]))
        # memories
        for f1, f2, name, off, n in a["mem"]:
            x, y = ra.files.get(f1), ra.files.get(f2)
            if x is None or y is None:
                o.fail("dump/" + typ, "%s: no dump of %s" % (what, name))
                continue
            if x != y:
                k = next(k for k in range(min(len(x), len(y))) if x[k] != y[k]) if len(x) == len(y) else 0
                if any(mm.startswith(name.replace("_chip", "")) and lo <= k <= hi for mm, lo, hi, w in HWMEM.get(sim, [])):
                    continue
                if sim == "m68hc12" and 0x30 <= k <= 0x37:
                    continue
                if sim == "avr" and 0x20 <= k <= 0x5f:
                    continue
                if typ == "9S08" and 0x78 <= k <= 0x7f:
                    continue
                o.fail("mem/%s/%s" % (typ, name), "%s: the reset changed %s, first at byte 0x%x of its dump: %02x -> %02x; history: %s" % (
                    what, name, k, x[k], y[k], hist))
        # the user's settings
        if ra.blocks[a["brk"][0]] != ra.blocks[a["brk"][1]]:
            o.fail("brk/" + typ, "%s: breakpoints before the reset %r, after %r" % (what, ra.blocks[a["brk"][0]], ra.blocks[a["brk"][1]]))
        # once more
        if a["again"] is not None:
            o.label("twice")
            v2 = variables(ra.blocks[a["again"]])
            bad = [n for n in va if v2.get(n) != va[n] and not (typ == "9S08" and n[:2] in ("LA", "LB", "LW"))]
            if bad:
                o.fail("twice/%s/%s" % (typ, bad[0]), "%s: a second reset changed %s into %s" % (what, va[bad[0]], v2.get(bad[0])))
        # the same program after the reset and in a fresh simulator
        if a["run"] is not None:
            o.label("rerun")
            x, y = ra.blocks[a["run"]], rb.blocks[b["run"]]
            x, y = (NOMEM.sub("", A.RT.sub("", "\n".join(z))).split("\n") for z in (x, y))
            if x != y:
                df = [(p, q) for p, q in zip(x, y) if p != q] or [(len(x), len(y))]
                o.fail("rerun/" + typ, "%s: from the same memory contents, %d steps after a reset and in a fresh simulator differ: %r; history: %s" % (
                    what, sc["after"], df[0], hist))
            else:
                sa, sb = A.state_of(ra, a["snap"], reason=False), A.state_of(rb, b["snap"], reason=False)
                for t in (sa, sb):
                    t["text"] = NOMEM.sub("", SERIAL.sub("", t["text"]))
                    if sim == "rxk":
                        # (the MMU maps addresses to where there is no memory)
                        t["rom"] = t["rwas"] = None
                df = A.diff(sa, sb, i)
                df = re.sub(r"^printed state: [^;]*ccyc[^;]*", "", df)
                if df:
                    o.fail("rerun/" + typ, "%s: from the same memory contents, the state %d steps after a reset and in a fresh simulator differ: %s; history: %s" % (
                        what, sc["after"], df, hist))
        return o


# enabled and requested interrupts
IRQ = {"s51": ["set mem sfr 0xa8 0x9f", "set mem sfr 0xa8 0x82", "set mem sfr 0xa8 0xff", "set mem sfr 0x88 0x20", "set mem sfr 0x88 0xaa",
               "set mem sfr 0x88 0xff", "set mem sfr 0x98 3", "set mem sfr 0xb8 0", "set mem sfr 0xb8 8", "set mem sfr 0xb8 2", "set mem sfr 0x89 0x22"],
       "stm8": ["set mem rom 0x7f70 0", "set mem rom 0x5254 1", "set mem rom 0x5250 1", "set mem rom 0x5255 1"],
       "mos6502": ["expr /n IRQ=1", "expr /n NMI=1"], "i8048": ["expr /n INT=1", "expr /n timer0_int_enabled=1", "expr /n timer0_int_request=1", "expr /n timer0_mode=1"]}
VECTOR = {"m6800": 0xfffe, "m6809": 0xfffe, "m68hc08": 0xfffe, "m68hc11": 0xfffe, "m68hc12": 0xfffe,
          "mos6502": {"": 0xfffc, "HUC6280": 0xfffe}, "st7": None}
VECTOR = {k: v for k, v in VECTOR.items() if v}
LITTLE = ("mos6502",)
# no comparison of a run: cells outside the image, or registers that cannot be set
NORERUN = set(MOTO) | {"xa", "oisc", "pblaze", "pdk", "tlcs", "stm8", "p1516", "f8", "rxk"}
NORERUNT = {"51", "HCS08", "XC88X", "521", "C517", "DS320", "DS390", "HUC6280", "GB80", "F380", "251", "89C51R"}
DUMMY = {"stm8": 0x1800, "f8": 0x10, "p1516": 0x10000}
NOMEM = re.compile(r"\[SP\+1\]= .*")
SERIAL = re.compile(r"^(?:Sending|Receiving): .*$", re.M)


def one(sc, past):
    i = sc["cpu"]
    sim, typ = A.FLEET[i]
    cs, lo, hi = A.code_of(sim)
    s = S.Script()
    files, pre = A.image(sc)
    x = dict(steps=[], mem=[], again=None, run=None, snap=None)
    s(*pre)
    if past:
        s(*(sc.get("pre", []) + ["pc 0x%x" % sc["pc"]]))
        for n in sc["steps"]:
            x["steps"].append(s("step %d" % n))
    for a in sc["brk"]:
        s("break 0x%x" % a)
    x["mid"] = s("info variables")
    if past:
        for k, (n, a, b, w) in enumerate(chips(i)):
            x["mem"].append(("m%d" % k, "n%d" % k, n, a, b))
            s.lines.append("dump /b %s 0x%x 0x%x >m%d" % (n, a, min(b, a + 0x1ffff), k))
    x["brk"] = [s("info breakpoints")]
    s("reset")
    x["vars"] = s("info variables")
    x["state"] = s("state")
    x["brk"].append(s("info breakpoints"))
    if sim in VECTOR:
        v = VECTOR[sim]
        v = v.get(typ, v.get("")) if isinstance(v, dict) else v
        x["vec"] = s("dump /h rom 0x%x 0x%x 2" % (v, v + 1))
    if past:
        for k, (n, a, b, w) in enumerate(chips(i)):
            s.lines.append("dump /b %s 0x%x 0x%x >n%d" % (n, a, min(b, a + 0x1ffff), k))
    if sc["twice"]:
        s("reset")
        x["again"] = s("info variables")
    if sim not in NORERUN and typ not in NORERUNT:
        c = ["delete", "history clear"] + ["fill %s 0x%x 0x%x 0x%x" % (n, a, b, (a + w * 5) & 0x1f) for n, a, b, w in chips(i)]
        c += list(pre)
        c += ["expr /n %s=0x%x" % (n, 0 if n in ("IRQ", "NMI") else 0x35 + 7 * k) for k, n in enumerate(free(i))]
        if sim == "s51":
            c.append("fill dptr 0 3 0")
        # (one cell stands for all of the addresses without memory)
        if sim in DUMMY:
            c.append("set mem rom 0x%x 0" % DUMMY[sim])
        s(*c)
        s("reset", "pc 0x%x" % sc["pc"])
        s(*["expr /n %s=0x%x" % (n, 0 if n in ("IRQ", "NMI") else 0x35 + 7 * k) for k, n in enumerate(free(i))])
        s(*sc.get("post", []))
        x["run"] = s(*(["step"] * sc["after"]))
        x["snap"] = A.snapshot(i, s)
    s.lines.append("quit")
    want = [f for m in x["mem"] for f in m[:2]] + ([f for f, _ in x["snap"][2]] if x["snap"] else [])
    x["r"] = s.run(sim, args=["-t", typ], files=files, seed=sc["R"], want=want, timeout=60)
    return x


CHECK = C11()

"""Serial lines carry the bytes which the program sends and the file holds."""
from ..engine import Check, Outcome
from .. import sim as S

H = lambda a: [a >> 8 & 255, a & 255]
L = lambda a: [a & 255, a >> 8 & 255]


def asm(parts):
    """parts: bytes, "name:" labels and ("r", label) relative bytes"""
    code, lab, fix = [], {}, []
    for p in parts:
        if isinstance(p, str):
            lab[p[:-1]] = len(code)
        elif isinstance(p, tuple):
            fix.append((len(code), p[1]))
            code.append(0)
        else:
            code += p
    for i, n in fix:
        code[i] = (lab[n] - i - 1) & 255
    return code


def prog_m6800(u, rp, tp, end, w):
    return asm(["a:", [0xb6], H(u), [0x47, 0x24], ("r", "b"), [0xf6], H(u + 1), [0xfe], H(rp), [0xe7, 0, 8, 0xff], H(rp), "b:", [1] * w,
                [0xb6], H(u), [0x85, 2, 0x27], ("r", "a"), [0xfe], H(tp), [0x8c], H(end), [0x27], ("r", "a"), [0xe6, 0, 0xf7], H(u + 1),
                [8, 0xff], H(tp), [0x20], ("r", "a")])


def prog_m6809(u, rp, tp, end, w):
    return asm(["a:", [0xb6], H(u), [0x47, 0x24], ("r", "b"), [0xf6], H(u + 1), [0xbe], H(rp), [0xe7, 0x84, 0x30, 1, 0xbf], H(rp), "b:", [0x12] * w,
                [0xb6], H(u), [0x85, 2, 0x27], ("r", "a"), [0xbe], H(tp), [0x8c], H(end), [0x27], ("r", "a"), [0xe6, 0x84, 0xf7], H(u + 1),
                [0x30, 1, 0xbf], H(tp), [0x20], ("r", "a")])


def prog_stm8(u, rp, tp, end, w):
    return asm(["a:", [0xc6], H(u), [0xa5, 0x20, 0x27], ("r", "b"), [0xc6], H(u + 1), [0xce], H(rp), [0xf7, 0x5c, 0xcf], H(rp), "b:", [0x9d] * w,
                [0xc6], H(u), [0xa5, 0x80, 0x27], ("r", "a"), [0xce], H(tp), [0xa3], H(end), [0x27], ("r", "a"), [0xf6, 0xc7], H(u + 1),
                [0x5c, 0xcf], H(tp), [0x20], ("r", "a")])


def prog_z80(u, rp, tp, end, w):
    return asm(["a:", [0x3a], L(u + 5), [0x1f, 0x30], ("r", "b"), [0x3a], L(u), [0x2a], L(rp), [0x77, 0x23, 0x22], L(rp), "b:", [0] * w,
                [0x3a], L(u + 5), [0xe6, 0x20, 0x28], ("r", "a"), [0x2a], L(tp), [0x11], L(end), [0xb7, 0xed, 0x52, 0x28], ("r", "a"),
                [0x19, 0x7e, 0x32], L(u), [0x23, 0x22], L(tp), [0x18], ("r", "a")])


def prog_s51(u, rp, tp, end, w):
    # R0: receive buffer, DPTR: data, 7f: high byte of the end
    return asm(["a:", [0x30, 0x98], ("r", "b"), [0xc2, 0x98, 0xe5, 0x99, 0xf6, 0x08], "b:", [0] * w,
                [0x30, 0x99], ("r", "a"), [0xe5, 0x82, 0xb4, end & 255], ("r", "c"), [0xe5, 0x83, 0xb4, end >> 8], ("r", "c"), [0x80], ("r", "a"),
                "c:", [0xc2, 0x99, 0xe4, 0x93, 0xa3, 0xf5, 0x99, 0x80], ("r", "a")])


SIMS = {
    "m6800": dict(args=["-t", "6800"], prog=prog_m6800, uarts=[0x8000, 0x8008], code=0x1000, buf=0x2000, tab=0x3000, ptr=0x100, be=True, name="uart%d"),
    "m6809": dict(args=[], prog=prog_m6809, uarts=[0xc000, 0xc008], code=0x1000, buf=0x2000, tab=0x3000, ptr=0x100, be=True, name="uart%d"),
    "stm8": dict(args=["-t", "STM8S"], prog=prog_stm8, uarts=[0x5230], ids=[1], code=0x600, buf=0x200, tab=0x400, ptr=0x100, be=True, name="uart%d"),
    "z80": dict(args=[], prog=prog_z80, uarts=[0xe000], code=0x1000, buf=0x2000, tab=0x3000, ptr=0x100, be=False, name="pc16550%d"),
    "s51": dict(args=["-t", "52"], prog=prog_s51, uarts=[0], code=0x1000, buf=0x30, tab=0x2000, ptr=None, name="uart%d"),
}
MAX = 120


def converted(data, nl):
    """what the processor gets"""
    out = []
    if nl & 255 == 0:
        return list(data)
    seq = []
    while nl & 255 and len(seq) < 3:
        seq.append(nl & 255)
        nl >>= 8
    skip = None
    for c in data:
        if skip is not None and c == skip:
            skip = None
            continue
        skip = None
        if c in (10, 13):
            out += seq
            skip = 23 - c
        else:
            out.append(c)
    return out


class C(Check):
    id = "C17"
    sims = sorted(SIMS)
    n_quick = 1200
    n_thorough = 40000
    unit_name = "bytes carried"
    rule = ("a case is a program that polls a UART, sends 0..100 bytes and receives a file of 0..100 bytes, run in pieces; "
            "non-trivial when at least 3 bytes are carried")

    def gen(self, d):
        sim = d.choice(sorted(SIMS))
        case = {"sim": sim, "u": d.below(len(SIMS[sim]["uarts"]))}
        case["tx"] = [d.edge(8) for i in range(d.int(0, 60))]
        pool = d.choice([None, [10, 13, 65], [10, 13], [13, 10, 24, 255, 0]])
        case["rx"] = [d.choice(pool) if pool else d.edge(8) for i in range(d.int(0, 60))]
        case["nl"] = d.choice([None, None, 0, 0, 10, 13, 0x0a0d, 0x0d0a, 0x636261])
        case["raw"] = d.bool(0.7)
        if not case["raw"]:
            # (a line which is not raw talks telnet)
            case["rx"] = [x if 8 <= x < 127 else 65 for x in case["rx"]]
        case["late"] = [d.bool(0.2), d.bool(0.2)]
        case["w"] = d.choice([0, 0, 0, 1, 3])
        case["flow"] = False
        if sim == "s51":
            case["mode"] = d.below(4)
            case["smod"] = d.below(2)
            case["t2"] = d.bool(0.4)
            case["rel"] = d.choice([0xfd, 0xf4, 0xe8, 0xfa, 0xff, d.int(0xd0, 0xff)])
            case["sm"] = d.bool(0.5)
        elif sim in ("m6800", "m6809"):
            case["cr"] = d.choice([1, 2, 2]) | d.below(8) << 2
        elif sim == "stm8":
            case["brr"] = [d.int(1, 20) if d.bool(0.8) else d.int(0, 40), d.below(16)]
        else:
            case["dl"] = d.int(1, 300)
            case["flow"] = True
        if d.bool(0.25):
            case["flow"] = True
            if d.bool():
                case["w"] = d.choice([10, 40])
        case["cuts"] = [d.choice(["step", "run", "look"]) for i in range(d.int(0, 5))]
        case["part"] = [d.int(1, 100) for i in case["cuts"]]
        return case

    def run(self, case):
        sim = case["sim"]
        c = SIMS[sim]
        u = c["uarts"][case["u"]]
        uid = c.get("ids", range(9))[case["u"]]
        o = Outcome()
        sc = S.Script()
        code, tab, buf, ptr = c["code"], c["tab"], c["buf"], c["ptr"]
        tx = case["tx"]
        end = tab + len(tx)
        prog = c["prog"](u, ptr, ptr + 2 if ptr is not None else None, end, case["w"])
        space = "rom"
        sc("set mem rom %d %s" % (code, " ".join(map(str, prog))))
        if tx:
            sc("set mem rom %d %s" % (tab, " ".join(map(str, tx))))
        if ptr is not None:
            two = H if c["be"] else L
            sc("set mem rom %d %s" % (ptr, " ".join(map(str, two(buf) + two(tab)))))
        name = c["name"] % uid
        if sim == "z80":
            sc("set hw pc16550[0] rom %d" % u)
        if case["nl"] is not None:
            sc("expr /n %s_nl=%d" % (name, case["nl"]))
        sc("expr /n %s_check_often=1" % name, "expr /n %s_flowctrl=%d" % (name, case["flow"]))
        expect = converted(case["rx"], 10 if case["nl"] is None else case["nl"])
        if sim == "s51" and len(expect) > MAX:
            expect = None
        args = list(c["args"])
        sub = ["uart=%d" % uid]
        hw = name[:-1]
        if not case["late"][0]:
            sub.append("in=i.dat")
        if not case["late"][1]:
            sub.append("out=o.dat")
        if case["raw"] and len(sub) > 1:
            sub.append("raw")
        if len(sub) > 1:
            args += ["-S", ",".join(sub)]
        elif case["raw"]:
            sc("set hw %s[%d] raw 1" % (hw, uid))
        if case["late"][0]:
            sc('set hw %s[%d] in "i.dat"' % (hw, uid))
        if case["late"][1]:
            sc('set hw %s[%d] out "o.dat"' % (hw, uid))
        # the line
        loop = {"m6800": 75, "m6809": 75, "stm8": 40, "z80": 200, "s51": 12 * 32}[sim] + case["w"] * {"s51": 12, "z80": 4, "stm8": 1}.get(sim, 2)
        buffered = True
        if sim == "s51":
            buffered = False
            m = case["mode"]
            sm = 2 if case["smod"] else 1
            bits = {0: 8, 1: 10, 2: 11, 3: 11}[m]
            sc("expr /n PCON=%d" % (0x80 if case["smod"] else 0))
            if m in (0, 2):
                frame = {0: 8 * 12, 2: 11 * 32 // sm}[m]
            elif case["t2"]:
                rel = 0xff00 | case["rel"]
                sc("expr /n RCAP2H=255", "expr /n RCAP2L=%d" % case["rel"], "expr /n TH2=255", "expr /n TL2=%d" % case["rel"])
                sc("expr /n T2CON=0x34")
                frame = bits * 16 * 2 * (65536 - rel)
            else:
                sc("expr /n TMOD=0x20", "expr /n TH1=%d" % case["rel"], "expr /n TL1=%d" % case["rel"], "expr /n TCON=0x40")
                frame = bits * 32 // sm * 12 * (256 - case["rel"])
            sc("expr /n SCON=%d" % (m << 6 | 0x12), "expr /n R0=%d" % buf, "expr /n DPL=%d" % (tab & 255), "expr /n DPH=%d" % (tab >> 8))
        elif sim in ("m6800", "m6809"):
            cr = case["cr"]
            sc("expr /n rom[%d]=3" % u, "expr /n rom[%d]=%d" % (u, cr))
            frame = {1: 16, 2: 64}[cr & 3] * [10, 10, 9, 9, 10, 9, 10, 10][cr >> 2 & 7]
        elif sim == "stm8":
            b1, b2 = case["brr"]
            sc("expr /n rom[%d]=%d" % (u + 3, b2), "expr /n rom[%d]=%d" % (u + 2, b1), "expr /n rom[%d]=0x0c" % (u + 5))
            frame = 10 * max(1, b1 << 4 | b2)
        else:
            dl = case["dl"]
            sc("expr /n rom[%d]=0x83" % (u + 3), "expr /n rom[%d]=%d" % (u, dl & 255), "expr /n rom[%d]=%d" % (u + 1, dl >> 8), "expr /n rom[%d]=3" % (u + 3))
            frame = 100
        # (flow control stops the line between the bytes of the file only)
        lossless = case["flow"] and (case["nl"] or 0) < 256 or frame > 1.3 * loop
        slow = max(frame, 0) + loop
        n = max(len(tx), len(expect or case["rx"]) * 1.15 + 2) + 4
        total = int(n * slow) + 20 * loop
        unit = {"s51": 12, "z80": 4}.get(sim, 2)
        # no instruction is shorter than a clock unit
        steps = total // {"s51": 12, "z80": 4, "stm8": 1, "m6809": 1}.get(sim, 2) + 50
        sc("pc %d" % code)
        bt = sc("expr sim_ticks")
        left = steps
        marks = []
        w = sum(case["part"]) + 50
        for k, p in zip(case["cuts"], case["part"]):
            m = steps * p // w
            if k == "run":
                sc("tbreak %d %d" % (code, max(1, m // 20)), "run")
            elif k == "look":
                sc("info hw %s[%d]" % (hw, uid), "dump rom %d %d" % (code, code + 9))
            else:
                sc("step %d" % max(1, m))
            marks.append(self.mark(sc, sim, ptr))
        sc("step %d" % steps)
        marks.append(self.mark(sc, sim, ptr))
        bd = sc(*["expr %s[%d]" % ("iram" if sim == "s51" else "rom", buf + i) for i in range(min(MAX, len(expect or [])))])
        r = sc.run(sim, args=args, files={"i.dat": bytes(case["rx"])}, want=["o.dat"])
        o.units = len(tx) + len(case["rx"])
        if not S.health(r, o, sim):
            return o
        what = "%s uart %d, %s" % (sim, uid, {k: v for k, v in case.items() if k not in ("tx", "rx", "cuts", "part", "sim")})
        got = r.files.get("o.dat")
        if got is None:
            o.fail("file", "%s: no output file" % what)
            return o
        got = list(got)
        if got != tx:
            k = "lost" if len(got) < len(tx) and got == tx[:len(got)] else "sent"
            o.fail("tx/" + k, "%s: sent %s, the file holds %s" % (what, tx, got))
            return o
        o.label(sim + ("-tx" if tx else "-idle"))
        try:
            t0 = int(r.blocks[bt][-1])
            vals = [[int(x) for x in r.blocks[m][-3:]] for m in marks]
        except (ValueError, IndexError):
            o.fail("output", "%s: %s" % (what, [r.blocks[m][-3:] for m in marks]))
            return o
        if lossless and expect is not None:
            o.label(sim + "-rx")
            n = vals[-1][1] - buf
            have = [int(x) & 255 for x in r.blocks[bd]]
            if n != len(expect) or have != expect[:MAX]:
                o.fail("rx", "%s: received %d bytes %s; the file %s should give %d bytes %s" % (what, n, have[:max(n, 0)], case["rx"], len(expect), expect))
                return o
        if sim != "z80":
            for t, rp, tp in vals:
                t -= t0
                ns, nr = tp - tab, rp - buf
                if sim == "s51":
                    ns = max(0, ns)
                lo, hi = t / (frame + (0 if buffered and frame > 1.3 * loop else loop + 24)) - 2, t / frame + 3
                if not (min(lo, len(tx)) <= ns <= hi):
                    o.fail("rate/tx", "%s: %d bytes sent in %d clocks, a byte takes %d" % (what, ns, t, frame))
                    return o
                if lossless and not case["flow"] and expect is not None:
                    lo, hi = t / (frame * 1.15 + 24 * (12 if sim == "s51" else 1)) - 2, t / frame + 2
                    if not (min(lo, len(expect)) <= nr <= hi):
                        o.fail("rate/rx", "%s: %d bytes received in %d clocks, a byte takes %d" % (what, nr, t, frame))
                        return o
            o.label(sim + "-rate")
        o.nontrivial = len(tx) + len(case["rx"]) > 2
        return o

    def mark(self, sc, sim, ptr):
        if sim == "s51":
            return sc("expr sim_ticks", "expr R0", "expr DPL+256*DPH")
        q = "rom[%d]*256+rom[%d]" if sim != "z80" else "rom[%d]+256*rom[%d]"
        return sc("expr sim_ticks", "expr " + q % (ptr, ptr + 1), "expr " + q % (ptr + 2, ptr + 3))


CHECK = C()

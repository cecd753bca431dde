"""VCD recording and replay against a model of the recorded history."""
import re
from ..engine import Check, Outcome
from .. import sim as S

SIMS = {
    # NOP, its address, spaces of the recorded cells, code of a store
    "s51": dict(args=["-t", "C52"], nop=0, at=0x1000, sp=[("iram", 8, 0x30, 0x7f), ("xram", 8, 0, 0xffff)],
                store=lambda sp, a, v: [0x75, a, v] if sp == "iram" else None, pre=lambda v: []),
    "z80": dict(args=[], nop=0, at=0x1000, sp=[("rom", 8, 0x4000, 0xefff)],
                store=lambda sp, a, v: [0x32, a & 255, a >> 8], pre=lambda v: ["expr /n A=%d" % v]),
    "stm8": dict(args=[], nop=0x9d, at=0x800, sp=[("rom", 8, 0x100, 0x3ff)],
                 store=lambda sp, a, v: [0x35, v, a >> 8, a & 255], pre=lambda v: []),
    "avr": dict(args=[], nop=0, at=0x1000, sp=[("iram", 8, 0x100, 0xfff)], store=lambda sp, a, v: None, pre=lambda v: []),
}
XTALS = [None, 1000000, 8000000, 12000000, 32768, 25175000, 4000000]
UNITS = {"ms": 1e-3, "us": 1e-6, "ns": 1e-9, "ps": 1e-12, "fs": 1e-15}
NAMES = ["v0", "v1", "sig", "clk", "Out_2", "_q"]


class C(Check):
    id = "C18"
    sims = sorted(SIMS)
    n_quick = 8000
    n_thorough = 200000
    unit_name = "operations"
    rule = ("a case is 3..50 operations: recording with one or two files or replay of a generated file; non-trivial when at "
            "least two changes of a recorded cell or two replayed changes at different times")

    def gen(self, d):
        sim = d.choice(sorted(SIMS))
        c = SIMS[sim]
        cells = []
        for i in range(d.int(2, 5)):
            sp, b, lo, hi = d.choice(c["sp"] + [("variables", 32, 0, 20)])
            a = d.int(lo, hi)
            if (sp, b, a) not in cells:
                cells.append((sp, b, a))
        names = [d.choice(NAMES) + str(i) if d.bool(0.4) else None for i in range(len(cells))]
        case = {"sim": sim, "cells": cells, "names": names, "xtal": d.choice(XTALS)}
        if d.bool(0.35):
            case["xtal"] = case["xtal"] or 11059200
            return self.gen_in(d, case)
        ops = []
        for i in range(d.int(1, 5)):
            ops.append(self.addop(d, cells))
        if d.bool(0.3):
            ops.append(["ts", d.below(2), d.choice([1, 10, 100]), d.choice(["us", "ns", "ps", "fs"])])
        if d.bool(0.3):
            ops.append(["pt", d.below(2), d.int(0, 40), d.choice(["us", "ns", "ms"])])
        ops.append(["start", d.below(2)])
        for i in range(d.int(3, 45)):
            k = d.below(20)
            ci = d.below(len(cells))
            b = cells[ci][1]
            if k < 5:
                ops.append(["adv", d.choice([1, 1, 2, 3, d.int(1, 200)])])
            elif k < 10:
                ops.append(["wr", ci, d.edge(b)])
            elif k < 11:
                h, l = d.below(b), d.below(b)
                ops.append(["bits", ci, max(h, l), min(h, l), d.edge(b)])
            elif k < 14:
                ops.append(["istore", ci, d.edge(8)])
            elif k < 15:
                ops.append(self.addop(d, cells))
            elif k < 16:
                ops.append(["del"] + self.addop(d, cells)[1:])
            elif k < 19:
                ops.append([d.choice(["start", "pause", "pause", "restart", "stop", "start"]), d.below(2)])
            else:
                ops.append(["pt", d.below(2), d.int(0, 40), d.choice(["us", "ns", "ms"])])
        case["ops"] = ops
        return case

    def addop(self, d, cells):
        ci = d.below(len(cells))
        b = cells[ci][1]
        f = d.below(4)
        h, l = d.below(b), d.below(b)
        if f < 1:
            h = l = -1
        elif f == 1:
            h = l
        return ["add", d.below(2), ci, max(h, l), min(h, l)]

    def gen_in(self, d, case):
        ev = []
        t = 0
        for i in range(d.int(1, 25)):
            t += d.choice([0, 1, 1, 2, 5, d.int(1, 60)])
            ci = d.below(len(case["cells"]))
            ev.append((t, ci, d.edge(case["cells"][ci][1])))
        case["ev"] = ev
        case["scale"] = d.choice([["1fs", 1], ["1 fs", 1], ["10 fs", 10], ["100fs", 100], ["1ps", 1000], ["1 ps", 1000]])
        case["short"] = d.bool()
        case["bits"] = []
        for sp, b, a in case["cells"]:
            h, l = d.below(b), d.below(b)
            case["bits"].append([max(h, l), min(h, l)] if d.bool(0.4) else [-1, -1])
        ops = []
        for i in range(d.int(3, 25)):
            k = d.below(12)
            if k < 6:
                ops.append(["adv", d.choice([1, 1, 2, 3, d.int(1, 80)])])
            elif k < 8:
                ops.append(["run"])
            elif k < 9:
                ops.append(["shift", d.int(1, 20)])
            elif k < 11:
                ops.append([d.choice(["pause", "restart"])])
            else:
                ops.append(["wr", d.below(len(case["cells"])), d.edge(8)])
        ops.insert(d.below(4), ["start"])
        case["ops"] = ops
        return case

    def text(self, case, bits):
        names = {}
        for i, (sp, b, a) in enumerate(case["cells"]):
            names[i] = case["names"][i]
        return names

    def run(self, case):
        sim = case["sim"]
        c = SIMS[sim]
        args = list(c["args"])
        if case["xtal"]:
            args += ["-X", str(case["xtal"])]
        sc = S.Script()
        sc("fill rom %d %d %d" % (c["at"] - 8, c["at"] + 0x300, c["nop"]), "set hw vcd[0] new 1")
        for sp, b, a in case["cells"]:
            sc("expr /n %s[%d]=0" % (sp, a))
        if "ev" in case:
            return self.replay(case, sc, c, args)
        o = Outcome()
        for n, (sp, b, a) in zip(case["names"], case["cells"]):
            if n:
                sc("var %s %s %d" % (n, sp, a))
        bt = sc("expr sim_ticks", "expr sim_xtal")
        log = []
        started = [False, False]
        runs = [0, 0]
        files = []
        for op in case["ops"]:
            k = op[0]
            tk = None
            if k == "adv":
                tk = sc("pc %d" % c["at"], "step %d" % op[1], "expr sim_ticks")
            elif k == "wr":
                sp, b, a = case["cells"][op[1]]
                sc("expr /n %s[%d]=%d" % (sp, a, op[2]))
            elif k == "bits":
                sp, b, a = case["cells"][op[1]]
                ci, h, l, v = op[1:]
                if h - l > 30:
                    continue
                sc("expr /n %s[%d][%d:%d]=%d" % (sp, a, h, l, v & ((1 << (h - l + 1)) - 1)))
            elif k == "istore":
                sp, b, a = case["cells"][op[1]]
                code = c["store"](sp, a, op[2]) if sp != "variables" else None
                if code is None:
                    continue
                sc(*["fill rom %d %d %d" % (c["at"] + 0x200 + i, c["at"] + 0x200 + i, x) for i, x in enumerate(code)])
                tk = sc(*(c["pre"](op[2]) + ["pc %d" % (c["at"] + 0x200), "step", "expr sim_ticks"]))
            elif k in ("add", "del"):
                i, ci, h, l = op[1:]
                sp, b, a = case["cells"][ci]
                t = "%s %s %d" % (k, sp, a)
                if h >= 0:
                    t += " %d %d" % (h, l) if h != l else " %d" % h
                sc("set hw vcd[%d] %s" % (i, t))
            elif k in ("ts", "pt"):
                if k == "ts" and started[op[1]]:
                    continue
                sc("set hw vcd[%d] %s %d %s" % (op[1], "timescale" if k == "ts" else "pausetime", op[2], op[3]))
            else:
                i = op[1]
                if k in ("start", "restart") and not started[i]:
                    fn = "o%d_%d.vcd" % (i, runs[i])
                    runs[i] += 1
                    files.append(fn)
                    sc('set hw vcd[%d] output "%s"' % (i, fn))
                    started[i] = True
                if k == "stop":
                    started[i] = False
                sc("set hw vcd[%d] %s" % (i, k))
            log.append((op, tk))
        for i in (0, 1):
            sc("set hw vcd[%d] stop" % i)
        log.append((["stop", 0], None))
        log.append((["stop", 1], None))
        r = sc.run(sim, args=args, want=files)
        o.units = len(log)
        if not S.health(r, o, sim):
            return o
        try:
            t0, xtal = [int(x) for x in r.blocks[bt]]
        except ValueError:
            o.fail("output", "no time: %s" % r.blocks[bt])
            return o
        self.model(case, log, r, t0, xtal, o)
        return o

    def model(self, case, log, r, now, xtal, o):
        mem = {i: 0 for i in range(len(case["cells"]))}
        V = [dict(vars=[], on=False, paused=False, ts=None, pt=None, n=0), dict(vars=[], on=False, paused=False, ts=None, pt=None, n=0)]
        lo = now
        nontriv = 0

        def rep(v, ci, h, l, val):
            # a change between the clocks lo and now
            x = val >> l & ((1 << (h - l + 1)) - 1) if val is not None else None
            v["ev"].setdefault((ci, h, l), []).append((lo / xtal - v["base"], now / xtal - v["base"], x))

        for op, tk in log:
            k = op[0]
            lo = now
            if tk is not None:
                try:
                    now = int(r.blocks[tk][-1])
                except (ValueError, IndexError):
                    o.fail("output", "no time: %s" % r.blocks[tk][-3:])
                    return
            if k in ("wr", "bits", "istore"):
                ci = op[1]
                b = case["cells"][ci][1]
                if k == "bits":
                    m = (1 << (op[2] - op[3] + 1)) - 1
                    mem[ci] = mem[ci] & ~(m << op[3]) | (op[4] & m) << op[3]
                else:
                    mem[ci] = op[2] & ((1 << b) - 1)
                for v in V:
                    if v["on"] and not v["paused"]:
                        for (c2, h, l) in v["vars"]:
                            if c2 == ci:
                                rep(v, ci, h, l, mem[ci])
                                nontriv += 1
                o.label(k)
            elif k in ("add", "del"):
                v = V[op[1]]
                ci, h, l = op[2:]
                if h < 0:
                    h, l = case["cells"][ci][1] - 1, 0
                x = (ci, h, l)
                if k == "add" and not v["on"] and x not in v["vars"]:
                    v["vars"].append(x)
                elif k == "del" and x in v["vars"]:
                    v["vars"].remove(x)
                o.label(k)
            elif k == "ts":
                V[op[1]]["ts"] = op[2] * UNITS[op[3]]
            elif k == "pt":
                V[op[1]]["pt"] = op[2] * UNITS[op[3]]
            elif k in ("start", "restart"):
                v = V[op[1]]
                if not v["on"]:
                    v["on"], v["paused"] = True, False
                    v["base"] = now / xtal
                    v["ev"] = {}
                    v["head"] = list(v["vars"])
                    for x in v["vars"]:
                        rep(v, *x, mem[x[0]])
                elif v["paused"]:
                    v["paused"] = False
                    gap = now / xtal - v["pat"]
                    if v["pt"] is not None:
                        gap = min(gap, v["pt"])
                    v["base"] = now / xtal - (v["pat"] + gap - v["base"])
                    for x in v["vars"]:
                        rep(v, *x, mem[x[0]])
                    o.label("unpause")
            elif k == "pause":
                v = V[op[1]]
                if v["on"] and not v["paused"]:
                    v["paused"] = True
                    v["pat"] = now / xtal
                    for x in v["vars"]:
                        rep(v, *x, None)
                elif v["on"]:
                    # pause again: goes on
                    v["paused"] = False
                    gap = now / xtal - v["pat"]
                    if v["pt"] is not None:
                        gap = min(gap, v["pt"])
                    v["base"] = now / xtal - (v["pat"] + gap - v["base"])
                    for x in v["vars"]:
                        rep(v, *x, mem[x[0]])
            elif k == "stop":
                v = V[op[1]]
                if v["on"]:
                    fn = "o%d_%d.vcd" % (op[1], v["n"])
                    v["n"] += 1
                    bad = self.compare(case, v, r.files.get(fn), now / xtal - v["base"], v["ts"], xtal)
                    if bad:
                        o.fail("record/%s" % bad[0], "%s, xtal %d, vars %s: %s" % (fn, xtal, v["head"], bad[1]))
                        return
                v["on"] = v["paused"] = False
        o.nontrivial = nontriv > 1

    def compare(self, case, v, data, end, ts, xtal):
        if data is None:
            return "file", "no file"
        tok = data.decode("latin-1").split()
        ids = {}
        scale = None
        i = 0
        heads = []
        while i < len(tok):
            t = tok[i]
            if t == "$timescale":
                m = re.match(r"^(\d+)(\w+)$", tok[i + 1])
                if not m:
                    return "timescale", tok[i + 1]
                scale = int(m.group(1)) * UNITS[m.group(2)]
            if t == "$var":
                w, vid, name = int(tok[i + 2]), tok[i + 3], tok[i + 4]
                if vid in ids:
                    return "id", "id %s twice" % vid
                ids[vid] = len(heads)
                heads.append((w, name))
            i += 1
            if t == "$enddefinitions":
                break
        if ts is not None and (scale is None or abs(scale - ts) > ts * 1e-6):
            return "timescale", "time scale %s, set %s" % (scale, ts)
        if scale is None or scale > 1 / xtal:
            if ts is None:
                return "timescale", "time scale %s does not resolve the clock of %d Hz" % (scale, xtal)
        if len(heads) != len(v["head"]):
            return "vars", "%s variables" % len(heads)
        want = []
        for ci, h, l in v["head"]:
            sp, b, a = case["cells"][ci]
            n = case["names"][ci]
            w = h - l + 1
            suf = ".%d" % h if h == l else "" if w == b else "[%d:%d]" % (h, l)
            want.append((w, n, sp, a, suf))
        for (w, name), (ww, n, sp, a, suf) in zip(heads, want):
            if w != ww:
                return "width", "width %d, expected %d" % (w, ww)
            if n:
                ok = name == n + suf
            else:
                m = re.match(r"^%s_(0x[0-9a-f]+)%s$" % (sp, re.escape(suf)), name)
                ok = m and int(m.group(1), 16) == a
            if not ok:
                return "name", "name %s, expected %s %s" % (name, n or "%s_%#x" % (sp, a), suf)
        got = {}
        t = 0
        last = 0
        while i < len(tok):
            x = tok[i]
            i += 1
            if x == "$comment":
                while tok[i] != "$end":
                    i += 1
                i += 1
            elif x[0] == "$":
                continue
            elif x[0] == "#":
                t = int(x[1:])
                if t < last:
                    return "time", "time goes back at %s" % x
                last = t
            else:
                if x[0] == "b":
                    val, vid = x[1:], tok[i]
                    i += 1
                else:
                    val, vid = x[0], x[1:]
                if vid not in ids:
                    return "id", "unknown id %r" % vid
                if len(val) != heads[ids[vid]][0]:
                    return "width", "%s has %d bits" % (x, len(val))
                got.setdefault(ids[vid], []).append((t * scale, None if "x" in val else int(val, 2)))
        if abs(t * scale - end) > 1.01 * scale + 1e-9 * end:
            return "end", "ends at %g, expected %g" % (t * scale, end)
        for j, x in enumerate(v["head"]):
            g, e = got.get(j, []), v["ev"].get(x, [])
            for q in range(max(len(g), len(e))):
                if q >= len(g):
                    return "missing", "variable %d: change %s is missing (%d changes)" % (j, e[q], len(g))
                if q >= len(e):
                    return "extra", "variable %d: change %s should not be there" % (j, g[q])
                tol = 1.01 * scale + 1e-9 * abs(e[q][1])
                if g[q][1] != e[q][2] or not e[q][0] - tol <= g[q][0] <= e[q][1] + tol:
                    return "value", "variable %d: change %d is %s, expected %s" % (j, q, g[q], e[q])
        return None

    # ---- replay of a file

    def replay(self, case, sc, c, args):
        o = Outcome()
        sim = case["sim"]
        xtal = case["xtal"]
        # events come at odd quarters of clocks
        tick = 1 / xtal
        fs = int(round(tick * 1e12 / 4)) * 1000         # quarter of a clock in fs
        sct, scf = case["scale"]
        h = ["$timescale %s $end" % sct, "$scope module x $end"]
        for i, ((sp, b, a), (hi, lo)) in enumerate(zip(case["cells"], case["bits"])):
            n = "n%d" % i
            sc("var %s %s %d%s" % (n, sp, a, "" if hi < 0 else " %d %d" % (hi, lo)))
            h.append("$var wire %d %s %s $end" % (b if hi < 0 else hi - lo + 1, chr(33 + i), n))
        h += ["$upscope $end", "$enddefinitions $end"]
        last = None
        evs = []
        for t, ci, v in case["ev"]:
            hi, lo = case["bits"][ci]
            w = case["cells"][ci][1] if hi < 0 else hi - lo + 1
            v &= (1 << w) - 1
            T = (4 * t + 1) * fs
            if T != last:
                h.append("#%d" % (T // scf))
                last = T
            if w == 1:
                h.append("%d%s" % (v, chr(33 + ci)))
            else:
                # (leading zeros may be left)
                h.append("b%s %s" % (format(v, "b" if case["short"] else "0%db" % w), chr(33 + ci)))
            evs.append((T * 1e-15, ci, v))
        sc('set hw vcd[0] input "i.vcd"', "break %d" % (c["at"] + 0x2f0))
        bt = sc("expr sim_ticks", "expr sim_xtal", "pc %d" % c["at"])
        log = []
        q = ["expr sim_ticks"] + ["expr %s[%d]" % (sp, a) for sp, b, a in case["cells"]]
        for op in case["ops"]:
            k = op[0]
            if k == "adv":
                b = sc("pc %d" % c["at"], "step %d" % op[1], *q)
            elif k == "run":
                b = sc("pc %d" % c["at"], "set hw vcd[0] break", "run", "set hw vcd[0] break", *q)
            elif k == "shift":
                b = sc("set hw vcd[0] starttime %d ps" % (op[1] * 4 * fs // 1000), *q)
            elif k == "wr":
                sp, _, a = case["cells"][op[1]]
                b = sc("expr /n %s[%d]=%d" % (sp, a, op[2]), *q)
            else:
                b = sc("set hw vcd[0] %s" % k, *q)
            log.append((op, b))
        r = sc.run(sim, args=args, files={"i.vcd": "\n".join(h) + "\n"})
        o.units = len(log)
        if not S.health(r, o, sim):
            return o
        n = len(case["cells"])
        try:
            now, x = [int(y) for y in r.blocks[bt][:2]]
        except ValueError:
            o.fail("output", "no time: %s" % r.blocks[bt])
            return o
        if x != xtal:
            o.fail("xtal", "xtal is %d, expected %d" % (x, xtal))
            return o
        mem = [0] * n
        base = 0.0
        state = "off"
        pat = 0
        pend = list(evs)
        times = set()
        for op, b in log:
            k = op[0]
            o.label("in-" + k)
            bl = r.blocks[b]
            try:
                vals = [int(y) for y in bl[-n - 1:]]
            except ValueError:
                o.fail("output", "%s: %s" % (op, bl[-n - 1:]))
                return o
            old, now = now, vals[0]
            if k == "wr":
                mem[op[1]] = op[2] & ((1 << case["cells"][op[1]][1]) - 1)
            elif k == "shift":
                base += op[1] * 4 * (fs // 1000) * 1e-12
            elif k == "start" or (k == "restart" and state == "off"):
                if state == "off":
                    base += now * tick
                elif state == "paused":
                    base += (now - pat) * tick
                state = "on"
            elif k == "restart":
                if state == "paused":
                    base += (now - pat) * tick
                state = "on"
            elif k == "pause":
                if state == "on":
                    state = "paused"
                    pat = now
                elif state == "paused":
                    base += (now - pat) * tick
                    state = "on"
            else:
                lim = now * tick
                if state == "on":
                    due = [e for e in pend if e[0] + base < lim]
                    if k == "run" and due:
                        # must have stopped right after the first event
                        first = due[0][0] + base
                        # length of an instruction
                        per = 12 if sim == "s51" else 4 if sim == "z80" else 1
                        # (an event which was already due comes with the first instruction)
                        if (now - per) * tick > max(first, old * tick) + 1e-9 * tick:
                            o.fail("replay/late", "event at clock %.2f stopped the run at clock %d; %s" % (first / tick, now, case["ops"]))
                            return o
                        o.label("in-break")
                    for t, ci, v in due:
                        hi, lo = case["bits"][ci]
                        if hi < 0:
                            mem[ci] = v
                        else:
                            m = (1 << (hi - lo + 1)) - 1
                            mem[ci] = mem[ci] & ~(m << lo) | v << lo
                        times.add(t)
                    pend = pend[len(due):]
                    if k == "run" and not due and now - old < 0x100:
                        o.fail("replay/early", "run stopped at clock %d without an event" % now)
                        return o
            got = [vals[1 + i] & ((1 << case["cells"][i][1]) - 1) for i in range(n)]
            if got != mem:
                o.fail("replay/value", "after %s at clock %d: cells %s, expected %s; start %.2f, events %s" % (
                    case["ops"][:case["ops"].index(op) + 1], now, got, mem, base / tick, [(round(e[0] / tick, 2), e[1], e[2]) for e in evs][:12]))
                return o
        o.nontrivial = len(times) > 1
        return o


CHECK = C()

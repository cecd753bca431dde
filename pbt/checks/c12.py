"""Clocks, counters and timers."""
import re
from ..engine import Check, Outcome
from .. import prog, sim as S

# clocks of one machine cycle
CPC = {"s51": 12}
# load instructions whose data access is not counted (recorded from the documentation: all count)
TIMER = re.compile(r'^timer #(\d+)\("([^"]*)"\) (ON|OFF)(?:,(\w+))? (-?[0-9.]+) sec \((\d+) clks\)')
STATE = [("freq", re.compile(r"frequency= (\d+) HZ")), ("vclk", re.compile(r"^Operation since last reset= (\d+) vclks")),
         ("cnt", re.compile(r"^Inst= (\d+) Fetch= (\d+) Read= (\d+) Write= (\d+)")),
         ("time", re.compile(r"^Total time since last reset= ([0-9.]+) sec \((\d+) clks\)")),
         ("isr", re.compile(r"^Time in isr = ([0-9.]+) sec \((\d+) clks\)")),
         ("idle", re.compile(r"^Time in idle= ([0-9.]+) sec \((\d+) clks\)"))]
XTALS = [1000000, 11059200, 8000000, 32768, 250000, 4000000, 1, 20000000, 12345678]
UNITS = ["clk", "vclk", "fclk", "fetch", "rclk", "read", "wclk", "write", "sec", "s", "ms", "msec", "us", "usec", "ns", "nsec"]
SCALE = {"s": 1.0, "ms": 1e-3, "us": 1e-6, "ns": 1e-9}


def parse_state(lines):
    d = {}
    for l in lines:
        for k, rx in STATE:
            x = rx.search(l)
            if x:
                d[k] = x.groups()
    return d


def close(a, b, n=1):
    return abs(a - b) <= 2e-15 * (n + 2) + 1e-10 * abs(b)


class C12(Check):
    id = "C12"
    sims = list(prog.CPUS)
    n_quick = 4500
    n_thorough = 60000
    unit_name = "commands"
    rule = "instructions were executed while at least one user timer existed, or by a step given in clocks or time"
    limit = 250

    def gen(self, d):
        while True:
            p = prog.gen_prog(d, nmax=8)
            P = prog.Prog(p)
            t = P.trace(self.limit)
            if t is not None:
                break
        ops = []
        names = ["foo", "bar", "x1"]
        for _ in range(d.int(4, 22)):
            k = d.weighted([(5, "step"), (3, "unit"), (2, "run"), (1, "pc"), (3, "add"), (1.5, "del"), (2, "set"),
                            (1.5, "stop"), (1.5, "start"), (3, "get"), (3, "list"), (3, "state"), (0.7, "xtal"), (0.7, "brk")])
            ident = d.choice(names + [5, 6, 7, 9]) if d.bool(0.85) else d.choice(["nosuch", "time", 1, 8, 25])
            if k == "step":
                ops.append([k, d.weighted([(4, 1), (3, 2), (2, 7), (1, 40)])])
            elif k == "unit":
                u = d.choice(UNITS)
                ops.append([k, d.size(1, 400), u])
            elif k == "add":
                ops.append([k, ident, d.weighted([(4, None), (2, 1), (3, -1), (1, 0)]),
                            d.weighted([(6, None), (1, "isr"), (1, "idle"), (1, "halt")])])
            elif k == "set":
                f = d.choice(["t", "u", "tu"])
                ops.append([k, ident, f, d.choice([0, 1, 100, 65536, 123456789]), d.size(0, 1000), d.choice(["s", "ms", "us", "ns"])])
            elif k in ("del", "stop", "start", "get"):
                ops.append([k, ident])
            elif k == "xtal":
                ops.append([k, d.choice(XTALS)])
            elif k == "brk":
                ops.append([k, d.choice([x[0] for x in t])])
            else:
                ops.append([k])
        return dict(prog=p, ops=ops, xtal=d.choice(XTALS))

    # -- first pass: what every instruction of the program takes
    def measure(self, case, P, t, o):
        sc = S.Script()
        sc(*P.load())
        b = [sc("state")]
        for _ in t:
            b.append(sc("step", "state"))
        r = sc.run(P.cpu.sim, args=list(P.cpu.args), timeout=60)
        if not S.health(r, o, P.cpu.sim):
            return None
        prev = None
        out = []
        cpc = CPC.get(P.cpu.sim, 1)
        for k, i in enumerate(b):
            s = parse_state(r.blocks[i])
            if len(s) != len(STATE):
                o.fail("state", "state printed %r" % (r.blocks[i][-12:],))
                return None
            cur = [int(x) for x in s["cnt"]] + [int(s["time"][1])]
            if int(s["vclk"][0]) != cur[1] + cur[2] + cur[3]:
                o.fail("vclk", "%s vclks but fetch+read+write are %d" % (s["vclk"][0], sum(cur[1:4])))
                return None
            if k:
                dl = [x - y for x, y in zip(cur, prev)]
                a, kind, arg, depth = t[k - 1]
                size = P.ins[P.by_addr[a]].size
                st = [l for l in r.blocks[i] if l.startswith("Stop at")]
                what = "instruction %s (%s) at 0x%x" % (" ".join("%02x" % x for x in P.ins[P.by_addr[a]].words), kind, a)
                want = "Stop at 0x%06x: (113) Jump to itself" % a if kind == "halt" else \
                    "Stop at 0x%06x: (109) stepped %d ticks" % (t[k][0], dl[4])
                if st != [want]:
                    o.fail("step", "%s: %r, expected %r" % (what, st, want))
                if dl[0] != 1:
                    o.fail("inst", "%s counted as %d instructions" % (what, dl[0]))
                if dl[1] != size:
                    o.fail("fetch", "%s counted as %d fetches, expected %d" % (what, dl[1], size))
                if dl[4] <= 0 or dl[4] % cpc or dl[4] > 40 * cpc:
                    o.fail("clk", "%s took %d clocks" % (what, dl[4]))
                # the address calculation of some instructions counts, too: only what is stored is certain
                er, ew = {"rd": (1, 0), "wr": (dl[2], 1), None: (0, 0), "ldc": (0, 0)}.get(kind, (None, None))
                if P.cpu.sim == "s51" and P.ins[P.by_addr[a]].words != [0]:
                    er = None       # its registers are memory cells, too
                if er is not None and dl[2:4] != [er, ew]:
                    o.fail("rdwr", "%s counted as %d reads and %d writes, expected %d and %d" % (what, dl[2], dl[3], er, ew))
                if kind == "call" and dl[3] not in (1, 2, 3) or kind == "ret" and dl[2] not in (1, 2, 3):
                    o.fail("rdwr", "%s counted as %d reads and %d writes" % (what, dl[2], dl[3]))
                if o.fails:
                    return None
                out.append(dl)
            prev = cur
        return out

    def run(self, case):
        o = Outcome()
        P = prog.Prog(case["prog"])
        t = P.trace(self.limit)
        o.labels.append(P.cpu.sim)
        cost = self.measure(case, P, t, o)
        if cost is None:
            return o
        xtal = case["xtal"]
        sc = S.Script()
        sc(*P.load())
        exp = []
        st0 = sc("state")
        m = dict(pos=0, cnt=[0, 0, 0, 0, 0], time=0.0, n=0)
        tm = {}      # slot -> [name, dir, type, run, ticks, time, tolerance of ticks]
        brk = set()
        base = [None]
        flags = set()

        def slot(ident):
            if isinstance(ident, int):
                return ident if ident in tm or 1 <= ident <= 4 else None
            for s in sorted(tm):
                if tm[s][0] == ident:
                    return s
            return {"time": 1, "isr": 2, "idle": 3, "halt": 4}.get(ident)

        def timers(slots):
            return [(s, list(tm[s]) if s in tm else
                     {1: ["time", 1, None, True, m["cnt"][4], m["time"], 0], 2: ["isr", 1, "ISR", True, 0, 0.0, 0],
                      3: ["idle", 1, "IDLE", True, 0, 0.0, 0], 4: ["halt", 1, "HALT", True, 0, 0.0, 0]}[s]) for s in slots]

        def check_timers(blk, what, slots):
            e = timers(slots)
            n = m["n"]

            def f(lines, o):
                g = [x.groups() for x in map(TIMER.match, lines) if x]
                if [(int(x[0]), x[1], x[2] == "ON", x[3]) for x in g] != [(s, v[0], v[3], v[2]) for s, v in e]:
                    o.fail("timers", "%s shows %r, expected %r" % (what, g, e))
                    return
                for x, (s, v) in zip(g, e):
                    ticks = int(x[5])
                    ex = (v[4] + (base[0][1] if s == 1 else 0)) & (2 ** 64 - 1)
                    et = v[5] + (base[0][0] if s == 1 else 0)
                    dif = min((ticks - ex) % 2 ** 64, (ex - ticks) % 2 ** 64)
                    if dif > v[6]:
                        o.fail("ticks", "%s: timer %d is %d clocks, expected %d" % (what, s, ticks, ex))
                    if not close(float(x[4]), et, n):
                        o.fail("time", "%s: timer %d is %s sec, expected %.15f" % (what, s, x[4], et))
            exp.append((blk, f))

        def execute(stop):
            """runs until stop(cnt_since_start, n) ; returns (reason, clocks)"""
            start = list(m["cnt"])
            n = 0
            while True:
                a, kind, arg, depth = t[m["pos"]]
                if n and a in brk:
                    return 104, m["cnt"][4] - start[4], n
                c = cost[m["pos"]]
                m["cnt"] = [x + y for x, y in zip(m["cnt"], c)]
                m["time"] += c[4] / xtal
                m["n"] += 1
                n += 1
                for v in tm.values():
                    if v[3] and v[2] is None:
                        sg = 1 if v[1] >= 0 else -1
                        v[4] += sg * c[4]
                        v[5] += sg * c[4] / xtal
                        flags.add("timer")
                if kind == "halt":
                    return 113, m["cnt"][4] - start[4], n
                m["pos"] += 1
                r = stop([x - y for x, y in zip(m["cnt"], start)], n)
                if r:
                    return r, m["cnt"][4] - start[4], n

        def expect_stop(blk, what, r):
            pc = t[m["pos"]][0]

            def f(lines, o, xtal=xtal):
                st = [l for l in lines if l.startswith("Stop at")]
                w = "Stop at 0x%06x: (%d) " % (pc, r[0])
                if r[0] == 109:
                    w += "stepped %d ticks" % r[1]
                if len(st) != 1 or not st[0].startswith(w) or r[0] == 109 and st != [w]:
                    o.fail("stop", "%s: %r, expected %r" % (what, st, w))
                sm = [l for l in lines if l.startswith("Simulated ")]
                ws = ["Simulated %d ticks (%.3e sec)" % (r[1], r[1] / xtal)]
                if r[0] != 109 or r[2] > 1:
                    if not sm or sm[0].split(" ")[:3] != ws[0].split(" ")[:3] or \
                            abs(float(sm[0].split("(")[1].split()[0]) - r[1] / xtal) > 6e-4 * r[1] / xtal:
                        o.fail("simulated", "%s: %r, expected %r" % (what, sm, ws))
            exp.append((blk, f))

        sc("set option xtal %d" % xtal)
        for op in case["ops"]:
            k = op[0]
            o.units += 1
            if k == "step":
                b = sc("step %d" % op[1])
                expect_stop(b, "step %d" % op[1], execute(lambda c, n: 109 if n >= op[1] else 0))
            elif k == "unit":
                n, u = op[1], op[2]
                i = {"f": 1, "r": 2, "w": 3}.get(u[0], 4)
                lim = n
                if u in ("us", "usec", "ms", "msec", "ns", "nsec", "s", "sec"):
                    sec = {"s": 1.0, "m": 1e-3, "u": 1e-6, "n": 1e-9}[u[0]] * n
                    x = sec * xtal
                    if abs(x - round(x)) < 1e-6 * max(1.0, x) and x > 0.5:
                        # a whole number of clocks: rounding may go either way
                        lo = execute_dry(t, cost, m, brk, int(round(x)) - 1, i)
                        hi = execute_dry(t, cost, m, brk, int(round(x)), i)
                        if lo != hi:
                            continue
                        x = round(x)
                        if x < 2:
                            continue
                    lim = int(x)
                save = (m["pos"], list(m["cnt"]))
                if lim < 1:
                    continue      # shorter than a clock

                def stop(c, n, i=i, lim=lim, u=u):
                    v = c[1] + c[2] + c[3] if u == "vclk" else c[i]
                    return 104 if v >= lim else 0
                b = sc("step %d %s" % (n, u))
                expect_stop(b, "step %d %s" % (n, u), execute(stop))
                flags.add("unit")
            elif k == "run":
                b = sc("run")
                expect_stop(b, "run", execute(lambda c, n: 0))
            elif k == "pc":
                sc("pc %d" % P.cpu.base)
                m["pos"] = 0
            elif k == "brk":
                if op[1] not in brk:
                    sc("break %d" % op[1])
                    brk.add(op[1])
                else:
                    sc("clear %d" % op[1])
                    brk.discard(op[1])
            elif k == "xtal":
                sc("set option xtal %d" % op[1])
                xtal = op[1]
            elif k == "state":
                b = sc("state")
                e = (list(m["cnt"]), m["time"], t[m["pos"]][0], xtal, m["n"])

                def f(lines, o, e=e):
                    s = parse_state(lines)
                    if len(s) != len(STATE):
                        o.fail("state", "state printed %r" % lines)
                        return
                    g = [int(x) for x in s["cnt"]] + [int(s["time"][1])]
                    w = [x + y for x, y in zip(e[0], base[0][2] + [base[0][1]])]
                    if g != w:
                        o.fail("counters", "state shows inst, fetch, read, write, clk %r, expected %r" % (g, w))
                    if not close(float(s["time"][0]), e[1] + base[0][0], e[4]):
                        o.fail("time", "state shows %s sec, expected %.15f" % (s["time"][0], e[1] + base[0][0]))
                    if int(s["freq"][0]) != e[3]:
                        o.fail("freq", "state shows %s Hz, expected %d" % (s["freq"][0], e[3]))
                    if int(s["vclk"][0]) != sum(g[1:4]):
                        o.fail("vclk", "state shows %s vclks, expected %d" % (s["vclk"][0], sum(g[1:4])))
                    if "PC= 0x%06x " % e[2] not in lines[0]:
                        o.fail("pc", "state shows %r, expected PC 0x%x" % (lines[0], e[2]))
                    if s["isr"] != ("0.000000000000000", "0") or s["idle"] != ("0.000000000000000", "0"):
                        o.fail("isr", "state shows time in isr or idle: %r %r" % (s["isr"], s["idle"]))
                exp.append((b, f))
            else:
                ident = op[1] if len(op) > 1 else None
                s = slot(ident) if ident is not None else None
                if k == "add":
                    line = "timer add %s" % ident
                    if op[2] is not None:
                        line += " %d" % op[2]
                        if op[3]:
                            line += " %s" % op[3]
                    b = sc(line)
                    if s is not None:
                        self.answer(exp, b, line, "already exists")
                        continue
                    if isinstance(ident, int):
                        s, nm = ident, "unnamed"
                    else:
                        nm = ident
                        s = 5
                        while s in tm:
                            s += 1
                    ty = op[3].upper() if op[2] is not None and op[3] else None
                    tm[s] = [nm, 1 if op[2] is None else op[2], ty, True, 0, 0.0, 0]
                    self.answer(exp, b, line, None)
                elif k == "list":
                    b = sc("timer list")
                    check_timers(b, "timer list", sorted(list(tm) + [1, 2, 3, 4]))
                elif k == "get":
                    b = sc("timer get %s" % ident)
                    if s is not None:
                        check_timers(b, "timer get %s" % ident, [s])
                elif k == "del":
                    b = sc("timer delete %s" % ident)
                    self.answer(exp, b, "timer delete", "does not exist" if s is None else
                                None if s in tm else "cannot be deleted")
                    if s in tm:
                        del tm[s]
                elif k in ("stop", "start"):
                    if s is not None and s not in tm:
                        continue
                    b = sc("timer %s %s" % (k, ident))
                    self.answer(exp, b, "timer " + k, "does not exist" if s is None else None)
                    if s in tm:
                        tm[s][3] = k == "start"
                elif k == "set":
                    if s is not None and s not in tm:
                        continue
                    f, tk, n, u = op[2:]
                    tol = 0
                    if f == "t":
                        b = sc("timer set %s %d" % (ident, tk))
                        v = (tk, tk / xtal)
                    elif f == "u":
                        v = (int(n * SCALE[u] * xtal), n * SCALE[u])
                        if v[0] > 2 ** 31 - 10:
                            continue
                        b = sc("timer set %s %d %s" % (ident, n, u))
                        tol = 1
                    else:
                        b = sc("timer set %s %d %d %s" % (ident, tk, n, u))
                        v = (tk, n * SCALE[u])
                    self.answer(exp, b, "timer set", "does not exist" if s is None else None)
                    if s in tm:
                        tm[s][4:] = [v[0], v[1], tol]
                else:
                    raise RuntimeError(k)
        b = sc("timer list")
        check_timers(b, "timer list", sorted(list(tm) + [1, 2, 3, 4]))
        r = sc.run(P.cpu.sim, args=list(P.cpu.args), timeout=60)
        if not S.health(r, o, P.cpu.sim):
            return o
        s = parse_state(r.blocks[st0])
        base[0] = (float(s["time"][0]), int(s["time"][1]), [int(x) for x in s["cnt"]])
        for b, f in exp:
            f(r.blocks[b], o)
            if o.fails:
                break
        o.nontrivial = bool(flags)
        o.labels += sorted(flags)
        return o

    def answer(self, exp, b, line, text):
        def f(lines, o):
            bad = [l for l in lines if "xist" in l or "rror" in l or "cannot" in l]
            if text is None and bad or text is not None and not any(text in l for l in bad):
                o.fail("answer", "%s: answered %r, expected %r" % (line, lines[:3], text))
        exp.append((b, f))


def execute_dry(t, cost, m, brk, lim, i):
    pos = m["pos"]
    n = c = 0
    while True:
        if n and t[pos][0] in brk:
            return pos, 0
        c += cost[pos][i]
        n += 1
        if t[pos][1] == "halt":
            return pos, 1
        pos += 1
        if c >= lim:
            return pos, 2


CHECK = C12()

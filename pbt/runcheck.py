"""Checks built on runmodel.py: sessions of run control commands over generated programs."""
from .engine import Check, Outcome
from . import prog, runmodel

SIMS = list(prog.CPUS)


class RunCheck(Check):
    sims = SIMS
    variant = "opt"
    unit_name = "commands"
    n_quick = 4000
    n_thorough = 60000
    nops = (4, 22)
    weights = []
    needs = ()          # kinds of operations that make a case non-trivial
    limit = 3000
    big = 0

    def gen(self, d):
        while True:
            p = prog.gen_prog(d, nmax=12, big=self.big)
            P = prog.Prog(p)
            t = P.trace(self.limit)
            if t is not None:
                break
        addrs = []
        for x in t:
            if x[0] not in addrs:
                addrs.append(x[0])
        al = [y for x in t for y in runmodel.accesses(x[1], x[2])]
        vals = sorted({x[3] for x in al if x[0] == "wr" and isinstance(x[3], int)} | {0, 1})
        acc = sorted({(x[0][0], x[1], x[2]) for x in al})
        ops = []
        for _ in range(d.int(*self.nops)):
            ops.append(self.gen_op(d, P, t, addrs, vals, acc))
        return dict(prog=p, ops=ops)

    def gen_op(self, d, P, t, addrs, vals, acc):
        cells = P.p["cells"]
        k = d.weighted(self.weights)

        def addr():
            if d.bool(0.92):
                return d.choice(addrs)
            return P.cpu.base + d.below(P.end - P.cpu.base + 4)

        def cond():
            c = d.choice(cells)
            return [c[0], c[1], d.choice(vals)]
        if k == "brk":
            h = d.weighted([(6, 1), (3, 2), (2, 3), (1, 7)])
            c = cond() if h == 1 and d.bool(0.3) else None
            return ["brk", addr(), "keep" if d.bool(0.6) else "del", h, c, d.choice(["dec", "hex"])]
        if k == "ev":
            h = d.weighted([(6, 1), (3, 2), (2, 3), (1, 6)])
            c = cond() if h == 1 and d.bool(0.25) else None
            if acc and d.bool(0.9):
                rw, sp, a = d.choice(acc)
            else:
                rw = d.choice("rw")
                sp, a = d.choice(cells)
            return ["ev", rw, sp, a, "keep" if d.bool(0.6) else "del", h, c]
        if k == "clear":
            return ["clear", addr()]
        if k == "delete":
            return ["delete", None if d.bool(0.2) else d.int(1, 6)]
        if k == "cmd":
            return ["cmd", d.int(1, 5), "" if d.bool(0.2) else "CMD%d" % d.below(10)]
        if k == "disp":
            c = d.choice(cells)
            return ["disp", c[0], c[1], d.bool(0.3)]
        if k == "undisp":
            return ["undisp", None if d.bool(0.3) else d.int(1, 4)]
        if k == "step":
            return ["step", d.weighted([(5, 1), (3, 2), (3, 5), (2, 17), (1, 60)])]
        if k == "run":
            return ["run", d.choice(["run", "go", "continue"])]
        if k == "runfrom":
            return ["runfrom", None if d.bool(0.3) else addr()]
        if k in ("poke", "pokee", "look"):
            c = d.choice(cells)
            return [k, c[0], c[1]] + ([d.choice(vals + [d.bits(8)])] if k != "look" else [])
        if k == "histn":
            return ["histn", d.choice([1, 2, 3, 10, 50, 1000, 9999, 10000, 20000])]
        return [k]

    def run(self, case):
        o = Outcome()
        P = prog.Prog(case["prog"])
        t = P.trace(self.limit)
        s = runmodel.Session(P, t, o)
        seen = set()
        for op in case["ops"]:
            l = s.op(op)
            seen.add(op[0])
            if l:
                o.labels.append(l)
        # at the end everything is looked at
        s.op(["info"])
        s.check_state()
        self.extra(s)
        s.finish(timeout=60)
        o.units = len(case["ops"])
        o.labels.append(P.cpu.sim)
        o.labels += sorted(seen)
        o.nontrivial = self.interesting(s, o, seen)
        return o

    def extra(self, s):
        pass

    def interesting(self, s, o, seen):
        return True

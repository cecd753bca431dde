"""C09: execution in pieces"""
from ..engine import Check, Outcome
from .. import anycpu as A, sim as S


class C09(Check):
    id = "C09"
    sims = sorted({s for s, t in A.FLEET})
    rule = "at least 4 instructions were executed and the pieces were not all single steps"
    unit_name = "instructions"
    n_quick = 3600
    n_thorough = 40000
    nmax = 60
    assumptions = ["code memory filled with random code; execution is followed until the first stop that is not a step limit"]

    def setup(self):
        for i in range(len(A.FLEET)):
            A.spaces(i)

    def gen(self, d):
        sc = A.gen_scene(d)
        sc["n"] = d.int(2, self.nmax)
        sc["pieces"] = [(d.choice(["step", "step", "bp", "tbp", "until"]), d.bits(12)) for _ in range(d.size(1, 8))]
        return sc

    def directed(self, tier):
        out = []
        for i in range(len(A.FLEET)):
            sp, lo, hi = A.code_of(A.FLEET[i][0])
            out.append(dict(cpu=i, R=7, img=i, p=100, pc=lo + 0x40, n=40, pieces=[("step", 5), ("bp", 9), ("until", 3)]))
        return out

    def run(self, sc):
        o = Outcome()
        sim, typ = A.FLEET[sc["cpu"]]
        what = "%s -t %s" % (sim, typ)
        n = sc["n"]
        r, bs, snap = A.run_scene(sc, ["step"] * n)
        if not S.health(r, o, what + ", single steps"):
            return o
        st = [A.stop_of(r.blocks[b]) for b in bs]
        if None in st:
            o.fail("nostop", "%s: step %d printed no stop line: %r" % (what, st.index(None), r.blocks[bs[st.index(None)]][:5]))
            return o
        k = next((i for i, x in enumerate(st) if x[0] != 109), None)
        last = None
        if k is not None:
            last = st[k]
            st = st[:k + 1]
            if k + 1 < n:
                r, bs, snap = A.run_scene(sc, ["step"] * (k + 1))
                if not S.health(r, o, what + ", single steps"):
                    return o
            n = k          # number of instructions that ended at the step limit
        ref = A.state_of(r, snap, last is not None)
        pcs = [sc["pc"]] + [x[1] for x in st]      # pcs[i]: PC before step i
        cmds, expect = [], []
        cur = 0
        kinds = set()
        for kind, v in sc["pieces"]:
            if cur >= n:
                break
            if kind == "step":
                m = 1 + v % (n - cur)
                cmds.append("step %d" % m)
                cur += m
                expect.append((109, pcs[cur]))
                kinds.add("step" if m > 1 else "one")
                continue
            t = cur + 1 + v % (n - cur)
            x = pcs[t]
            if x > A.code_top(sc["cpu"]):
                continue      # no breakpoint can be placed there
            f = next(i for i in range(cur + 1, n + 1) if pcs[i] == x)
            if f == n or any(pcs[i] == pcs[i + 1] for i in range(cur, f + 1)):
                continue      # run would report a jump to itself, or the CPU sleeps there
            if kind == "until":
                # up to here in an other way: the stop address of run
                if x == pcs[cur]:
                    continue
                cmds.append("run 0x%x 0x%x" % (pcs[cur], x))
            else:
                cmds.append(["%s 0x%x" % ("break" if kind == "bp" else "tbreak", x), "run"] + (
                    ["clear 0x%x" % x] if kind == "bp" else []))
            kinds.add(kind)
            cur = f
            expect.append((104, x))
        if cur < n:
            cmds.append("step %d" % (n - cur))
            expect.append((109, pcs[n]))
            if n - cur > 1:
                kinds.add("step")
        if last is not None:
            if sc["pieces"][0][1] & 1 and last[0] in (106, 101):
                cmds.append("run")
                kinds.add("runstop")
            else:
                cmds.append("step %d" % (1 + sc["pieces"][0][1] % 7))
            expect.append(last)
        o.units = n
        o.label(sim, "%s" % (last[0] if last else 109))
        o.label(*kinds)
        o.nontrivial = n >= 4 and bool(kinds - {"one"})
        r2, bs2, snap2 = A.run_scene(sc, cmds)
        if not S.health(r2, o, what + ", in pieces"):
            return o
        for c, b, e in zip(cmds, bs2, expect):
            g = A.stop_of(r2.blocks[b])
            if g != e:
                o.fail("stop/" + typ, "%s: %r must end with %r (as the single steps do), ended with %r; commands: %r" % (
                    what, c, e, g, cmds))
                return o
        got = A.state_of(r2, snap2, last is not None)
        df = A.diff(ref, got, sc["cpu"])
        if df:
            o.fail("state/" + typ, "%s: after %r the state differs from that after %d single steps: %s" % (
                what, cmds, n + (1 if last else 0), df))
        return o


CHECK = C09()

"""C10: looking does not touch; the same run gives the same result"""
import re
from ..engine import Check, Outcome
from .. import anycpu as A, sim as S

# (what is printed may depend on how long the simulation took)
TIME = re.compile(r"^(Runtime:.*|Host usage:.*|Simulated .*|ccyc  = .*|.*\bccyc\b.*|.*sec ago.*)$", re.M)


# registers that change when they are read (what `dump` prints is read through the hardware)
READHW = {"stm8": [("rom", 0x5000, 0x7fff)], "p1516": [("rom", 0xff00, 0xffff)], "m6800": [("rom", 0x8000, 0x8023)],
          "m68hc11": [("rom", 0x8000, 0x8023)], "m68hc12": [("rom", 0x8000, 0x8023)], "m6809": [("rom", 0xc000, 0xc023)]}


def look(d, i):
    """one command (or a group that undoes itself) that must not change anything"""
    sim, typ = A.FLEET[i]
    sp, hw = A.spaces(i)
    mems = [(n, lo, hi) for k, n, lo, hi in sp]
    cspace, lo, hi = A.code_of(sim)

    def mem():
        n, lo, hi = d.choice(mems)
        return n, d.int(lo, hi), lo, hi

    def safe(n, a, b):
        return not any(n == x and a <= z and y <= b for x, y, z in READHW.get(sim, []))

    def caddr():
        return d.int(lo, min(hi, A.code_top(i)))
    k = d.int(0, 27)
    if k == 0:
        return ["info registers"]
    if k == 1:
        n, a, lo_, hi_ = mem()
        if not safe(n, a, a + 100):
            return ["pc"]
        f, to = d.choice([("", ""), ("/h ", ""), ("/s ", " >f.txt"), ("/i ", ""), ("/d ", "")])
        return ["dump %s%s 0x%x 0x%x%s" % (f, n, a, min(hi_, a + d.int(0, 100)), to)]
    if k == 2:
        n, a, lo_, hi_ = mem()
        return ["dump %s%s" % (n, "" if safe(n, lo_, hi_) else " 0x%x" % lo_)]
    if k == 3:
        return ["dc 0x%x" % caddr()]
    if k == 4:
        return ["dc 0x%x" % caddr(), "dc", "dc"]
    if k == 5:
        return ["dc"]
    if k == 6:
        a = caddr()
        return ["dc 0x%x 0x%x" % (a, min(hi, a + d.int(0, 40)))]
    if k == 7:
        return ["state"]
    if k == 8:
        return ["info " + d.choice(["memory", "breakpoints", "hardware", "registers", "variables a"])]
    if k == 9 and hw:
        c, n = d.choice(hw)
        return ["info hardware %s[%d]" % (c, n)]
    if k == 10:
        return ["conf", "conf objects", "conf types"]
    if k == 11:
        return [d.choice(["history", "history list 5", "history info", "history list"])]
    if k == 12:
        return ["show " + d.choice(["option", "error", "console", "copying", "warranty", "registers"])]
    if k == 13:
        return ["get option", "get option xtal"]
    if k == 14:
        return ["help", "help %s" % d.choice(["step", "dump", "set", "break"])]
    if k == 15:
        return ["expr %d%s%d" % (d.bits(8), d.choice("+-*&|^"), d.bits(8)), 'expr /x 1+2', "expr (3==4)?5:6"]
    if k == 16:
        n, a, lo_, hi_ = mem()
        if not safe(n, lo_, hi_):
            return ["where %s 0x12 0x34 0x56 0x78 0x9a 0xbc 0xde" % n, "hole %s" % n]
        return ["where %s 0x%x 0x%x" % (n, d.bits(8), d.bits(8)), "Where %s 0x%x" % (n, d.bits(8)), "hole %s" % n]
    if k == 17:
        a = caddr()
        return ["break 0x%x" % a, "info b", "clear 0x%x" % a]
    if k == 18:
        return ["timer get", "timer list"]
    if k == 19:
        return ["timer add 5 1", "timer get 5", "timer del 5"]
    if k == 20:
        v = d.bits(4)
        return ["var ucv_%d" % v, "info variables ucv", "rmvar ucv_%d" % v]
    if k == 21:
        return ["pc"]
    if k == 22:
        return ["xyzzy", "dump nosuch 1 2", "set mem", "expr 1+", "break", "help nosuch"]
    if k == 23:
        return ["echo a b", "version", "jaj"]
    if k == 24 and sim == "s51":
        return [d.choice(["di 0 0x7f", "ds 0x80 0xff", "dx 0 20", "dch 0 20"])]
    if k == 25:
        return ["display", "commands", "undisplay 77", "delete 999"]
    if k == 26:
        n, a, lo_, hi_ = mem()
        if not safe(n, a, a + 9):
            return ["pc"]
        return ["dump /b %s 0x%x 0x%x >f.bin" % (n, a, min(hi_, a + 9)), 'check "f.bin"', 'check "nosuch.hex"']
    return ["info memory", "pc", "state"]


class C10(Check):
    id = "C10"
    sims = sorted({s for s, t in A.FLEET})
    rule = "at least 3 instructions were executed and 3 looking commands were put between them"
    unit_name = "instructions"
    n_quick = 2400
    n_thorough = 30000
    nmax = 25
    assumptions = ["code memory filled with random code; the compared state is what the simulator prints at the end"]

    def setup(self):
        for i in range(len(A.FLEET)):
            A.spaces(i)

    def gen(self, d):
        sc = A.gen_scene(d)
        n = d.int(1, self.nmax)
        sc["groups"] = [d.weighted([(4, ["step"]), (2, ["step %d" % d.int(2, 9)]), (1, ["step 3"])])
                        for _ in range(n)]
        sc["looks"] = []
        for _ in range(d.size(2, 30)):
            at = d.int(0, n)
            sc["looks"].append((at, look(d, sc["cpu"])))
        sc["env"] = d.bool(0.5)
        return sc

    def directed(self, tier):
        out = []
        for i in range(len(A.FLEET)):
            sp, lo, hi = A.code_of(A.FLEET[i][0])
            hw = A.spaces(i)[1]
            n = 8
            looks = [(j, ["info registers", "state", "dc", "history list"]) for j in range(n)]
            looks += [(3, ["info hardware %s[%d]" % x for x in hw]),
                      (5, ["dump %s" % name for k, name, a, b in A.spaces(i)[0]])]
            out.append(dict(cpu=i, R=7, img=i, p=100, pc=lo + 0x40, groups=[["step 2"]] * n, looks=looks, env=True))
        return out

    def run(self, sc):
        o = Outcome()
        sim, typ = A.FLEET[sc["cpu"]]
        what = "%s -t %s" % (sim, typ)
        cmds = sc["groups"]
        r, bs, snap = A.run_scene(sc, cmds)
        if not S.health(r, o, what):
            return o
        ref = A.state_of(r, snap)
        stops = [A.stop_of(r.blocks[b]) for b in bs]
        o.units = sum(x is not None for x in stops)
        o.label(sim)
        if sc["env"]:
            # the same again, from different garbage in fresh memory
            o.label("again")
            r2, bs2, snap2 = A.run_scene(sc, cmds, env={"MALLOC_PERTURB_": "%d" % (1 + sc["R"] % 255)})
            if not S.health(r2, o, what + ", again"):
                return o
            a, b = TIME.sub("", r.out), TIME.sub("", r2.out)
            if a != b:
                la, lb = a.split("\n"), b.split("\n")
                df = [(x, y) for x, y in zip(la, lb) if x != y][:3] or [(len(la), len(lb))]
                o.fail("again/" + typ, "%s: the same commands give another output when repeated: %r" % (what, df))
                return o
            df = A.diff(ref, A.state_of(r2, snap2), sc["cpu"])
            if df:
                o.fail("again/" + typ, "%s: the same commands give another state when repeated: %s" % (what, df))
                return o
        # the commands that only look
        mixed, place = [], []
        for j in range(len(cmds) + 1):
            for at, g in sc["looks"]:
                if at == j:
                    mixed.append(g)
            if j < len(cmds):
                place.append(len(mixed))
                mixed.append(cmds[j])
        o.nontrivial = o.units >= 3 and len(sc["looks"]) >= 3
        r3, bs3, snap3 = A.run_scene(sc, mixed)
        if not S.health(r3, o, what + ", with looking commands"):
            return o
        for j, k in enumerate(place):
            g = A.stop_of(r3.blocks[bs3[k]])
            if g != stops[j]:
                o.fail("stop/" + typ, "%s: with looking commands in between, %r ended with %r instead of %r; commands: %r" % (
                    what, cmds[j], g, stops[j], mixed[:k + 1]))
                return o
        df = A.diff(ref, A.state_of(r3, snap3), sc["cpu"])
        if df:
            o.fail("state/" + typ, "%s: looking commands changed the state: %s; commands: %r" % (what, df, mixed))
        return o


CHECK = C10()

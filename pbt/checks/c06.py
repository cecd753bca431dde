"""Variables (names of memory locations) against a model of the name table."""
import re
from ..engine import Check, Outcome
from .. import sim as S

SIMS = {
    "s51": (["-t", "C52"], [("iram", 8, 8, 0x7f), ("xram", 8, 0, 0xffff), ("rom", 8, 0, 0xffff)], "iram_chip"),
    "avr": ([], [("iram", 8, 0x100, 0xffff), ("rom", 16, 0, 0xffff)], "rom_chip"),
    "p1516": ([], [("rom", 32, 0, 0xfeff)], "rom_chip"),
    "stm8": ([], [("rom", 8, 0x100, 0x3ff)], "rom_chip"),
    "z80": ([], [("rom", 8, 0, 0xffff)], "rom_chip"),
}
STEMS = ["a", "b", "var", "Var", "_x", "count", "counter", "cnt", "z9", "tmp", "A_B", "l1", "l10", "l2", "u", "the_longest_of_all_names",
         "x_y", "Zeta", "_", "__", "var_1", "var_12"]
RANGE = {"variables": (0, None)}
LABEL = re.compile(r"^(0x[0-9a-f]+)?(\.\d+|\[\d+:\d+\])?\s+([A-Za-z_.][\w.]*(?:\.\d+|\[\d+:\d+\])?):(.*)$")
ROW = re.compile(r"^(0x[0-9a-f]+)(\.\d+|\[\d+:\d+\])?\s+(\S.*)$")
INFO = re.compile(r"^(\S+) (\S+)\[(0x[0-9a-f]+)\](?:\.(\d+)|\[(\d+):(\d+)\])? = (\S+?),(\d+)U,(-?\d+)(?:,'.')?$", re.S)
BITV = re.compile(r"^0b([01-]+)\s+0x([0-9a-f]+)")


def i32(v):
    return v - (1 << 32) if v >> 31 & 1 else v


class C(Check):
    id = "C06"
    sims = sorted(SIMS)
    n_quick = 6000
    n_thorough = 60000
    unit_name = "commands"
    rule = ("a case is 2..40 commands that define, redefine, remove and use variables; non-trivial when a variable "
            "was replaced or removed or two variables named the same cell")

    def gen(self, d):
        sim = d.choice(sorted(SIMS))
        spaces = SIMS[sim][1]
        nvar = d.choice([3, 5, 256])
        names = d.sample(STEMS, d.int(3, 10))
        pool = []
        for sp, b, lo, hi in spaces + [("variables", 32, 0, nvar - 1)]:
            base = d.int(lo, max(lo, hi - 12))
            for i in range(2):
                pool.append((sp, b, base + d.below(min(6, hi - base + 1))))
            pool.append((sp, b, d.int(lo, hi)))
        ops = []
        for _ in range(d.int(2, 40)):
            k = d.below(20)
            n = d.choice(names)
            sp, b, a = d.choice(pool)
            hi, lo = d.below(b), d.below(b)
            if k < 7:
                f = d.weighted([(5, 0), (2, 1), (2, 2), (3, 3), (2, 4), (3, 5), (3, 6), (2, 7), (1, 8), (1, 9), (1, 10), (1, 11)])
                ops.append(["def", f, n, sp, a, hi, lo, d.choice(names)])
            elif k < 9:
                ops.append(["rm", n])
            elif k < 10:
                ops.append(["rd", n])
            elif k < 12:
                ops.append(["wr", n, d.edge(b)])
            elif k < 13:
                ops.append(["bit", n, hi, lo, d.below(3), d.edge(b)])
            elif k < 14:
                ops.append(["cell", sp, a, d.edge(b)])
            elif k < 15:
                ops.append(["set", n, [d.edge(b) for i in range(d.int(1, 3))]])
            elif k < 17:
                ops.append(["info", d.choice(["", n, n[:2], n[1:] if n[1:2].isalpha() else n, n[:1]])])
            elif k < 18:
                ops.append(["dumpbits", n, d.below(3), hi, lo])
            else:
                ops.append(["dump", sp, max(0, a - d.below(6)), d.int(0, 12)])
        return {"sim": sim, "nvar": nvar, "ops": ops}

    def run(self, case):
        o = Outcome()
        sim = case["sim"]
        args, spaces, chip = SIMS[sim]
        nvar = case["nvar"]
        width = {sp: b for sp, b, lo, hi in spaces}
        width["variables"] = 32
        top = {}
        for sp, b, lo, hi in spaces:
            top[sp] = max(hi, top.get(sp, 0))
        top["variables"] = nvar - 1
        mem = {}
        V = {}
        sc = S.Script()
        chk = []
        b0 = sc("info var /p")
        init = set()

        def rd(sp, a):
            return mem.get((sp, a), 0)

        def usable(n):
            return n in V
        # memory gets known contents where it is used
        for op in case["ops"]:
            if op[0] in ("def", "cell", "dump"):
                sp, a = (op[3], op[4]) if op[0] == "def" else (op[1], op[2])
                cnt = 16
                for x in range(a, min(a + cnt, top[sp] + 1)):
                    if (sp, x) not in init:
                        init.add((sp, x))
        sc(*["expr /n %s[%d]=0" % k for k in sorted(init)])
        for x in range(nvar):
            init.add(("variables", x))
        for op in case["ops"]:
            k = op[0]
            if k == "def":
                f, n, sp, a, hi, lo, other = op[1:]
                h, l = max(hi, lo), min(hi, lo)
                loc = None
                if f == 0:
                    c, loc = "%s %d" % (sp, a), (sp, a, -1, -1)
                elif f == 1:
                    c, loc = "%s %d %d" % (sp, a, lo), (sp, a, lo, lo)
                elif f == 2:
                    c, loc = "%s %d %d %d" % (sp, a, hi, lo), (sp, a, h, l)
                elif f == 3:
                    c, loc = "%s[%d]" % (sp, a), (sp, a, -1, -1)
                elif f == 4:
                    c, loc = "%s[%d].%d" % (sp, a, lo), (sp, a, lo, lo)
                elif f == 5:
                    c, loc = "%s[%d][%d:%d]" % (sp, a, hi, lo), (sp, a, h, l)
                elif f == 6:
                    c = ""
                    used = set(v[1] for v in V.values() if v[0] == "variables")
                    free = [x for x in range(nvar) if x not in used]
                    if free:
                        loc = ("variables", free[0], -1, -1)
                elif f == 7:
                    if other not in V:
                        continue
                    c, loc = other, V[other]
                elif f == 8:
                    c = "%s %d" % ("variables", nvar + a)
                elif f == 9:
                    n, c = "9" + n, "%s %d" % (sp, a)
                elif f == 10:
                    c = "%s %d" % (chip, 0)
                else:
                    c = "%s %d %d" % (sp, a, 32 + hi)
                if loc is not None:
                    if n in V or any(v[:2] == loc[:2] for v in V.values()):
                        o.nontrivial = True
                    V[n] = loc
                b = sc("var %s %s" % (n, c))
                o.label("def%d" % f)
                chk.append((op, b, ("def", loc is not None)))
            elif k == "rm":
                if op[1] in V:
                    o.nontrivial = True
                    del V[op[1]]
                b = sc("rmvar %s" % op[1], "expr %s" % op[1])
                chk.append((op, b, ("none",)))
            elif k == "rd":
                if op[1] not in V:
                    b = sc("expr %s" % op[1])
                    chk.append((op, b, ("none",)))
                elif V[op[1]][2] < 0:
                    sp, a = V[op[1]][:2]
                    b = sc("expr %s" % op[1], "expr %s[%d]" % (sp, a), "expr &%s" % op[1])
                    v = i32(rd(sp, a))
                    chk.append((op, b, ("vals", [v, v, a])))
            elif k == "wr":
                if op[1] not in V or V[op[1]][2] >= 0:
                    continue
                sp, a = V[op[1]][:2]
                mem[sp, a] = v = op[2] & ((1 << width[sp]) - 1)
                b = sc("expr /n %s=%d" % (op[1], v), "expr %s[%d]" % (sp, a))
                chk.append((op, b, ("vals", [i32(v)])))
            elif k == "bit":
                n, hi, lo, form, v = op[1:]
                if n not in V:
                    continue
                sp, a = V[n][:2]
                h, l = max(hi, lo), min(hi, lo)
                w = width[sp]
                if h >= w or h > 30:
                    continue
                if form == 0:
                    h = l
                    t = "%s.%d" % (n, l)
                else:
                    t = "%s[%d:%d]" % (n, hi, lo)
                m = (1 << (h - l + 1)) - 1
                if form == 2:
                    mem[sp, a] = rd(sp, a) & ~(m << l) | (v & m) << l
                    b = sc("expr /n %s=%d" % (t, v & m), "expr %s[%d]" % (sp, a))
                    chk.append((op, b, ("vals", [i32(rd(sp, a))])))
                else:
                    b = sc("expr %s" % t)
                    chk.append((op, b, ("vals", [rd(sp, a) >> l & m])))
                o.label("bit")
            elif k == "cell":
                mem[op[1], op[2]] = op[3] & ((1 << width[op[1]]) - 1)
                sc("expr /n %s[%d]=%d" % (op[1], op[2], op[3]))
            elif k == "set":
                if op[1] not in V:
                    continue
                sp, a = V[op[1]][:2]
                vals = [x & ((1 << width[sp]) - 1) for x in op[2]][:top[sp] - a + 1]
                for j, x in enumerate(vals):
                    mem[sp, a + j] = x
                sc("set mem %s %s %s" % (sp, op[1], " ".join(map(str, vals))))
                b = sc(*["expr %s[%d]" % (sp, a + j) for j in range(len(vals))])
                chk.append((op, b, ("vals", [i32(x) for x in vals])))
                o.label("set")
            elif k == "info":
                want = []
                for n in sorted(V):
                    if op[1] in n:
                        sp, a, h, l = V[n]
                        v = rd(sp, a)
                        if h >= 0:
                            v &= ((1 << (h - l + 1)) - 1) << l
                        want.append((n, sp, a, h, l, v))
                b = sc("info var /u %s" % op[1])
                o.label("info")
                chk.append((op, b, ("info", want)))
            elif k == "dumpbits":
                n, form, hi, lo = op[1:]
                if n not in V or V[n][0] == "rom":
                    continue    # (the contents of rom are disassembled)
                sp, a, h, l = V[n]
                w = width[sp]
                t = n
                if form or h < 0:
                    h, l = max(hi, lo), min(hi, lo)
                    if h >= w or h - l == w - 1:
                        continue
                    if form == 1:
                        h = l
                        t = "%s.%d" % (n, l)
                    else:
                        t = "%s[%d:%d]" % (n, hi, lo)
                if h >= w or h - l == w - 1:
                    continue
                b = sc("dump %s" % t)
                o.label("dumpbits")
                chk.append((op, b, ("field", a, h, l, rd(sp, a), w)))
            else:
                sp, lo, cnt = op[1:]
                if sp == "rom":
                    continue
                hi = min(top[sp], lo + cnt)
                want = {}
                for n, (vs, a, h, l) in V.items():
                    if vs == sp and lo <= a <= hi:
                        v = rd(sp, a)
                        if h >= 0:
                            v = v >> l & ((1 << (h - l + 1)) - 1)
                        want[n] = (a, v)
                if want:
                    o.label("dump")
                b = sc("dump %s %d %d" % (sp, lo, hi))
                chk.append((op, b, ("labels", want, any(V[n][2] >= width[sp] for n in want))))
        be = sc("info var /p")
        r = sc.run(sim, args=args + ["-a", str(nvar)])
        o.units = len(case["ops"])
        for op, b, c in chk:
            if b >= len(r.blocks):
                break
            bl = [x for x in r.blocks[b] if x.strip()]
            bad = self.judge(c, bl)
            if bad:
                o.fail("%s/%s" % (op[0], c[0]), "%s after %s: %s" % (
                    op, [x for x in case["ops"][:case["ops"].index(op)] if x[0] in ("def", "rm")][-8:], bad))
                break
        if not o.fails and S.health(r, o, sim):
            p0 = [INFO.match(x) and x.split("=")[0] for x in r.blocks[b0]]
            p1 = [INFO.match(x) and x.split("=")[0] for x in r.blocks[be]]
            if p0 != p1:
                o.fail("predefined", "predefined variables changed: %s" % sorted(set(map(str, p0)) ^ set(map(str, p1)))[:5])
        return o

    def judge(self, c, bl):
        k = c[0]
        if k == "def":
            if c[1] and bl:
                return "not accepted: %s" % bl[:2]
            if not c[1] and not bl:
                return "accepted"
            return None
        if k == "none":
            if not any("rror" in x for x in bl):
                return "a name which is not defined gives %s" % bl[:3]
            return None
        if k == "vals":
            try:
                v = [i32(int(x) & 0xffffffff) for x in bl]
            except ValueError:
                return "output %s" % bl[:3]
            if v != c[1]:
                return "values %s, expected %s" % (v, c[1])
            return None
        if k == "info":
            got = []
            for x in bl:
                m = INFO.match(x)
                if not m:
                    return "line %r" % x
                n, sp, a, b1, h, l, txt, u, s = m.groups()
                h, l = (int(b1), int(b1)) if b1 else (int(h), int(l)) if h else (-1, -1)
                u = int(u)
                if i32(u) != int(s):
                    return "values differ in %r" % x
                if h >= 0:
                    d = int(txt[2:], 2) << l if txt[:2] == "0b" else int(txt) << l
                    # the digits show the bits of the cell
                    if d != u:
                        return "digits differ from the value in %r" % x
                elif int(txt, 0) != u:
                    return "digits differ from the value in %r" % x
                got.append((n, sp, int(a, 16), h, l, u))
            if got != c[1]:
                return "shows %s, expected %s" % (
                    [x for x in got if x not in c[1]][:3], [x for x in c[1] if x not in got][:3])
            return None
        if k == "field":
            a, h, l, v, w = c[1:]
            addr = bits = None
            dig = None
            for x in bl:
                m = LABEL.match(x)
                if m:
                    if m.group(1):
                        addr, bits = m.group(1), m.group(2)
                    rest = m.group(4)
                elif x.strip().startswith("0b"):
                    rest = x
                else:
                    m = ROW.match(x)
                    if not m:
                        continue
                    addr, bits, rest = m.groups()
                m = BITV.match(rest.strip())
                if m:
                    # (variables inside the field follow)
                    dig = m.groups()
                    break
            if addr is None or dig is None:
                return "output %s" % bl[:3]
            f = v >> l & ((1 << (h - l + 1)) - 1)
            eb = ".%d" % h if h == l else "[%d:%d]" % (h, l)
            ed = "".join(str(v >> i & 1) if l <= i <= h else "-" for i in range(w - 1, -1, -1))
            if (int(addr, 16), bits) != (a, eb) or int(dig[1], 16) != f or dig[0] != ed:
                return "shows %s%s %s %s, expected %#x%s %s %#x" % (addr, bits, dig[0], dig[1], a, eb, ed, f)
            return None
        if k == "labels":
            got = {}
            addr = None
            pend = []
            for x in bl:
                m = LABEL.match(x)
                if not m:
                    m = ROW.match(x)
                    if m:
                        addr = int(m.group(1), 16)
                        pend = []
                    continue
                if m.group(1):
                    addr = int(m.group(1), 16)
                    pend = []
                pend.append(m.group(3))
                rest = m.group(4).strip()
                if not rest:
                    continue
                g = BITV.match(rest)
                v = int(g.group(2), 16) if g else int(rest.split()[0], 16)
                for n in pend:
                    if n in got:
                        return "%s is shown twice" % n
                    got[n] = (addr, v)
                pend = []
            if pend:
                return "no value for %s" % pend
            if got != c[1]:
                e = c[1]
                return "shows %s, expected %s" % ({n: got[n] for n in got if got[n] != e.get(n)},
                                                  {n: e[n] for n in e if got.get(n) != e[n]})
        return None


CHECK = C()

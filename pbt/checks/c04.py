"""Memory configuration: chips, address spaces, decoders, bankers and banders against a map of every address."""
import re
from ..engine import Check, Outcome
from .. import sim as S

N = 0x140          # addresses looked at in the big spaces
ROW = re.compile(r"^0x([0-9a-f]+)((?: [0-9a-f]+)+) ")


class Chip:
    def __init__(self, name, size, w):
        self.name, self.size, self.w = name, size, w
        self.d = [0] * size


class Space:
    def __init__(self, name, w, start, size, look=None):
        self.name, self.w, self.start, self.size = name, w, start, size
        self.map = {}           # address -> (chip, chip address, bit or None)
        self.dec = []           # [begin, end, kind, chip, chip begin, ...]
        self.hi = start + size - 1
        self.look = look if look is not None else self.hi

    def cell(self, a):
        m = self.map.get(a)
        if m is None:
            return None
        c, ca, bit = m
        return c.d[ca] if bit is None else c.d[ca] >> bit & 1

    def undecode(self, a, b):
        """decoders give up the area"""
        out = []
        for d in self.dec:
            if d[0] > b or d[1] < a:
                out.append(d)
            elif d[2] != "chip":
                if d[2] == "bank":
                    d[4].live = False
            else:
                if d[0] < a:
                    out.append([d[0], a - 1, "chip", d[3], d[4]])
                if d[1] > b:
                    out.append([b + 1, d[1], "chip", d[3], d[4] + b + 1 - d[0]])
        self.dec = out
        for x in range(a, b + 1):
            self.map.pop(x, None)


class Banker:
    def __init__(self, sp, a, mask, sp2, b, e):
        self.sp, self.a, self.mask, self.sp2, self.b, self.e = sp, a, mask, sp2, b, e
        self.shift = (mask & -mask).bit_length() - 1
        self.n = (mask >> self.shift) + 1
        self.banks = {}
        self.live = True

    def activate(self):
        v = (self.sp.cell(self.a) & self.mask) >> self.shift
        bk = self.banks.get(v)
        if bk is None:
            return          # the bank is not defined: the last one stays
        for x in range(self.b, self.e + 1):
            ca = bk[1] + x - self.b
            if ca < bk[0].size:
                self.sp2.map[x] = (bk[0], ca, None)
            else:
                self.sp2.map.pop(x, None)


class C04(Check):
    id = "C04"
    sims = ["s51"]
    n_quick = 4000
    n_thorough = 40000
    unit_name = "commands"
    rule = "at least one decoder, banker or bander was created over an area which was decoded by another one, or a bank was switched"

    def gen(self, d):
        chips = []
        for i in range(d.int(2, 5)):
            w = d.weighted([(6, 8), (1.5, 16), (1, 32)])
            chips.append(["c%d" % i, d.weighted([(3, 16), (3, 64), (2, 100), (1, 256), (1, 1), (1, 7)]), w])
        chips[0][2] = 8
        spaces = [["asp", 8, d.choice([0, 0, 5, 0x100]), d.choice([64, 100, 256, 33])],
                  ["bsp", 1, d.choice([0, 0, 0x20]), d.choice([64, 128, 40])]]
        if any(c[2] == 16 for c in chips):
            spaces.append(["wsp", 16, 0, 48])
        if any(c[2] == 32 for c in chips):
            spaces.append(["lsp", 32, d.choice([0, 16]), 40])
        ops = []
        for _ in range(d.int(3, 24)):
            k = d.weighted([(6, "dec"), (2, "banker"), (4, "bank"), (2, "bander"), (8, "wr"), (3, "fill"), (3, "chip"), (2, "movx"),
                            (1.5, "code"), (0.7, "rm"), (1.5, "cell"), (1, "bad"), (3, "switch")])
            ops.append([k, [d.below(1 << 20) for _ in range(3)], [d.bits(8) for _ in range(3)], d.edge(32), d.below(64), d.below(8)])
        return dict(chips=chips, spaces=spaces, ops=ops)

    def run(self, case):
        o = Outcome()
        s = S.Script()
        checks = []             # (block, function)
        chips = {}
        s("set console raw off") if False else None
        for n, size, w in case["chips"]:
            c = chips[n] = Chip(n, size, w)
            s("memory create chip %s %d %d" % (n, size, w))
        for n, size, w in (("rom_chip", 65536, 8), ("xram_chip", 65536, 8)):
            chips[n] = Chip(n, size, w)
        sp = {}
        for n, w, st, size in case["spaces"]:
            sp[n] = Space(n, w, st, size)
            s("memory create addressspace %s %d %d %d" % (n, st, size, w))
        for n in ("rom", "xram"):
            x = sp[n] = Space(n, 8, 0, 65536, N - 1)
            c = chips[n + "_chip"]
            x.map = {a: (c, a, None) for a in range(N + 64)}
            x.dec = [[0, 0xffff, "chip", c, 0]]
        # every cell gets a value of its own
        for k, c in enumerate(chips.values()):
            m = (1 << c.w) - 1
            top = min(c.size, N + 64)
            for i in range(top):
                c.d[i] = (i * 7 + k * 37 + 1 + (i * 0x01010301 + k * 0x1000) * (c.w > 8)) & m
            for i in range(0, top, 64):
                s("set mem %s %d %s" % (c.name, i, " ".join(str(v) for v in c.d[i:min(i + 64, top)])))
        bankers = []
        info0 = None

        def look(what):
            """compares everything"""
            for x in sp.values():
                b = s("dump /h %s %d %d" % (x.name, x.start, x.look))
                want = {a: x.cell(a) for a in range(x.start, x.look + 1)}
                checks.append((b, "dump", (x.name, want, what, x.w > 16)))
            for c in chips.values():
                top = min(c.size, N) - 1
                b = s("dump /h %s 0 %d" % (c.name, top))
                checks.append((b, "dump", (c.name, dict(enumerate(c.d[:top + 1])), what, c.w > 16)))
            b = s("info memory")
            want = []
            for x in sp.values():
                for dd in sorted(x.dec, key=lambda z: z[0]):
                    want.append((x.name, dd[0], dd[1]) + ((dd[3].name, dd[4]) if dd[2] == "chip" else
                                                          ("bander", dd[4], dd[5], dd[3].name, dd[6]) if dd[2] == "band" else ("banked",)))
            checks.append((b, "info", (sorted(want), what)))

        def write(x, a, v):
            """a write through an address space"""
            m = x.map.get(a)
            if m is not None:
                c, ca, bit = m
                if bit is None:
                    c.d[ca] = v & ((1 << c.w) - 1)
                elif v:
                    c.d[ca] |= 1 << bit
                else:
                    c.d[ca] &= ~(1 << bit)
            for bk in bankers:
                if bk.live and bk.sp is x and bk.a == a:
                    bk.activate()

        nt = 0
        names = sorted(sp)
        for k, r, by, val, ln, sel in case["ops"]:
            x = sp[names[r[0] % len(names)]]
            fit = [c for c in chips.values() if c.w == (8 if x.w == 1 else x.w)]
            if not fit:
                continue
            c = fit[r[1] % len(fit)]
            a = x.start + r[2] % (x.look - x.start + 1)
            if k == "dec":
                if x.w == 1:
                    k = "bander"
            if k == "dec":
                n = min(ln + 1, x.hi - a + 1, c.size)
                if sel == 0:
                    n = min(x.hi - a + 1, c.size)
                n = min(n, N + 63 - a) if x.name in ("rom", "xram") else n
                if n < 1:
                    continue
                e = a + n - 1
                cb = by[0] % (min(c.size, N) - n + 1) if min(c.size, N) >= n else 0
                if x.name == "rom" and a < 16:
                    continue
                if self.partly(x, a, e, bankers):
                    continue
                form = sel
                if form == 1 and e == x.hi:
                    cmd = "%s %d %s %d" % (x.name, a, c.name, cb)
                elif form == 2 and cb == 0:
                    cmd = "%s %d %d %s" % (x.name, a, e, c.name)
                elif form == 3 and e == x.hi and cb == 0:
                    cmd = "%s %d %s" % (x.name, a, c.name)
                else:
                    cmd = "%s %d %d %s %d" % (x.name, a, e, c.name, cb)
                if any(z in x.map for z in range(a, e + 1)):
                    nt += 1
                x.undecode(a, e)
                x.dec.append([a, e, "chip", c, cb])
                for z in range(a, e + 1):
                    x.map[z] = (c, cb + z - a, None)
                checks.append((s("memory create addressdecoder " + cmd), "quiet", cmd))
                o.label("decoder")
            elif k == "bander":
                x = sp["bsp"]
                fit = [c for c in chips.values() if c.w == 8]
                c = fit[r[1] % len(fit)]
                a = x.start + r[2] % x.size
                n = min(ln + 1, x.hi - a + 1)
                bpc = [8, 8, 8, 1, 4, 3, 8, 5][sel]
                dist = [1, 8, 2, 1, 3, 1, 1, 1][by[1] % 8]
                cb = by[0] % min(c.size, N)
                if cb + (n - 1) // bpc * dist >= min(c.size, N):
                    continue
                e = a + n - 1
                if self.partly(x, a, e, bankers):
                    continue
                if any(z in x.map for z in range(a, e + 1)):
                    nt += 1
                x.undecode(a, e)
                x.dec.append([a, e, "band", c, bpc, dist, cb])
                for z in range(a, e + 1):
                    i = z - a
                    x.map[z] = (c, cb + i // bpc * dist, i % bpc)
                cmd = "%s %d %d %s %d %d" % (x.name, a, e, c.name, cb, bpc) + (" %d" % dist if dist != 1 or by[2] & 1 else "")
                checks.append((s("memory create bander " + cmd), "quiet", cmd))
                o.label("bander")
            elif k == "banker":
                if x.w == 1:
                    continue
                y = sp["xram" if sel & 1 else "asp"]
                ba = y.start + by[0] % min(y.size, 0x40)
                n = min(ln % 24 + 1, x.hi - a + 1, x.look - a + 1)
                e = a + n - 1
                if y.map.get(ba) is None or (x is y and a <= ba <= e) or (x.name == "rom" and a < 16):
                    continue
                if self.partly(x, a, e, bankers):
                    continue
                mask = ((1 << (1 + by[1] % 3)) - 1) << (by[2] % 6)
                cmd = "%s %d %d %s %d %d" % (y.name, ba, mask, x.name, a, e)
                x.undecode(a, e)
                bk = Banker(y, ba, mask, x, a, e)
                bankers.append(bk)
                x.dec.append([a, e, "bank", None, bk])
                checks.append((s("memory create banker " + cmd), "quiet", cmd))
                o.label("banker")
            elif k == "bank":
                live = [b for b in bankers if b.live]
                if not live:
                    continue
                bk = live[r[0] % len(live)]
                fit = [c for c in chips.values() if c.w == bk.sp2.w]
                if not fit:
                    continue
                c = fit[r[1] % len(fit)]
                nr = r[2] % bk.n
                cb = by[0] % min(c.size, N)
                if cb + bk.e - bk.b >= min(c.size, N):
                    continue
                cmd = "%s %d %d %s" % (bk.sp2.name, bk.b, nr, c.name) + (" %d" % cb if cb or sel & 1 else "")
                if bk.sp.cell(bk.a) is None:
                    continue
                bk.banks[nr] = (c, cb)
                bk.activate()
                checks.append((s("memory create bank " + cmd), "quiet", cmd))
                o.label("bank")
            elif k == "switch":
                live = [b for b in bankers if b.live and b.sp.cell(b.a) is not None]
                if not live:
                    continue
                bk = live[r[0] % len(live)]
                v = by[0]
                if sel & 1 and bk.banks:
                    v = sorted(bk.banks)[r[1] % len(bk.banks)] << bk.shift
                if bk.sp.name == "xram" and sel & 2:
                    self.movx(s, bk.a, v)
                    chips["rom_chip"].d[0:6] = [0x90, bk.a >> 8, bk.a & 255, 0x74, v, 0xf0]
                else:
                    s("set mem %s %d %d" % (bk.sp.name, bk.a, v))
                write(bk.sp, bk.a, v)
                if len(bk.banks) > 1:
                    nt += 1
                o.label("switch")
            elif k == "wr":
                v = val & ((1 << x.w) - 1)
                if x.name == "rom" and a < 16:
                    continue
                if sel < 5:
                    s("set mem %s %d %d" % (x.name, a, v))
                else:
                    s("expr /n %s[%d]=%d" % (x.name, a, v))
                if x.map.get(a) is None:
                    o.label("undecoded write")
                    if any(b.live and b.sp is x and b.a == a for b in bankers):
                        pass
                write(x, a, v)
            elif k == "fill":
                e = min(a + ln, x.look)
                v = val & ((1 << x.w) - 1)
                if x.name == "rom" and a < 16:
                    continue
                if any(b.live and b.sp is x and a <= b.a <= e for b in bankers):
                    continue
                s("fill %s %d %d %d" % (x.name, a, e, v))
                for z in range(a, e + 1):
                    write(x, z, v)
            elif k == "chip":
                ca = r[2] % min(c.size, N)
                if c.name == "rom_chip" and ca < 16:
                    continue
                v = val & ((1 << c.w) - 1)
                s("set mem %s %d %d" % (c.name, ca, v))
                c.d[ca] = v
            elif k == "movx":
                a = r[2] % N
                x = sp["xram"]
                if sel < 4 or x.cell(a) is None:
                    v = by[0]
                    self.movx(s, a, v)
                    chips["rom_chip"].d[0:6] = [0x90, a >> 8, a & 255, 0x74, v, 0xf0]
                    write(x, a, v)
                else:
                    b = s("set mem rom 0 0x90 %d %d 0xe0" % (a >> 8, a & 255), "pc 0", "step", "step", "expr sfr[0xe0]")
                    chips["rom_chip"].d[0:4] = [0x90, a >> 8, a & 255, 0xe0]
                    checks.append((b, "last", (x.cell(a), "MOVX A,@DPTR of 0x%x" % a)))
            elif k == "code":
                x = sp["rom"]
                a = 16 + r[2] % (N - 20)
                if x.cell(a) is None or x.cell(a + 1) is None:
                    continue
                for z, v in ((a, 0x74), (a + 1, by[0])):
                    m = x.map[z]
                    if m[0].name == "rom_chip" and m[1] < 16:
                        break
                    s("set mem %s %d %d" % (m[0].name, m[1], v))
                    m[0].d[m[1]] = v
                else:
                    if x.cell(a) == 0x74:
                        b = s("pc %d" % a, "step", "expr sfr[0xe0]")
                        checks.append((b, "last", (x.cell(a + 1), "MOV A,# at 0x%x" % a)))
                        o.label("code")
            elif k == "rm":
                if c.name == "rom_chip" or len(chips) < 3:
                    continue
                s("memory remove chip %s" % c.name)
                del chips[c.name]
                for y in sp.values():
                    for dd in list(y.dec):
                        if dd[2] == "bank":
                            if any(b[0] is c for b in dd[4].banks.values()):
                                y.undecode(dd[0], dd[1])
                        elif dd[3] is c:
                            y.undecode(dd[0], dd[1])
                if any(b.live and b.sp.map.get(b.a) is None for b in bankers):
                    # (a banker without its register: not specified)
                    look("rm")
                    break
                o.label("rm")
            elif k == "cell":
                if x.map.get(a) is None:
                    continue
                m = x.map[a]
                if x.name == "bsp" and m[2] is None:
                    continue
                b = s("memory cell %s %d" % (x.name, a))
                checks.append((b, "cell", (m[0].name, m[1], "%s[0x%x]" % (x.name, a))))
            elif k == "bad":
                cmd, msg = self.bad(x, c, a, sel, by)
                if cmd:
                    checks.append((s(cmd), "bad", (msg, cmd)))
                    o.label("refused")
            if sel == 7 or k in ("rm", "bad"):
                look(k)
            # a banker whose register is not decoded any more is not specified
            if any(b.live and b.sp.map.get(b.a) is None for b in bankers):
                break
        look("end")
        r = s.run("s51", args=["-t", "52"])
        if not S.health(r, o, "s51"):
            return o
        o.units = s.n
        o.nontrivial = nt > 0
        for b, kind, arg in checks:
            t = r.blocks[b]
            if kind == "quiet":
                if [l for l in t if l.strip()]:
                    o.fail("quiet", "%s printed %r" % (arg, t[:3]))
            elif kind == "last":
                g = [l for l in t if l.strip()][-1:]
                if not g or not re.match(r"^(0x)?-?[0-9a-f]+$", g[0].strip()) or int(g[0], 0) & 255 != arg[0]:
                    o.fail("exec", "%s: %r, expected %d" % (arg[1], g, arg[0]))
            elif kind == "bad":
                if not any(arg[0] in l for l in t):
                    o.fail("refuse", "%s: %r, expected %s" % (arg[1], t[:3], arg[0]))
            elif kind == "cell":
                g = [l.strip() for l in t if "decoded to" in l]
                if g != ["decoded to %s[%d]" % arg[:2]]:
                    o.fail("cell", "memory cell of %s: %r, expected %s[%d]" % (arg[2], g, arg[0], arg[1]))
            elif kind == "dump":
                self.cmp(o, t, *arg)
            elif kind == "info":
                self.info(o, t, *arg)
        return o

    def movx(self, s, a, v):
        s("set mem rom_chip 0 0x90 %d %d 0x74 %d 0xf0" % (a >> 8, a & 255, v), "pc 0", "step", "step", "step")

    def partly(self, x, a, e, bankers):
        """bankers and banders are only replaced as a whole; the register of a banker stays where it is"""
        for d in x.dec:
            if d[2] != "chip" and d[0] <= e and d[1] >= a and not (a <= d[0] and e >= d[1]):
                return True
        return any(b.live and b.sp is x and a <= b.a <= e for b in bankers)

    def bad(self, x, c, a, sel, by):
        z = {0: ("memory create addressdecoder %s %d %d %s %d" % (x.name, a, x.hi + 1 + by[0], c.name, 0), "out of address space"),
             1: ("memory create addressdecoder %s %d %d %s %d" % (x.name, a, a, c.name, c.size + by[0]), "Wrong chip area"),
             2: ("memory create addressdecoder %s %d %d %s %d" % (x.name, a + 1 + by[0], a, c.name, 0), "Wrong address area"),
             3: ("memory create addressdecoder %s %d %d %s %d" % (x.name, x.start, x.start + 1, c.name, c.size - 1), "out of chip size"),
             4: ("memory create addressdecoder %s %d %d %s %d" % (x.name, a, a, x.name, 0), "not a memory chip"),
             5: ("memory create addressdecoder %s %d %d %s %d" % (c.name, a, a, c.name, 0), "not an address space"),
             6: ("memory create chip zz 0 8", "Wrong size"),
             7: ("memory create addressdecoder %s" % x.name, "memory create addressdecoder")}[sel]
        if sel == 0 and x.hi + 1 + by[0] - a >= c.size:
            return z[0], ""
        return z

    def cmp(self, o, t, name, want, what, wide):
        got = {}
        top = max(want)
        for l in t:
            m = ROW.match(l)
            if m:
                a = int(m.group(1), 16)
                # (behind the values there are characters)
                v = m.group(2).split()[:min(4 if wide else 8, top - a + 1)]
                for i, z in enumerate(v):
                    if a + i in want and a + i not in got:
                        got[a + i] = int(z, 16)
        bad = [a for a in want if a not in got or (want[a] is not None and got[a] != want[a])]
        if bad:
            a = bad[0]
            o.fail("map", "%s[0x%x] is %s, expected 0x%x (%d addresses differ; after %s)" % (
                name, a, "0x%x" % got[a] if a in got else "missing", want[a] or 0, len(bad), what))

    def info(self, o, t, want, what):
        got = []
        on = False
        for l in t:
            if l.startswith("Address decoders"):
                on = True
            if not on:
                continue
            m = re.match(r"^\s+(\w+) (0x[0-9a-f]+) (0x[0-9a-f]+) -> (.*)$", l)
            if not m or m.group(1) not in ("rom", "xram", "asp", "bsp", "wsp", "lsp"):
                continue
            n, b, e, rest = m.group(1), int(m.group(2), 16), int(m.group(3), 16), m.group(4)
            p = re.match(r"^(\w+) (0x[0-9a-f]+) activated$", rest)
            q = re.match(r"^bander\((\d+)/(\d+)\) (\w+) (0x[0-9a-f]+) activated$", rest)
            if rest == "banked":
                got.append((n, b, e, "banked"))
            elif p:
                got.append((n, b, e, p.group(1), int(p.group(2), 16)))
            elif q:
                got.append((n, b, e, "bander", int(q.group(1)), int(q.group(2)), q.group(3), int(q.group(4), 16)))
            else:
                got.append((n, b, e, rest))
        if sorted(map(str, got)) != sorted(map(str, want)):
            a = sorted(set(map(str, got)) - set(map(str, want)))
            b = sorted(set(map(str, want)) - set(map(str, got)))
            o.fail("info", "info memory lists %s, expected %s (after %s)" % (a[:3], b[:3], what))

    def sample(self, case):
        return "%s; %s; %s" % (case["chips"], case["spaces"], " ".join(x[0] for x in case["ops"]))


CHECK = C04()

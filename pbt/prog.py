"""Small generated programs for several CPUs, with a model of what they execute.

A program is built from a tiny intermediate language: no-operations, stores and loads of
data cells, counted loops and calls.  Each backend compiles it into machine code; the
model gives the sequence of executed instructions (address, data accesses, call depth).
"""


class Ins:
    __slots__ = ("addr", "size", "words", "kind", "arg", "n")

    def __init__(self, words, kind=None, arg=None):
        self.words = words          # list of ints, or a function(resolve, addr) -> list
        self.kind = kind            # None ldc djnz call ret wr rd halt
        self.arg = arg
        self.addr = 0
        self.size = len(words) if isinstance(words, list) else arg[-1]


class CPU:
    sim = None
    args = []
    code = "rom"
    base = 0x200
    data = ("rom", 0x4000, 0x4100)
    pcmax = 0xffff
    setup = []
    loops = 2
    wordbits = 8
    halt_len = 3
    spvar = None
    pairs = False

    def multi(self, d, cells):
        return None

    def be(self, a):
        return [a >> 8 & 255, a & 255]

    def le(self, a):
        return [a & 255, a >> 8 & 255]


def rel8(op):
    """op + signed 8-bit distance from the end of the instruction"""
    def f(target):
        def g(res, addr, size):
            d = res(target) - (addr + size)
            assert -128 <= d <= 127
            return op + [d & 255]
        return g
    return f


class Z80(CPU):
    sim = "z80"
    pairs = True
    setup = ["expr /n SP=0xff00"]

    def nop(self): return [Ins([0])]
    def wr(self, sp, a, v): return [Ins([0x3e, v]), Ins([0x32] + self.le(a), "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0x3a] + self.le(a), "rd", (sp, a))]
    def ldc(self, r, n): return [Ins([0x06 if r == 0 else 0x0e, n], "ldc", (r, n))]

    def djnz(self, r, t):
        if r == 0:
            return [Ins(rel8([0x10])(t), "djnz", (r, t, 2))]
        return [Ins([0x0d], "dec", (r,)), Ins(rel8([0x20])(t), "jnz", (r, t, 2))]

    def call(self, t): return [Ins(lambda res, a, s: [0xcd] + self.le(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0xc9], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0xc3] + self.le(a), "halt", (3,))]


    def multi(self, d, cells):
        """operations with several accesses: two cells at once"""
        c = d.choice([x for x in cells if [x[0], x[1] + 1] in cells])
        return ["m", d.choice(["ld2", "st2"]), c[0], c[1], d.bits(16)]

    def mk(self, op, sp, a, v):
        if op == "ld2":
            return [Ins([0x2a] + self.le(a), "acc", [("rd", sp, a), ("rd", sp, a + 1)])]
        return [Ins([0x21] + self.le(v)), Ins([0x22] + self.le(a), "acc", [("wr", sp, a, v & 255), ("wr", sp, a + 1, v >> 8)])]


class I8085(Z80):
    sim = "i8085"

    def djnz(self, r, t):
        return [Ins([0x05 if r == 0 else 0x0d], "dec", (r,)),
                Ins(lambda res, a, s: [0xc2] + self.le(res(t)), "jnz", (r, t, 3))]


class S51(CPU):
    sim = "s51"
    data = ("xram", 0x4000, 0x4100)
    data2 = ("iram", 0x38, 0x70)
    setup = ["expr /n SP=0x80"]

    def nop(self): return [Ins([0])]

    def wr(self, sp, a, v):
        if sp == "iram":
            return [Ins([0x75, a, v], "wr", (sp, a, v))]
        return [Ins([0x90] + self.be(a)), Ins([0x74, v]), Ins([0xf0], "wr", (sp, a, v))]

    def rd(self, sp, a):
        if sp == "iram":
            return [Ins([0xe5, a], "rd", (sp, a))]
        return [Ins([0x90] + self.be(a)), Ins([0xe0], "rd", (sp, a))]

    def ldc(self, r, n): return [Ins([0x7f - r, n], "ldc", (r, n))]
    def djnz(self, r, t): return [Ins(rel8([0xdf - r])(t), "djnz", (r, t, 2))]
    def call(self, t): return [Ins(lambda res, a, s: [0x12] + self.be(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0x22], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0x02] + self.be(a), "halt", (3,))]


    def multi(self, d, cells):
        c = [x for x in cells if x[0] == "iram"]
        if not c:
            return None
        x, y = d.choice(c), d.choice(c)
        return ["m", d.choice(["inc", "mov"]), x[0], x[1], y[1]]

    def mk(self, op, sp, a, v):
        if op == "inc":
            return [Ins([0x05, a], "acc", [("rd", sp, a), ("wr", sp, a, ["inc"])])]
        return [Ins([0x85, v, a], "acc", [("rd", sp, v), ("wr", sp, a, ["copy", sp, v])])]


class AVR(CPU):
    sim = "avr"
    data = ("iram", 0x200, 0x300)
    setup = ["expr /n SPL=0xff", "expr /n SPH=0x0f"]
    wordbits = 16

    def nop(self): return [Ins([0])]
    def ldi(self, r, v): return 0xe000 | (v & 0xf0) << 4 | (r - 16) << 4 | v & 15
    def wr(self, sp, a, v): return [Ins([self.ldi(16, v)]), Ins([0x9300, a], "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0x9100, a], "rd", (sp, a))]
    def ldc(self, r, n): return [Ins([self.ldi(17 + r, n)], "ldc", (r, n))]

    def djnz(self, r, t):
        def br(res, a, s):
            d = res(t) - (a + 1)
            assert -64 <= d <= 63
            return [0xf401 | (d & 0x7f) << 3]
        return [Ins([0x900a + 0x400 | (17 + r & 15) << 4 | 0x100], "dec", (r,)), Ins(br, "jnz", (r, t, 1))]

    def call(self, t): return [Ins(lambda res, a, s: [0x940e, res(t)], "call", (t, 2))]
    def ret(self): return [Ins([0x9508], "ret")]
    def halt(self): return [Ins([0xcfff], "halt")]


class STM8(CPU):
    sim = "stm8"
    base = 0x600
    data = ("rom", 0x200, 0x300)
    setup = ["expr /n SP=0x17ff"]

    def nop(self): return [Ins([0x9d])]
    def wr(self, sp, a, v): return [Ins([0xa6, v]), Ins([0xc7] + self.be(a), "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0xc6] + self.be(a), "rd", (sp, a))]
    def ldc(self, r, n): return [Ins(([0xae] if r == 0 else [0x90, 0xae]) + [0, n], "ldc", (r, n))]

    def djnz(self, r, t):
        return [Ins([0x5a] if r == 0 else [0x90, 0x5a], "dec", (r,)), Ins(rel8([0x26])(t), "jnz", (r, t, 2))]

    def call(self, t): return [Ins(lambda res, a, s: [0xcd] + self.be(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0x81], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0xcc] + self.be(a), "halt", (3,))]


class MOS6502(CPU):
    sim = "mos6502"

    def multi(self, d, cells):
        c = d.choice(cells)
        return ["m", "inc", c[0], c[1], 0]

    def mk(self, op, sp, a, v):
        return [Ins([0xee] + self.le(a), "acc", [("rd", sp, a), ("wr", sp, a, ["inc"])])]

    def nop(self): return [Ins([0xea])]
    def wr(self, sp, a, v): return [Ins([0xa9, v]), Ins([0x8d] + self.le(a), "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0xad] + self.le(a), "rd", (sp, a))]
    def ldc(self, r, n): return [Ins([0xa2 if r == 0 else 0xa0, n], "ldc", (r, n))]

    def djnz(self, r, t):
        return [Ins([0xca if r == 0 else 0x88], "dec", (r,)), Ins(rel8([0xd0])(t), "jnz", (r, t, 2))]

    def call(self, t): return [Ins(lambda res, a, s: [0x20] + self.le(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0x60], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0x4c] + self.le(a), "halt", (3,))]


class HC08(CPU):
    sim = "m68hc08"
    base = 0x9000
    data = ("rom", 0x300, 0x400)
    loops = 1
    # the first step after a reset only takes the reset vector
    setup = ["set mem rom 0xfffe 0x90 0", "step", "expr /n SP=0x2ff"]

    def nop(self): return [Ins([0x9d])]
    def wr(self, sp, a, v): return [Ins([0xa6, v]), Ins([0xc7] + self.be(a), "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0xc6] + self.be(a), "rd", (sp, a))]
    def ldc(self, r, n): return [Ins([0xae, n], "ldc", (r, n))]
    def djnz(self, r, t): return [Ins(rel8([0x5b])(t), "djnz", (r, t, 2))]
    def call(self, t): return [Ins(lambda res, a, s: [0xcd] + self.be(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0x81], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0xcc] + self.be(a), "halt", (3,))]


class M6809(CPU):
    sim = "m6809"
    pairs = True

    def multi(self, d, cells):
        c = d.choice([x for x in cells if [x[0], x[1] + 1] in cells])
        return ["m", d.choice(["ld2", "st2", "inc"]), c[0], c[1], d.bits(16)]

    def mk(self, op, sp, a, v):
        if op == "inc":
            return [Ins([0x7c] + self.be(a), "acc", [("rd", sp, a), ("wr", sp, a, ["inc"])])]
        if op == "ld2":
            return [Ins([0xfc] + self.be(a), "acc", [("rd", sp, a), ("rd", sp, a + 1)])]
        return [Ins([0xcc] + self.be(v)), Ins([0xfd] + self.be(a), "acc", [("wr", sp, a, v >> 8), ("wr", sp, a + 1, v & 255)])]
    setup = ["expr /n S=0x3f00"]

    def nop(self): return [Ins([0x12])]
    def wr(self, sp, a, v): return [Ins([0x86, v]), Ins([0xb7] + self.be(a), "wr", (sp, a, v))]
    def rd(self, sp, a): return [Ins([0xb6] + self.be(a), "rd", (sp, a))]
    def ldc(self, r, n): return [Ins(([0x8e] if r == 0 else [0x10, 0x8e]) + [0, n], "ldc", (r, n))]

    def djnz(self, r, t):
        return [Ins([0x30, 0x1f] if r == 0 else [0x31, 0x3f], "dec", (r,)), Ins(rel8([0x26])(t), "jnz", (r, t, 2))]

    def call(self, t): return [Ins(lambda res, a, s: [0xbd] + self.be(res(t)), "call", (t, 3))]
    def ret(self): return [Ins([0x39], "ret")]
    def halt(self): return [Ins(lambda res, a, s: [0x7e] + self.be(a), "halt", (3,))]


CPUS = {c.sim: c for c in (Z80, I8085, S51, AVR, STM8, MOS6502, HC08, M6809)}


# -- generation of the intermediate language

def gen_items(d, cpu, cells, nmax, depth, ncalls):
    out = []
    n = d.int(1, nmax)
    for i in range(n):
        k = d.weighted([(3, "n"), (4, "w"), (4, "r"), (2, "m")] + ([(2, "l")] if depth < cpu.loops else []) +
                       ([(2, "c")] if ncalls else []))
        if k == "n":
            out.append(["n"])
        elif k == "w":
            c = d.choice(cells)
            out.append(["w", c[0], c[1], d.choice([0, 1, 2, 3, d.bits(8)])])
        elif k == "r":
            c = d.choice(cells)
            out.append(["r", c[0], c[1]])
        elif k == "m":
            out.append(cpu.multi(d, cells) or ["n"])
        elif k == "l":
            out.append(["l", d.int(1, 5), gen_items(d, cpu, cells, 3 if depth else 5, depth + 1, ncalls)])
        else:
            out.append(["c", d.below(ncalls)])
    return out


def gen_prog(d, sims=None, nmax=10, big=0):
    name = d.choice(sims or list(CPUS))
    cpu = CPUS[name]()
    cells = []
    for i in range(d.int(1, 4)):
        sp, lo, hi = cpu.data
        if hasattr(cpu, "data2") and d.bool(0.4):
            sp, lo, hi = cpu.data2
        c = [sp, lo + d.below(hi - lo)]
        if c not in cells:
            cells.append(c)
    if cpu.pairs:
        for c in list(cells):
            c = [c[0], c[1] + 1]
            if c not in cells:
                cells.append(c)
    # subroutines hold no loops of their own registers: a loop is never entered while its counter runs
    nsub = d.int(0, 2)
    subs = []
    for k in range(nsub):
        subs.append(gen_items(d, _NoLoop(cpu), cells, 4, 9, k))
    if big and d.bool(big):
        main = [["l", d.int(60, 250), gen_items(d, cpu, cells, 5, 1, nsub)]]
        main += gen_items(d, cpu, cells, 3, 0, nsub)
    else:
        main = gen_items(d, cpu, cells, nmax, 0, nsub)
    return dict(sim=name, cells=cells, subs=subs, main=main)


class _NoLoop:
    def __init__(self, cpu):
        self.loops = 0
        self.multi = cpu.multi


class Prog:
    def __init__(self, p):
        self.p = p
        self.cpu = cpu = CPUS[p["sim"]]()
        self.ins = []
        self.labels = {}
        self._items(p["main"], 0)
        self.ins += cpu.halt()
        for k, s in enumerate(p["subs"]):
            self.labels["s%d" % k] = len(self.ins)
            self._items(s, 9)
            self.ins += cpu.ret()
        a = cpu.base
        for i in self.ins:
            i.addr = a
            a += i.size
        self.end = a
        self.by_addr = {i.addr: k for k, i in enumerate(self.ins)}

        def res(t):
            return self.ins[self.labels[t]].addr
        self.res = res
        for i in self.ins:
            if not isinstance(i.words, list):
                i.words = i.words(res, i.addr, i.size)
                assert len(i.words) == i.size
        self.code = []
        for i in self.ins:
            self.code += i.words

    def _items(self, items, depth):
        c = self.cpu
        for it in items:
            if it[0] == "n":
                self.ins += c.nop()
            elif it[0] == "w":
                self.ins += c.wr(it[1], it[2], it[3])
            elif it[0] == "r":
                self.ins += c.rd(it[1], it[2])
            elif it[0] == "m":
                self.ins += c.mk(*it[1:])
            elif it[0] == "c":
                self.ins += c.call("s%d" % it[1])
            elif it[0] == "l":
                self.ins += c.ldc(depth, it[1])
                lab = "l%d" % len(self.ins)
                self.labels[lab] = len(self.ins)
                self._items(it[2], depth + 1)
                self.ins += c.djnz(depth, lab)

    def trace(self, limit=3000):
        """list of (addr, kind, arg, depth): executed instructions up to the final jump to itself,
        which comes last; None when longer than limit"""
        out = []
        k = 0
        regs = [0, 0, 0]
        stack = []
        while len(out) < limit:
            i = self.ins[k]
            out.append((i.addr, i.kind, i.arg, len(stack)))
            if i.kind == "halt":
                return out
            k += 1
            if i.kind == "ldc":
                regs[i.arg[0]] = i.arg[1]
            elif i.kind == "dec":
                regs[i.arg[0]] = (regs[i.arg[0]] - 1) & 255
            elif i.kind == "djnz":
                r = i.arg[0]
                regs[r] = (regs[r] - 1) & 255
                if regs[r]:
                    k = self.labels[i.arg[1]]
            elif i.kind == "jnz":
                if regs[i.arg[0]]:
                    k = self.labels[i.arg[1]]
            elif i.kind == "call":
                stack.append(k)
                k = self.labels[i.arg[0]]
            elif i.kind == "ret":
                k = stack.pop()
        return None

    def load(self, watch0=True):
        """commands that place the program and clear its data cells"""
        c = self.cpu
        out = []
        for a in range(0, len(self.code), 64):
            out.append("set mem %s %d %s" % (c.code, c.base + a, " ".join(str(x) for x in self.code[a:a + 64])))
        for sp, a in self.p["cells"]:
            out.append("set mem %s %d 0" % (sp, a))
        out += c.setup
        out.append("set opt selfjump_stop 1")
        out.append("pc %d" % c.base)
        return out

"""Expressions against a reference evaluator."""
from ..engine import Check, Outcome
from .. import sim as S

# spaces: sim -> [(name, bits, lo, hi)] of plain memory
SPACES = {
    "s51": [("rom", 8, 0, 0xffff), ("xram", 8, 0, 0xffff), ("iram", 8, 8, 0x7f),
            ("rom_chip", 8, 0, 0x7fff)],
    "avr": [("rom", 16, 0, 0xffff), ("iram", 8, 0x100, 0xffff)],
    "p1516": [("rom", 32, 0, 0x1ffff)],
}
BIN = {  # op: (precedence, function)
    "*": (12, lambda a, b: a * b),
    "/": (12, None), "%": (12, None),
    "+": (11, lambda a, b: a + b), "-": (11, lambda a, b: a - b),
    "<<": (10, None), ">>": (10, None),
    "<": (9, lambda a, b: int(a < b)), ">": (9, lambda a, b: int(a > b)),
    "<=": (9, lambda a, b: int(a <= b)), ">=": (9, lambda a, b: int(a >= b)),
    "==": (8, lambda a, b: int(a == b)), "!=": (8, lambda a, b: int(a != b)),
    "&": (7, lambda a, b: a & b), "^": (6, lambda a, b: a ^ b), "|": (5, lambda a, b: a | b),
    "&&": (4, lambda a, b: int(a != 0 and b != 0)), "||": (3, lambda a, b: int(a != 0 or b != 0)),
}
ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11}
LO, HI = -(1 << 63), (1 << 63) - 1


def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


class Env:
    """memory model; the generator and the oracle use the same one"""

    def __init__(self, sim):
        self.sim = sim
        self.m = {}
        self.vars = []          # (name, space, addr)

    def key(self, sp, a):
        return ("rom" if sp == "rom_chip" else sp, a)

    def width(self, sp):
        if sp == "variables":
            return 32
        for n, b, lo, hi in SPACES[self.sim]:
            if n == sp:
                return b

    def rd(self, sp, a):
        return self.m.get(self.key(sp, a), None)

    def wr(self, sp, a, v):
        self.m[self.key(sp, a)] = v & ((1 << self.width(sp)) - 1)


# AST: ["n", value, form] ["un", op, e] ["bin", op, a, b] ["cond", c, a, b] ["comma", a, b]
# ["mem", lval] ["int", lval] ["addr", lval] ["bit", lval, h, l] ["asg", op, lval, e]
# ["basg", lval, h, l, e] ["inc", kind, lval] ["par", e]
# lval: ["m", space, addr, addr_expr] or ["v", name, space, addr]

def lit(v, form):
    if form == "h":
        return "0x%x" % v
    if form == "H":
        return "0X%X" % v
    if form == "$":
        return "$%x" % v
    if form == "o":
        return "0%o" % v
    if form == "b":
        return "0b" + format(v, "b")
    if form == "c":
        for k, x in ESC.items():
            if x == v:
                return "'\\%s'" % k
        if 48 <= v < 58 or 65 <= v < 91 or 97 <= v < 123:
            return "'%c'" % v
        return "'\\%03o'" % v
    return "%d" % v


class Bad(Exception):
    pass


class Ev:
    """reference evaluator; raises Bad for what C leaves undefined"""

    def __init__(self, env):
        self.env = env

    def chk(self, v):
        if not LO <= v <= HI:
            raise Bad()
        return v

    def lval(self, l):
        if l[0] == "m":
            a = self.ev(l[3])
            if a != l[2]:
                raise Bad()
            return l[1], l[2]
        return l[2], l[3]

    def ev(self, e):
        k = e[0]
        env = self.env
        if k == "n":
            return e[1]
        if k == "par":
            return self.ev(e[1])
        if k == "un":
            v = self.ev(e[2])
            return self.chk({"-": -v, "+": v, "~": ~v, "!": int(not v)}[e[1]])
        if k == "bin":
            a = self.ev(e[2])
            b = self.ev(e[3])
            op = e[1]
            if op in "/%":
                if b == 0:
                    raise Bad()
                q = self.chk(cdiv(a, b))
                return q if op == "/" else a - q * b
            if op in ("<<", ">>"):
                if not 0 <= b <= 40 or (op == "<<" and a < 0):
                    raise Bad()
                return self.chk(a << b) if op == "<<" else a >> b
            return self.chk(BIN[op][1](a, b))
        if k == "cond":
            c = self.ev(e[1])
            a = self.ev(e[2])
            b = self.ev(e[3])
            return a if c else b
        if k == "comma":
            self.ev(e[1])
            return self.ev(e[2])
        if k == "mem":
            return env.rd(*self.lval(e[1]))
        if k == "int":
            sp, a = self.lval(e[1])
            v = env.rd(sp, a)
            w = env.width(sp)
            return v - (1 << w) if v >> (w - 1) else v
        if k == "addr":
            return self.lval(e[1])[1]
        if k == "bit":
            sp, a = self.lval(e[1])
            return (env.rd(sp, a) >> e[3]) & ((1 << (e[2] - e[3] + 1)) - 1)
        if k == "basg":
            sp, a = self.lval(e[1])
            v = self.ev(e[4])
            mask = ((1 << (e[2] - e[3] + 1)) - 1)
            old = env.rd(sp, a)
            env.wr(sp, a, (old & ~(mask << e[3])) | ((v & mask) << e[3]))
            return v & mask
        if k == "inc":
            sp, a = self.lval(e[2])
            old = env.rd(sp, a)
            env.wr(sp, a, old + (1 if "+" in e[1] else -1))
            return old if e[1][0] == "x" else env.rd(sp, a)
        if k == "asg":
            sp, a = self.lval(e[2])
            v = self.ev(e[3])
            old = env.rd(sp, a)
            op = e[1]
            if op != "=":
                o = op[:-1]
                if o in "/%":
                    if v == 0:
                        raise Bad()
                    q = cdiv(old, v)
                    v = q if o == "/" else old - q * v
                elif o in ("<<", ">>"):
                    if not 0 <= v < 31:
                        raise Bad()
                    v = old << v if o == "<<" else old >> v
                else:
                    v = BIN[o][1](old, v)
            env.wr(sp, a, self.chk(v))
            return env.rd(sp, a)
        raise AssertionError(k)


def show(e, sp):
    """text with the parentheses C precedence needs; sp() gives optional space"""
    return _show(e, sp)[0]


def _lv(l, sp):
    if l[0] == "m":
        return "%s[%s]" % (l[1], show(l[3], lambda: ""))
    return l[1]


def _p(e, sp, need):
    s, p = _show(e, sp)
    return s if p >= need else "(" + s + ")"


def _show(e, sp):
    k = e[0]
    if k == "n":
        return lit(e[1], e[2]), 20
    if k == "par":
        return "(" + sp() + show(e[1], sp) + sp() + ")", 20
    if k == "un":
        s = _p(e[2], sp, 14)
        if s[0] in "+-&":
            s = "(" + s + ")"
        return e[1] + s, 13
    if k == "bin":
        p = BIN[e[1]][0]
        a = _p(e[2], sp, p)
        b = _p(e[3], sp, p + 1)
        if b[0] in "+-&":
            b = "(" + b + ")"
        gt = e[1].startswith(">")
        return a + ("" if gt else sp()) + e[1] + sp() + b, p
    if k == "cond":
        return "%s%s?%s%s%s:%s%s" % (_p(e[1], sp, 3), sp(), sp(), _p(e[2], sp, 1), sp(), sp(),
                                     _p(e[3], sp, 2)), 2
    if k == "comma":
        return "%s%s,%s%s" % (_p(e[1], sp, 1), sp(), sp(), _p(e[2], sp, 1)), 0
    if k == "mem":
        return _lv(e[1], sp), 20
    if k == "int":
        return "(int)" + _lv(e[1], sp), 13
    if k == "addr":
        return "(&" + _lv(e[1], sp) + ")", 20
    if k == "bit":
        if e[2] == e[3] and not e[4]:
            return "(%s.%d)" % (_lv(e[1], sp), e[2]), 20
        return "%s[%d:%d]" % ((_lv(e[1], sp),) + ((e[2], e[3]) if e[4] != 2 else (e[3], e[2]))), 20
    if k == "basg":
        l = _lv(e[1], sp)
        t = "%s.%d" % (l, e[2]) if e[2] == e[3] else "%s[%d:%d]" % (l, e[2], e[3])
        return "(%s%s=%s%s)" % (t, sp(), sp(), _pre(_p(e[4], sp, 1))), 20
    if k == "inc":
        l = _lv(e[2], sp)
        return "(%s)" % (l + e[1][1:] if e[1][0] == "x" else e[1][:2] + l), 20
    if k == "asg":
        gt = e[1].startswith(">")
        return "%s%s%s%s%s" % (_lv(e[2], sp), "" if gt else sp(), e[1], sp(),
                               _pre(_p(e[3], sp, 1))), 1
    raise AssertionError(k)


def _pre(s):
    return s


FORMATS = "xX$0doubBLc"


def fmt(v, f):
    u = v & 0xffffffff
    s = u - (1 << 32) if u >> 31 else u
    if f == "x":
        return "%x" % u
    if f == "X":
        return "0x%x" % u
    if f == "$":
        return "$%x" % u
    if f == "0":
        return "0x%08x" % u
    if f == "d":
        return "%d" % s
    if f == "o":
        return "%o" % u
    if f == "u":
        return "%d" % u
    if f == "b":
        return format(u, "032b")
    if f == "B":
        return "1" if u else "0"
    if f == "L":
        return "T" if u else "F"
    if f == "c":
        if 32 <= u < 127:
            return "'%c'" % u
        for k, x in list(ESC.items()) + [("e", 27)]:
            if x == u:
                return "'\\%s'" % k
        return "'\\%03o'" % u


class C(Check):
    id = "C05"
    sims = ["s51", "avr", "p1516"]
    unit_name = "expressions"
    n_quick = 6000
    n_thorough = 60000
    rule = ("a case is 1..40 expressions over memory cells and variables, printed with minimal or "
            "redundant parentheses; non-trivial when an expression with at least 3 operators was "
            "evaluated")

    def gen(self, d):
        sim = d.choice(self.sims)
        env = Env(sim)
        self.d = d
        cells = []
        setup = []
        for i in range(d.int(2, 7)):
            n, b, lo, hi = d.choice(SPACES[sim])
            a = d.weighted([(3, d.int(lo, min(hi, lo + 64))), (1, d.int(lo, hi))])
            v = d.edge(b)
            if env.rd(n, a) is None:
                env.wr(n, a, v)
                cells.append(["m", n, a])
                setup.append([n, a, v])
        vars = []
        for i in range(d.int(0, 4)):
            nm = d.choice(["v_", "zz", "Q9_", "_k"]) + "%d" % i
            mc = [c for c in cells if c[0] == "m" and c[1] != "rom_chip"]
            if mc and d.bool(0.5):
                c = d.choice(mc)
                vars.append([nm, c[1], c[2], 0])
                cells.append(["v", nm, c[1], c[2]])
            else:
                v = d.edge(32)
                vars.append([nm, "variables", i, v])
                env.wr("variables", i, v)
                cells.append(["v", nm, "variables", i])
        self.cells = cells
        ex = []
        ev = Ev(env)
        for i in range(d.int(1, 40)):
            save = dict(env.m)
            for depth in (d.int(0, 5), 3, 2, 1, -1):
                self.used = set()
                self.written = set()
                env.m = dict(save)
                e = self.expr(env, depth, True) if depth >= 0 else \
                    ["bin", "+", ["mem", self.lv(env, False)], ["n", d.int(0, 9), "d"]]
                nops = count(e)
                try:
                    v = ev.ev(e)
                    break
                except Bad:
                    pass
            style = d.weighted([(3, "expr"), (2, "bare")])
            spaces = style == "bare"
            txt = show(e, (lambda: " " if d.bool(0.3) else "") if spaces else (lambda: ""))
            f = ""
            if style == "expr":
                f = "".join(d.choice(FORMATS) for _ in range(d.int(0, 3)))
                cmd = "expr %s%s" % ("/" + f + " " if f else "", txt)
            else:
                if not (txt[0].isdigit() or txt[0] in "(" or txt.startswith(("v_", "zz", "Q9_", "_k"))):
                    txt = "(" + txt + ")"
                cmd = txt
            ex.append([cmd, [fmt(v, x) for x in f] if f else [fmt(v, "d")], nops])
        final = [[k[0], k[1], v] for k, v in sorted(env.m.items())]
        return dict(sim=sim, setup=setup, vars=vars, ex=ex, final=final)

    def lv(self, env, write):
        d = self.d
        ok = []
        for c in self.cells:
            k = env.key(c[-2], c[-1])
            if k in self.written or (write and k in self.used):
                continue
            ok.append(c)
        if not ok:
            return None
        c = d.choice(ok)
        k = env.key(c[-2], c[-1])
        (self.written if write else self.used).add(k)
        if c[0] == "m":
            # address expression
            a = c[2]
            ae = ["n", a, "d"]
            r = d.below(4)
            if r == 1:
                ae = ["n", a, d.choice(["h", "o", "$", "b"])]
            elif r == 2:
                x = d.int(0, a)
                ae = ["bin", "+", ["n", x, "d"], ["n", a - x, "h"]]
            return ["m", c[1], a, ae]
        return c

    def number(self):
        d = self.d
        f = d.choice(["d", "h", "H", "$", "o", "b", "c"])
        if f == "c":
            return ["n", d.choice([ord("A"), ord("z"), ord("5"), 10, 9, 13, 7, 8, 12, 11, 27, 1, 0o77]), f]
        r = d.below(4)
        v = d.int(0, 9) if r == 0 else d.edge(8) if r == 1 else d.edge(16) if r == 2 else d.edge(32)
        return ["n", v, f]

    def expr(self, env, depth, side):
        """side: side effects allowed here"""
        d = self.d
        if depth <= 0:
            if d.bool(0.5):
                return self.number()
            l = self.lv(env, False)
            if l is None:
                return self.number()
            r = d.below(6)
            if r == 1 and l[0] == "m":
                return ["int", l]
            if r == 2 and l[0] == "m":
                return ["addr", l]
            if r == 3 and l[0] == "m":
                w = env.width(l[1])
                h = d.below(w)
                lo = d.int(0, h)
                if d.bool():
                    lo = h
                return ["bit", l, h, lo, d.below(3)]
            return ["mem", l]
        r = d.weighted([(10, "bin"), (3, "un"), (2, "par"), (2, "cond"), (2, "asg"), (1, "inc"),
                        (1, "basg"), (1, "comma")])
        if not side and r in ("asg", "inc", "basg", "comma"):
            r = "bin"
        if r == "un":
            return ["un", d.choice(["-", "~", "!", "+"]), self.expr(env, depth - 1, side)]
        if r == "par":
            return ["par", self.expr(env, depth - 1, side)]
        if r == "cond":
            return ["cond", self.expr(env, depth - 2, side), self.expr(env, depth - 2, False),
                    self.expr(env, depth - 1, False)]
        if r == "comma":
            a = self.expr(env, depth - 1, True)
            # a sequence point
            self.used, u0 = set(), self.used
            self.written, w0 = set(), self.written
            # cells touched outside of this comma operator stay out of bounds
            out = w0 | u0
            self.written |= out
            b = self.expr(env, depth - 1, True)
            self.used |= u0
            return ["par", ["comma", a, b]]
        if r in ("asg", "inc", "basg"):
            l = self.lv(env, True)
            if l is not None:
                if r == "inc":
                    return ["inc", d.choice(["x++", "x--", "++x", "--x"]), l]
                if r == "basg" and l[0] == "m":
                    w = env.width(l[1])
                    h = d.below(w)
                    lo = d.int(0, h)
                    if d.bool():
                        lo = h
                    return ["basg", l, h, lo, self.expr(env, depth - 1, True)]
                op = d.weighted([(5, "=")] + [(1, x) for x in ("*=", "/=", "%=", "+=", "-=", "<<=",
                                                               ">>=", "&=", "^=", "|=")])
                if op in ("<<=", ">>="):
                    return ["par", ["asg", op, l, ["n", d.int(0, 20), "d"]]]
                return ["par", ["asg", op, l, self.expr(env, depth - 1, True)]]
        op = d.choice(sorted(BIN))
        a = self.expr(env, depth - 1, side)
        if op in ("<<", ">>"):
            return ["bin", op, a, ["n", d.int(0, 31), "d"]]
        if op in "/%":
            if d.bool(0.5):
                return ["bin", op, a, ["n", d.int(1, 300), "d"]]
            return ["bin", op, a, ["par", ["bin", "|", ["n", 1, "d"], self.expr(env, depth - 2, False)]]]
        return ["bin", op, a, self.expr(env, depth - 1, side and op not in ("&&", "||"))]

    def run(self, case):
        o = Outcome()
        sc = S.Script()
        for sp, a, v in case["setup"]:
            sc("set mem %s %d %d" % (sp, a, v))
        for nm, sp, a, v in case["vars"]:
            if sp == "variables":
                sc("var %s variables %d" % (nm, a), "set mem variables %d %d" % (a, v))
            else:
                sc("var %s %s %d" % (nm, sp, a))
        idx = [sc(cmd) for cmd, exp, n in case["ex"]]
        # division by zero must be harmless
        bz = sc("expr 5/(3-3)", "expr 7%0")
        fi = [sc("expr /u %s[%d]" % (sp, a)) for sp, a, v in case["final"]]
        r = sc.run(case["sim"])
        o.units = len(idx)
        for (cmd, exp, n), b in zip(case["ex"], idx):
            if n >= 3:
                o.nontrivial = True
            if b >= len(r.blocks):
                break
            # the command line splitter may complain about an operand it takes for an
            # array or bit parameter; what counts is the value
            got = [x for x in r.blocks[b] if not x.startswith(("Incomplete ", "Missing ']'"))]
            if got != exp:
                o.fail("value", "`%s` prints %r, expected %r" % (cmd, got, exp))
                return o
        if not S.health(r, o, "expressions"):
            return o
        if any("ivide by zero" not in x and x.strip() != "0" for x in r.blocks[bz]):
            o.label("div0-other")
        for (sp, a, v), b in zip(case["final"], fi):
            if r.blocks[b] != ["%d" % v]:
                o.fail("memory", "%s[%#x] is %r after the expressions, expected %d" % (sp, a, r.blocks[b], v))
                break
        return o

    def sample(self, case):
        return [x[:2] for x in case["ex"][:6]]


def count(e):
    n = 1 if e[0] in ("un", "bin", "cond", "asg", "basg", "inc", "comma") else 0
    return n + sum(count(x) for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str))


CHECK = C()

"""Memory commands (dump, set memory, fill, where, hole, ihex round trip) against a model."""
from .engine import Check, Outcome
from . import sim as S
from .engine import ROOT  # noqa

ESCS = [("\\n", 10), ("\\t", 9), ("\\\\", 92), ("\\\"", 34)]


def nbytes(w):
    return 1 if w <= 8 else 2 if w <= 16 else 3 if w <= 24 else 4


class Mem:
    def __init__(self, name, width, lo, hi, data=None):
        self.name, self.w, self.lo, self.hi = name, width, lo, hi
        self.d = data if data is not None else {}
        self.nxt = lo       # where a dump without a start address continues (None: unspecified)
        self.vars = {}      # addr -> (name, high, low)
        self.space = False

    def get(self, a):
        return self.d.get(a - self.lo, 0)

    def put(self, a, v):
        if self.lo <= a <= self.hi:
            self.d[a - self.lo] = v & ((1 << self.w) - 1)


def chars(v, w):
    return "".join(chr((v >> i) & 255) if 32 <= ((v >> i) & 255) < 127 else "."
                   for i in range(0, (w - 1) - ((w - 1) % 8) + 1, 8))


class Row:
    def __init__(self, addr, vals, w, label=None):
        self.addr, self.vals, self.w, self.label = addr, vals, w, label

    def check(self, ln):
        t = ln.split()
        try:
            if int(t[0], 16) != self.addr:
                return False
        except (ValueError, IndexError):
            return False
        rest = ln[len(t[0]):]
        if self.label:
            if len(t) < 2 or t[1] != self.label + ":":
                return False
            rest = rest[rest.index(":") + 1:]
        dg = (self.w + 3) // 4
        head = " ".join("%0*x" % (dg, v) for v in self.vals)
        tail = "".join(chars(v, self.w) for v in self.vals)
        rest = rest.lstrip(" ")
        if not rest.startswith(head + " "):
            return False
        rest = rest[len(head):]
        return rest.endswith(" " + tail) and rest[:len(rest) - len(tail)].strip(" ") == ""

    def __repr__(self):
        return "%#x %s%s" % (self.addr, (self.label + ": ") if self.label else "",
                             " ".join("%0*x" % ((self.w + 3) // 4, v) for v in self.vals))


class BitRow:
    def __init__(self, addr, v, w, hi, lo, label=None, first=True):
        self.addr, self.v, self.w, self.hi, self.lo, self.label, self.first = addr, v, w, hi, lo, label, first

    def text(self):
        n = self.hi - self.lo + 1
        m = (self.v >> self.lo) & ((1 << n) - 1)
        b = "0b" + "-" * (self.w - 1 - self.hi) + format(m, "0%db" % n) + "-" * self.lo
        s = "%s 0x%0*x '%s' %*d" % (b, 8 if n > 16 else 4 if n > 8 else 2, m, chars(m, n),
                                    10 if n > 16 else 5 if n > 8 else 3, m)
        if n == self.w and m >> (n - 1):
            s += " (%*d)" % (10 if n > 16 else 5 if n > 8 else 3, m - (1 << n))
        return s

    def check(self, ln):
        k = ln.find(" 0b") + 1
        if k <= 0 or ln[k:] != self.text():
            return False
        h = ln[:k].split()
        if self.first:
            a = h.pop(0)
            sfx = ""
            for c in ".[":
                if c in a:
                    a, sfx = a[:a.index(c)], a[a.index(c):]
                    break
            if int(a, 16) != self.addr:
                return False
            if sfx and sfx != self.suffix():
                return False
        return h in ([self.label + ":"], [self.label + self.suffix() + ":"]) if self.label else h in ([], [self.suffix()])

    def suffix(self):
        return ".%d" % self.hi if self.hi == self.lo else "[%d:%d]" % (self.hi, self.lo)

    def __repr__(self):
        return "%#x %s %s" % (self.addr, self.label or self.suffix(), self.text())


def rows(m, a, b, bpl=None, lines=None):
    """hexadecimal dump of a..b; returns rows and the address after the last one"""
    if bpl is None:
        bpl = 4 if m.w > 16 else 8
    a = max(a, m.lo)
    b = min(b, m.hi)
    out = []
    if a > b:
        return out, None
    while a <= b and (lines is None or lines > 0):
        e = min(a + bpl, b + 1)
        out.append(Row(a, [m.get(x) for x in range(a, e)], m.w))
        a = e
        if lines is not None:
            lines -= 1
    return out, a


def smart_rows(m, a, b, bpl=None, lines=None):
    if bpl is None:
        bpl = 4 if m.w > 16 else 8
    a = max(a, m.lo)
    b = min(b, m.hi)
    out = []
    if a > b:
        return out, None
    while a <= b and (lines is None or lines > 0):
        v = m.vars.get(a)
        if v and v[1] >= 0:
            if (v[1], v[2]) == (m.w - 1, 0):
                out.append(BitRow(a, m.get(a), m.w, v[1], v[2], v[0]))
            else:
                out.append(BitRow(a, m.get(a), m.w, m.w - 1, 0))
                out.append(BitRow(a, m.get(a), m.w, v[1], v[2], v[0], first=False))
                if lines is not None:
                    return None, None
            a += 1
        else:
            e = min(a + bpl, b + 1)
            for x in range(a + 1, e):
                if x in m.vars:
                    e = x
                    break
            out.append(Row(a, [m.get(x) for x in range(a, e)], m.w, v[0] if v else None))
            a = e
        if lines is not None:
            lines -= 1
    return out, a


def ihex_decode(text):
    """-> {byte address: value}, or an error text"""
    out = {}
    ext = 0
    end = False
    for ln in text.replace("\r", "").split("\n"):
        if ln == "":
            continue
        if ln[0] != ":":
            return "line %r" % ln
        if end:
            return "record after the end record"
        try:
            r = bytes.fromhex(ln[1:])
        except ValueError:
            return "line %r" % ln
        if len(r) < 5 or len(r) != r[0] + 5:
            return "record length %r" % ln
        if sum(r) & 255:
            return "checksum of %r" % ln
        a = r[1] * 256 + r[2]
        if r[3] == 1:
            end = True
        elif r[3] == 4:
            ext = (r[4] * 256 + r[5]) << 16
        elif r[3] == 0:
            for k, v in enumerate(r[4:-1]):
                if ext + a + k in out:
                    return "address %x twice" % (ext + a + k)
                out[ext + a + k] = v
        else:
            return "record type %d" % r[3]
    if not end:
        return "no end record"
    return out


class MemCheck(Check):
    sims = ["s51"]
    unit_name = "commands"
    weights = []

    def gen(self, d):
        mems = []
        nchip = d.int(1, 3)
        for i in range(nchip):
            w = d.weighted([(4, 8), (2, 16), (2, 32), (2, 24), (3, None)])
            if w is None:
                w = d.int(1, 32)
            n = d.weighted([(4, None), (1, 1), (1, 64), (1, 256)])
            if n is None:
                n = d.int(2, 300)
            mems.append(["chip", "ch%d" % i, w, 0, n - 1])
            if d.bool(0.4):
                mems.append(["chip", "tw%d" % i, w, 0, n + d.int(0, 40) - 1])
        if d.bool(0.5):
            st = d.int(0, 0x300)
            n = d.int(8, 200)
            mems.append(["space", "asp", 8, st, st + n - 1])
        mems.append(["xram", "xram", 8, 0, 0xffff])
        mems.append(["iram", "iram", 8, 0, 0xff])
        vs = []
        for mi, mm in enumerate(mems):
            if mm[0] in ("space", "xram", "iram") and d.bool(0.5):
                for k in range(d.int(1, 4)):
                    kind = d.int(0, 3)
                    hl = [-1, -1]
                    if kind == 1:
                        hl = [7, 0]
                    elif kind == 2:
                        l = d.int(0, 7)
                        hl = [d.int(l, 7), l]
                    a = min(mm[4], mm[3] + d.size(0, 60))
                    if mm[0] == "iram":
                        a = 0x30 + d.int(0, 0x4f)
                    if a not in [v[1] for v in vs if v[0] == mi]:
                        vs.append([mi, a] + hl)
        ops = []
        for i in range(d.int(1, 14)):
            mi = d.below(len(mems))
            ops.append(self.op(d, mi, mems))
        return dict(seed=d.bits(10), mems=mems, vars=vs, ops=ops)

    def addr(self, d, m, over=0.06):
        lo, hi = m[3], m[4]
        if m[0] == "iram":
            lo, hi = 0x30, 0x7f
        r = d.int(0, 9)
        if r < 5:
            return lo + d.size(0, min(hi - lo, 100))
        if r < 8:
            return hi - d.size(0, min(hi - lo, 100))
        if r == 8 and d.bool(over * 5):
            return hi + d.int(1, 30)
        return lo + d.below(hi - lo + 1)

    def data(self, d, w, nmax=12):
        out = []
        for i in range(d.int(1, nmax)):
            if d.bool(0.3):
                s = []
                for k in range(d.int(1, 8)):
                    if d.bool(0.15):
                        s.append(list(d.choice(ESCS)))
                    else:
                        c = d.choice("aAbBzZ09 @[`{mNxY.,+-~")
                        s.append([c, ord(c)])
                out.append(s)
            else:
                v = d.edge(w)
                out.append([v, d.int(0, 1)])
        return out

    def op(self, d, mi, mems):
        m = mems[mi]
        k = d.weighted(self.weights)
        w = m[2]
        if k == "set":
            return ["set", mi, self.addr(d, m), self.data(d, w)]
        if k == "fill":
            a = self.addr(d, m)
            b = a + d.size(0, 90)
            if d.bool(0.1):
                b = d.choice([0xffffffff, m[4], m[4] + 1, m[4] + 100])
                if m[0] == "iram":
                    b = a
            if m[0] == "iram":
                b = min(b, 0x7f)
                a = min(a, 0x7f)
            v = d.edge(w)
            if d.bool(0.15):
                v = d.edge(32)
            return ["fill", mi, a, b, v]
        if k == "setbits":
            if m[0] == "chip":
                return ["set", mi, self.addr(d, m), self.data(d, w)]
            l = d.int(0, 7)
            h = d.choice([l, d.int(l, 7)])
            a = self.addr(d, m, 0)
            return ["setbits", mi, a, h, l, d.bits(h - l + 1)]
        if k == "wr":
            return ["wr", mi, self.addr(d, m, 0), d.edge(w)]
        if k == "dump":
            f = d.weighted([(4, "h"), (2, "x"), (4, ""), (2, "b"), (3, "i"), (2, "s")])
            if w != 8 and f in "bs" and f:
                f = "h"
            form = d.int(0, 3)
            a = self.addr(d, m)
            b = a + d.size(0, 120)
            bpl = d.choice([1, 2, 3, 5, 8, 16, 20])
            return ["dump", mi, f, form, a, b, bpl]
        if k == "dumpbits":
            if m[0] == "chip":
                return ["dump", mi, "h", 2, self.addr(d, m), m[4], 8]
            l = d.int(0, 7)
            return ["dumpbits", mi, self.addr(d, m, 0), d.choice([l, d.int(l, 7)]), l]
        if k == "where":
            # mostly take the pattern from the memory
            return ["where", mi, d.bool(), d.bool(0.7), self.addr(d, m, 0), d.int(1, 5), self.data(d, w, 3), d.int(0, 3)]
        if k == "hole":
            return ["hole", mi, d.int(0, 2), d.int(1, 40), d.edge(w), d.bool(0.6), self.addr(d, m, 0)]
        if k == "rt":
            a = self.addr(d, m, 0)
            return ["rt", mi, a, a + d.size(0, 120), d.int(0, 2), d.bits(8)]
        raise AssertionError(k)

    # -- execution
    def run(self, case):
        import random
        o = Outcome()
        rnd = random.Random(case["seed"])
        sc = S.Script()
        ms = []
        pre = []
        for mi, (kind, name, w, lo, hi) in enumerate(case["mems"]):
            m = Mem(name, w, lo, hi)
            ms.append(m)
            m.space = kind != "chip"
            n = hi - lo + 1
            if kind == "chip":
                pre.append("memory create chip %s %d %d" % (name, n, w))
            elif kind == "space":
                pre.append("memory create chip aspchip %d 8" % n)
                pre.append("memory create addressspace %s %d %d" % (name, lo, n))
                pre.append("memory create addressdecoder %s %d %d aspchip 0" % (name, lo, hi))
            pre.append("fill %s %d %d 0" % (name, lo, hi))
            if case["seed"]:
                wins = [(lo, min(hi, lo + 130)), (max(lo, hi - 130), hi)]
                if kind == "iram":
                    wins = [(0x30, 0x7f)]
                for x, y in wins:
                    vals = [rnd.choice([0, rnd.getrandbits(w), rnd.getrandbits(w), rnd.choice(b"aAbBzZ") & ((1 << w) - 1)])
                            for _ in range(y - x + 1)]
                    if rnd.random() < 0.4:
                        c = rnd.randrange(len(vals))
                        e = rnd.randrange(c, len(vals)) + 1
                        vals[c:e] = [rnd.choice([0, 0, vals[c]])] * (e - c)
                    for k, v in enumerate(vals):
                        m.put(x + k, v)
                    m.nxt = None
                    for k in range(0, len(vals), 64):
                        pre.append("set mem %s %d %s" % (name, x + k, " ".join(str(v) for v in vals[k:k + 64])))
        for k, (mi, a, h, l) in enumerate(case["vars"]):
            m = ms[mi]
            if h >= 0:
                pre.append("var lab%d %s[%d][%d:%d]" % (k, m.name, a, h, l) if h > l else
                           "var lab%d %s[%d].%d" % (k, m.name, a, h))
            else:
                pre.append("var lab%d %s %d" % (k, m.name, a))
            m.vars[a] = ("lab%d" % k, h, l)
        # register variables of the simulator itself in these spaces are avoided by the address choice
        sc(*pre)
        files = {}
        want = []
        exp = []        # (block, description, kind, expected)
        for oi, op in enumerate(case["ops"]):
            m = ms[op[1]]
            nm = m.name
            k = op[0]
            o.label(k + ("" if k != "dump" else "/" + (op[2] or "smart")))
            if k == "set":
                a, data = op[2], op[3]
                toks, vals = [], []
                for x in data:
                    if isinstance(x[0], list):
                        toks.append('"%s"' % "".join(c[0] for c in x))
                        vals += [c[1] for c in x]
                    else:
                        toks.append(("%d" if x[1] == 0 else "0x%x") % x[0])
                        vals.append(x[0])
                b = sc("set mem %s %d %s" % (nm, a, " ".join(toks)))
                n = 0
                if a >= m.lo:
                    while n < len(vals) and a + n <= m.hi:
                        m.put(a + n, vals[n])
                        n += 1
                if n:
                    r, m.nxt = smart_rows(m, a, a + n - 1, 8)
                    if nm == "iram" and any(x not in range(0x30, 0x80) for x in range(a, a + n)):
                        r = None
                    m.nxt = None
                    exp.append((b, "set mem %s %d %s" % (nm, a, " ".join(toks)), "rows", r))
                    o.nontrivial = True
            elif k == "fill":
                a, bb, v = op[2:5]
                sc("fill %s %d 0x%x %d" % (nm, a, bb, v))
                for x in range(max(a, m.lo), min(bb, m.hi) + 1):
                    m.put(x, v)
                o.nontrivial = True
            elif k == "wr":
                sc("expr /n %s[%d]=%d" % (nm, op[2], op[3]) if m.space else "set mem %s %d %d" % (nm, op[2], op[3]))
                m.put(op[2], op[3])
                if not m.space:
                    m.nxt = None
            elif k == "setbits":
                a, h, l, v = op[2:6]
                if a in m.vars:
                    continue
                loc = "%s[%d]" % (nm, a) + (".%d" % h if h == l else "[%d:%d]" % (h, l))
                mk = ((1 << (h - l + 1)) - 1) << l
                b = sc("set mem %s %d" % (loc, v))
                m.put(a, (m.get(a) & ~mk) | ((v << l) & mk))
                m.nxt = None
                exp.append((b, "set mem %s %d" % (loc, v), "rows", [BitRow(a, m.get(a), m.w, h, l)]))
            elif k == "dumpbits":
                a, h, l = op[2:5]
                if a in m.vars:
                    continue
                loc = "%s[%d]" % (nm, a) + (".%d" % h if h == l else "[%d:%d]" % (h, l))
                b = sc("dump %s" % loc)
                m.nxt = None
                exp.append((b, "dump " + loc, "rows", [BitRow(a, m.get(a), m.w, h, l)]))
            elif k == "dump":
                f, form, a, b, bpl = op[2:7]
                cmd = "dump %s%s" % ("/%s " % f if f else "", nm)
                if form == 0 and m.nxt is None:
                    form = 1
                lines = None
                L = None
                if form == 0:
                    a, lines = m.nxt, 10
                    b = m.hi
                    if f in ("b", "i"):
                        b = a + (79 if f == "b" else 319)
                elif form == 1:
                    cmd += " %d" % a
                    b = a + 63
                elif form == 2:
                    cmd += " %d %d" % (a, b)
                else:
                    if a + bpl > b + 1:
                        bpl = max(1, b + 1 - a)
                    cmd += " %d %d %d" % (a, b, bpl)
                    L = bpl
                if f in ("", "h", "x"):
                    if f == "" and m.space:
                        r, nx = smart_rows(m, a, b, L, lines)
                        if r is None:
                            m.nxt = None
                            continue
                    else:
                        r, nx = rows(m, a, b, L, lines)
                    blk = sc(cmd)
                    if nm == "iram" and r and f == "":
                        # the simulator's own variables live outside of 0x30..0x7f
                        r = [x for x in r if 0x30 <= x.addr and
                             x.addr + (len(x.vals) if isinstance(x, Row) else 1) <= 0x80]
                        exp.append((blk, cmd, "some", r))
                        m.nxt = None
                        continue
                    exp.append((blk, cmd, "rows", r))
                    if r:
                        o.nontrivial = True
                elif f in ("b", "i"):
                    fn = "o%d.bin" % oi
                    b2 = min(b, m.hi)
                    if a > b2:
                        continue
                    sc(cmd + " >" + fn)
                    want.append(fn)
                    nx = b2 + 1
                    exp.append((fn, cmd, f, (m.w, a, [m.get(x) for x in range(a, b2 + 1)])))
                    o.nontrivial = True
                elif f == "s":
                    fn = "o%d.txt" % oi
                    if form in (0, 2, 3):
                        cmd = "dump /s %s %d" % (nm, a)
                    if a > m.hi:
                        continue
                    sc(cmd + " >" + fn)
                    want.append(fn)
                    t = ""
                    x = a
                    ESC = {7: "\\a", 8: "\\b", 9: "\\t", 10: "\\n", 11: "\\v", 12: "\\f", 13: "\\r",
                           34: "\\\"", 39: "\\'", 63: "\\?", 92: "\\\\"}
                    while x <= m.hi and m.get(x):
                        c = m.get(x)
                        t += ESC.get(c) or (chr(c) if 32 <= c < 127 else "\\%03o" % c)
                        x += 1
                    nx = None
                    m.nxt = None
                    exp.append((fn, cmd, "s", t))
                    continue
                if nx is not None:
                    m.nxt = nx if nx <= m.hi else m.lo
            elif k == "where":
                cs, own, a, n, data, mut = op[2:8]
                if own:
                    vals = [m.get(min(m.hi, a + i)) for i in range(n)]
                    if mut == 1:
                        vals = [x ^ 0x20 if chr(x & 255).isalpha() and x < 128 else x for x in vals]
                    toks = [str(x) for x in vals]
                    if mut == 2 and all(32 < x < 127 and x not in (34, 92) for x in vals):
                        toks = ['"%s"' % "".join(chr(x) for x in vals)]
                else:
                    toks, vals = [], []
                    for x in data:
                        if isinstance(x[0], list):
                            toks.append('"%s"' % "".join(c[0] for c in x))
                            vals += [c[1] for c in x]
                        else:
                            toks.append(("%d" if x[1] == 0 else "0x%x") % x[0])
                            vals.append(x[0])
                cmd = "%s %s %s" % ("Where" if cs else "where", nm, " ".join(toks))

                def up(x):
                    return x - 32 if (not cs and 97 <= x <= 122) else x
                pat = [up(x) for x in vals]
                res = []
                if nm == "xram":
                    # long runs of zero: only unusual patterns
                    if not any(vals) or m.get(0x8000) == vals[0]:
                        continue
                dd = m.d
                L = len(pat)
                hits = []
                if pat[0]:
                    cand = sorted(x for x in dd if up(dd[x]) == pat[0])
                else:
                    cand = range(0, m.hi - m.lo + 2 - L)
                for x in cand:
                    if x + L <= m.hi - m.lo + 1 and all(up(dd.get(x + i, 0)) == pat[i] for i in range(L)):
                        hits.append(x + m.lo)
                if len(hits) > 400:
                    continue
                for h in hits:
                    res += rows(m, h, h + L - 1)[0]
                b = sc(cmd)
                m.nxt = None
                exp.append((b, cmd, "rows", res))
                if hits:
                    o.nontrivial = True
            elif k == "hole":
                form, ln, v, own, a = op[2:7]
                if own:
                    v = m.get(a)
                if form == 0:
                    cmd, ln, v = "hole %s" % nm, 100, 0
                elif form == 1:
                    cmd, v = "hole %s %d" % (nm, ln), 0
                else:
                    cmd = "hole %s %d %d" % (nm, ln, v)
                b = sc(cmd)
                runs = []
                x = m.lo
                dd = m.d
                if nm == "xram":
                    seq = [dd.get(i, 0) for i in range(0x10000)]
                else:
                    seq = [m.get(i) for i in range(m.lo, m.hi + 1)]
                i = 0
                N = len(seq)
                while i < N:
                    if seq[i] == v:
                        j = i
                        while j < N and seq[j] == v:
                            j += 1
                        runs.append((m.lo + i, j - i))
                        i = j
                    else:
                        i += 1
                exp.append((b, cmd, "hole", (ln, runs)))
                if runs:
                    o.nontrivial = True
            elif k == "rt":
                a, bb, kind, v = op[2:6]
                bb = min(bb, m.hi)
                # dump to ihex, change the memory, load it back
                fn = "r%d.hex" % oi
                sc("dump /i %s %d %d >%s" % (nm, a, bb, fn))
                dst = m
                twin = [x for x in ms if x.w == m.w and x is not m and x.hi >= bb and x.lo == 0 and x.name != "iram"]
                if kind == 2 and twin:
                    dst = twin[v % len(twin)]
                elif kind == 1:
                    sc("fill %s %d %d %d" % (nm, a, bb, v))
                sc('load "%s@%s"' % (fn, dst.name))
                vals = [m.get(x) for x in range(a, bb + 1)]
                for i, x in enumerate(vals):
                    dst.put(a + i, x)
                m.nxt = None
                dst.nxt = None
                o.nontrivial = True
        final = []
        for m in ms:
            lo, hi = m.lo, m.hi
            if m.name == "xram":
                fn = "fx.bin"
                sc("dump /b xram 0 0xffff >" + fn)
                want.append(fn)
                final.append((fn, m))
            else:
                if m.name == "iram":
                    lo, hi = 0x30, 0x7f
                b = sc("dump /h %s %d %d" % (m.name, lo, hi))
                final.append((b, m, lo, hi))
        r = sc.run("s51", want=want, files=files)
        o.units = len(case["ops"])
        for b, cmd, kind, e in exp:
            if isinstance(b, int):
                if b >= len(r.blocks):
                    break
                got = [x for x in r.blocks[b] if x != ""]
            if kind == "rows" or kind == "some":
                if e is None:
                    continue
                if kind == "rows":
                    if len(got) != len(e):
                        o.fail("lines/" + cmd.split()[0], "`%s` printed %d lines, expected %d: %r / %r" % (
                            cmd, len(got), len(e), got[:12], e[:12]))
                        return o
                    bad = [(g, x) for g, x in zip(got, e) if not x.check(g)]
                else:
                    bad = [("nothing", x) for x in e if not any(x.check(g) for g in got)]
                if bad:
                    o.fail("row/" + cmd.split()[0], "`%s` printed %r, expected %r" % (cmd, bad[0][0], bad[0][1]))
                    return o
            elif kind == "b":
                if r.files[b] != bytes(e[2]):
                    o.fail("binary", "`%s` wrote %r, expected %r" % (cmd, (r.files[b] or b"").hex()[:200], bytes(e[2]).hex()[:200]))
                    return o
            elif kind == "i":
                w, a, vals = e
                t = ihex_decode((r.files[b] or b"").decode("latin-1"))
                nb = nbytes(w)
                ee = {}
                for i, v in enumerate(vals):
                    for j in range(nb):
                        ee[(a + i) * nb + j] = (v >> (8 * j)) & 255
                if t != ee:
                    o.fail("ihex", "`%s` (width %d) wrote %s, expected the bytes of %s" % (
                        cmd, w, t if isinstance(t, str) else r.files[b][:300], ["%x" % v for v in vals[:16]]))
                    return o
            elif kind == "s":
                t = (r.files[b] or b"").decode("latin-1")
                if t.endswith("\n"):
                    t = t[:-1]
                if t != e:
                    o.fail("string", "`%s` wrote %r, expected %r" % (cmd, t[:200], e[:200]))
                    return o
            elif kind == "hole":
                ln, runs = e
                try:
                    g = {int(x.split()[0], 16): int(x.split()[1]) for x in got}
                except (ValueError, IndexError):
                    o.fail("hole", "`%s` printed %r" % (cmd, got[:5]))
                    return o
                for a, n in runs:
                    # the documentation's examples list areas one shorter than they are: areas of exactly
                    # `length` locations are left open
                    if n > ln and g.get(a) not in (n, n - 1):
                        o.fail("hole", "`%s` printed %r, expected an area of %d at %#x" % (cmd, got[:8], n, a))
                        return o
                if set(g) - {a for a, n in runs if n >= ln}:
                    o.fail("hole", "`%s` printed %r, areas are %r" % (cmd, got[:8], runs[:8]))
                    return o
        if not S.health(r, o, "s51"):
            return o
        for f in final:
            if isinstance(f[0], str):
                m = f[1]
                e = bytes(m.d.get(i, 0) for i in range(0x10000))
                g = r.files[f[0]] or b""
                if g != e:
                    k = next((i for i in range(min(len(g), len(e))) if g[i] != e[i]), -1)
                    o.fail("final/xram", "at the end xram[%#x] differs: %s, expected %s" % (k, g[k:k + 8].hex(), e[k:k + 8].hex()))
                    return o
            else:
                b, m, lo, hi = f
                e = rows(m, lo, hi)[0]
                got = [x for x in r.blocks[b] if x != ""]
                if len(got) != len(e):
                    o.fail("final/%s" % m.name, "final dump of %s has %d lines, expected %d" % (m.name, len(got), len(e)))
                    return o
                for g, x in zip(got, e):
                    if not x.check(g):
                        o.fail("final/%s" % m.name, "at the end %s shows %r, expected %r" % (m.name, g, x))
                        return o
        return o

    def sample(self, case):
        return dict(mems=case["mems"], vars=case["vars"], ops=case["ops"][:6])

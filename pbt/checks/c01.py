"""File loaders against a model of the file formats."""
from ..engine import Check, Outcome
from .. import sim as S

# sim -> [(name given to @, real space, width, size)]
TARGETS = {
    "s51": [(None, "rom", 8, 65536), ("rom", "rom", 8, 65536), ("xram", "xram", 8, 65536),
            ("iram", "iram", 8, 128), ("rom_chip", "rom", 8, 65536), ("xram_chip", "xram", 8, 65536)],
    "avr": [(None, "rom", 16, 65536), ("rom", "rom", 16, 65536), ("iram", "iram", 8, 65536),
            ("rom_chip", "rom", 16, 65536)],
    "p1516": [(None, "rom", 32, 0x20000), ("rom", "rom", 32, 0x20000)],
    "pblaze": [(None, "rom", 18, 0x400)],
}
SPACES = {"s51": {"rom": (8, 65536), "xram": (8, 65536), "iram": (8, 128)},
          "avr": {"rom": (16, 65536), "iram": (8, 65536)},
          "p1516": {"rom": (32, 0x20000)},
          "pblaze": {"rom": (18, 0x400)}}


def nbytes(w):
    return 1 if w <= 8 else 2 if w <= 16 else 3 if w <= 24 else 4


def ihex(addr, typ, data, low=False, bad=0):
    r = bytes([len(data), (addr >> 8) & 255, addr & 255, typ]) + bytes(data)
    s = "%s%02x" % (r.hex(), (-sum(r) + bad) & 255)
    return ":" + (s if low else s.upper())


def srec(kind, addr, data, low=False, bad=0):
    n = {0: 2, 1: 2, 2: 3, 3: 4, 5: 2, 7: 4, 8: 3, 9: 2}[kind]
    r = bytes([n + len(data) + 1]) + addr.to_bytes(n, "big") + bytes(data)
    s = "%s%02x" % (r.hex(), (255 - sum(r) + bad) & 255)
    return "S%d" % kind + (s if low else s.upper())


def omf(typ, body):
    r = bytes([typ, (len(body) + 1) & 255, (len(body) + 1) >> 8]) + bytes(body)
    return r + bytes([-sum(r) & 255])


def hwreg(sim, a):
    """registers of hardware elements in the code memory of the P1516"""
    return sim == "p1516" and 0xff00 <= a <= 0xff5f


class C(Check):
    id = "C01"
    sims = ["s51", "avr", "p1516", "pblaze"]
    unit_name = "file records"
    n_quick = 5000
    n_thorough = 20000
    rule = ("a case loads 1..5 generated files (Intel HEX, S-record, OMF-51, p2h, asc) into 8, 16, 18 or "
            "32 bit memories with random @memory, :offset and #range modifiers and then checks one; "
            "non-trivial when at least one file changed memory")

    def gen(self, d):
        sim = d.weighted([(5, "s51"), (3, "avr"), (2, "p1516"), (1, "pblaze")])
        loads = []
        for i in range(d.int(1, 5)):
            loads.append(self.load(d, sim))
        muts = []
        for i in range(d.int(0, 4)):
            muts.append([d.bits(10), d.int(0, 255)])
        return dict(sim=sim, seed=d.bits(8), loads=loads, muts=muts, early=d.bool(0.2))

    def load(self, d, sim):
        tgt = d.choice(TARGETS[sim])
        w, size = tgt[2], tgt[3]
        nb = nbytes(w)
        kinds = ["hex", "hex", "ihx", "ihex", "s19", "s19"]
        if w == 8:
            kinds += ["omf"]
        kinds += ["p2h", "asc"]
        kind = d.choice(kinds)
        how = d.weighted([(5, "load"), (2, "file"), (2, "noext")] +
                         ([(1, "download")] if tgt[0] is None and kind == "hex" else []))
        mods = {}
        if how != "download":
            if d.bool(0.4):
                mods["off"] = [d.choice([d.int(0, 300), -d.int(1, 300), d.int(0, 0xffff)]), d.choice(["d", "h", "o"])]
            if d.bool(0.35):
                a = d.int(0, 0x400)
                r = d.below(3)
                mods["rng"] = [a, a + d.int(0, 0x200) if r else None, d.choice(["d", "h"])]
        recs = []
        cur = d.weighted([(4, d.int(0, 0x400)), (1, d.int(0, 0xffff))])
        for i in range(d.int(1, 12)):
            r = d.weighted([(10, "data"), (2, "jump"), (2, "bad"), (1, "base"), (1, "other"), (1, "junk")])
            if r == "data" or r == "bad":
                if nb == 1:
                    n = d.size(0, 40)
                    data = d.bytes(n)
                else:
                    n = d.size(0, 12)
                    data = []
                    for _ in range(n):
                        v = d.edge(w)
                        data += [(v >> (8 * k)) & 255 for k in range(nb)]
                recs.append([r, cur, data, d.int(1, 255)])
                if r == "data":
                    cur += n if nb > 1 or kind in ("p2h", "asc") else len(data)
            elif r == "jump":
                cur = d.weighted([(4, d.int(0, 0x500)), (1, d.int(0, 0xffff))])
            elif r == "base":
                recs.append(["base", d.weighted([(3, 0), (2, 1), (1, d.int(0, 0xffff))])])
            elif r == "other":
                recs.append(["other", d.below(4), d.bytes(d.int(0, 6))])
            else:
                recs.append(["junk", d.below(4)])
        return dict(tgt=[tgt[0], tgt[1], w, size], kind=kind, how=how, mods=mods, recs=recs,
                    low=d.bool(0.3), eol=d.choice(["\n", "\r\n"]), end=d.bool(0.9), noend_nl=d.bool(0.1))

    def render(self, ld, last):
        """(file contents, [(word address, value)...] in file order)"""
        w = ld["tgt"][2]
        nb = nbytes(w)
        words = []
        k = ld["kind"]
        low = ld["low"]
        lines = []
        base = 0
        if k in ("hex", "ihx", "ihex"):
            for r in ld["recs"]:
                if r[0] in ("data", "bad"):
                    ba = r[1] * nb
                    if ba + len(r[2]) > 0x10000:
                        continue
                    if r[0] == "bad":
                        lines.append(ihex(ba, 0, r[2], low, r[3]))
                        continue
                    # split a wide record at an odd place sometimes
                    data = r[2]
                    if nb > 1 and len(data) > nb and r[3] & 1:
                        cut = 1 + r[3] % (len(data) - 1)
                        lines.append(ihex(ba, 0, data[:cut], low))
                        lines.append(ihex(ba + cut, 0, data[cut:], low))
                    else:
                        lines.append(ihex(ba, 0, data, low))
                    for j in range(0, len(data), nb):
                        words.append(((base + ba) // nb + j // nb,
                                      sum(data[j + x] << (8 * x) for x in range(nb))))
                elif r[0] == "base":
                    # keep words aligned
                    hi = r[1]
                    if nb == 3:
                        hi -= hi % 3
                    base = hi << 16
                    lines.append(ihex(0, 4, [hi >> 8, hi & 255], low))
                elif r[0] == "junk":
                    lines.append(["", "; a comment", "   ", "xyz 00 11"][r[1]])
            if ld["end"] or ld["how"] == "download":
                lines.append(ihex(0, 1, [], low))
                if ld["how"] != "download":
                    # nothing after the end record counts
                    lines.append(ihex(0, 0, [0x5a], low))
        elif k == "s19":
            lines.append(srec(0, 0, b"hdr", low))
            for r in ld["recs"]:
                if r[0] in ("data", "bad"):
                    ba = r[1] * nb + (base if base < (1 << 24) else 0)
                    typ = 1 if ba < 0x10000 and r[3] & 1 else 2 if ba < (1 << 24) and r[3] & 2 else 3
                    lines.append(srec(typ, ba, r[2], low, 0 if r[0] == "data" else r[3]))
                    if r[0] == "data":
                        for j in range(0, len(r[2]), nb):
                            words.append((ba // nb + j // nb,
                                          sum(r[2][j + x] << (8 * x) for x in range(nb))))
                elif r[0] == "base":
                    base = (r[1] - (r[1] % 3 if nb == 3 else 0)) << 16
                elif r[0] == "other":
                    lines.append(srec([0, 5, 8, 9][r[1]], 3, [], low))
                elif r[0] == "junk":
                    lines.append(["", "; a comment", "   ", "xyz 00 11"][r[1]])
            if ld["end"]:
                lines.append(srec(9, 0, [], low))
        elif k == "omf":
            out = omf(2, [3] + list(b"mod") + [0, 0])
            for r in ld["recs"]:
                if r[0] in ("data", "bad"):
                    if r[1] + len(r[2]) > 0x10000 or r[0] == "bad":
                        continue
                    out += omf(6, [0, r[1] & 255, r[1] >> 8] + r[2])
                    words += [(r[1] + j, v) for j, v in enumerate(r[2])]
                elif r[0] == "other":
                    out += omf([0x12, 0x16, 0x0e, 0x18][r[1]], [1] + r[2])
            out += omf(4, [3] + list(b"mod") + [0, 0, 0x0f, 0])
            return out, words
        elif k == "p2h":
            for r in ld["recs"]:
                if r[0] in ("data", "bad"):
                    for j in range(0, len(r[2]), nb):
                        v = sum(r[2][j + x] << (8 * x) for x in range(nb))
                        a = r[1] + j // nb
                        if r[0] == "bad":
                            lines.append("%08x //X %06x" % (v, a))
                        else:
                            lines.append(("%08x //%s %06x ; text" if not low else "%X //%s %X")
                                         % (v, "C" if r[3] & 1 else "I", a))
                            words.append((a, v))
                elif r[0] == "junk":
                    lines.append(["", "//; a comment", "   ", "xyz 00 11"][r[1]])
        elif k == "asc":
            a = 0
            for r in ld["recs"]:
                if r[0] == "data":
                    for j in range(0, len(r[2]), nb):
                        v = sum(r[2][j + x] << (8 * x) for x in range(nb))
                        lines.append(("%X" if low else "%0*X" % (2 * nb, v)) % (v if low else ()))
                        words.append((a, v))
                        a += 1
                elif r[0] == "junk":
                    lines.append(["; x", "; a comment", "-- ", "xyz 00 11"][r[1]])
        e = ld["eol"]
        return (e.join(lines) + e).encode(), words

    def spec(self, i, ld):
        n = "f%d" % i
        if ld["how"] != "noext":
            n += "." + ld["kind"]
        if ld["tgt"][0]:
            n += "@" + ld["tgt"][0]
        m = ld["mods"]

        def num(v, f):
            s = "-" if v < 0 else ""
            v = abs(v)
            return s + ("0x%x" % v if f == "h" else "0%o" % v if f == "o" else "%d" % v)
        if "off" in m:
            n += ":" + num(*m["off"])
        if "rng" in m:
            a, b, f = m["rng"]
            n += "#" + num(a, f) + ("-" + num(b, f) if b is not None else "")
        return n

    def placed(self, ld, words):
        """what ends up where: [(space address, value, file word index)]"""
        out = []
        size = ld["tgt"][3]
        m = ld["mods"]
        off = m.get("off", [0])[0]
        lo, hi = 0, 0xffffffff
        if "rng" in m:
            lo = m["rng"][0]
            if m["rng"][1] is not None:
                hi = m["rng"][1]
        for a, v in words:
            if lo <= a <= hi:
                a2 = (a + off) & 0xffffffff
                if a2 < size:
                    out.append((a2, v))
        return out

    def run(self, case):
        o = Outcome()
        sim = case["sim"]
        sp = SPACES[sim]
        init = {}
        sc = S.Script()
        pre = []
        for k, (n, (w, size)) in enumerate(sorted(sp.items())):
            init[n] = (case["seed"] * 0x01030507 + k * 0x11) & ((1 << w) - 1)
            pre.append("fill %s 0 %d %d" % (n, size - 1, init[n]))
        mem = {n: {} for n in sp}
        files = {}
        args = []
        early = case["early"] and case["loads"][0]["how"] != "download"
        if case["sim"] == "avr" and case["loads"][0]["tgt"][1] == "iram":
            # (the reset at the start comes after the load, and clears the I/O registers)
            early = False
        for i, ld in enumerate(case["loads"]):
            o.units += len(ld["recs"])
            if ld["how"] != "download":
                files["f%d.%s" % (i, ld["kind"])] = self.render(ld, False)[0]
        if early:
            args.append(self.spec(0, case["loads"][0]))
        sc = S.Script()
        if not early:
            sc(*pre)
        idx = []
        for i, ld in enumerate(case["loads"]):
            data, words = self.render(ld, False)
            if i == 0 and early:
                b = sc("echo cmdline")
            elif ld["how"] == "download":
                b = sc("download\n" + data.decode("latin-1").rstrip("\r\n"))
            else:
                b = sc('%s "%s"' % ("file" if ld["how"] == "file" else "load", self.spec(i, ld)))
            idx.append((b, ld, words))
            pl = self.placed(ld, words)
            w = ld["tgt"][2]
            for a, v in pl:
                mem[ld["tgt"][1]][a] = v & ((1 << w) - 1)
            if pl:
                o.nontrivial = True
            o.label(ld["kind"] + str(w), ld["how"])
            if ld["mods"]:
                o.label(*("mod-" + x for x in ld["mods"]))
        dumps = []
        for n, (w, size) in sorted(sp.items()):
            addrs = sorted(mem[n])
            if w == 8:
                fn = "d_%s.bin" % n
                sc("dump /b %s 0 %d >%s" % (n, size - 1, fn))
                dumps.append((n, fn, None, size))
            else:
                look = sorted({x for a in addrs for x in (a - 1, a, a + 1) if 0 <= x < size} |
                              {0, 1, size - 1, size // 2, size // 3})
                if len(look) > 500:
                    look = look[:500]
                b = sc(*["expr /u %s[%d]" % (n, a) for a in look])
                dumps.append((n, b, look, size))
        # `check` after some changes
        last = case["loads"][-1]
        chk = None
        if last["how"] != "download":
            i = len(case["loads"]) - 1
            pl = self.placed(last, idx[-1][2])
            cur = dict(mem[last["tgt"][1]])
            w = last["tgt"][2]
            cmds = []
            for pos, v in case["muts"]:
                if pl:
                    a = pl[pos % len(pl)][0]
                    cur[a] = v
                    cmds.append("set mem %s %d %d" % (last["tgt"][1], a, v))
            if cmds:
                sc(*cmds)
            exp = ["Diff at %08x, FILE=%08x MEM=%08x" % (a, v, cur[a]) for a, v in pl if cur[a] != v]
            chk = (sc('check "%s"' % self.spec(i, last)), exp)
        r = sc.run(sim, args=args, files=files, want=[x[1] for x in dumps if isinstance(x[1], str)])
        if not S.health(r, o, "loading"):
            return o
        desc = "; ".join("%s (%s)" % (self.spec(i, l), l["how"]) for i, l in enumerate(case["loads"]))
        # (these lines come through stdio: their place in the output means nothing)
        want = ["%d" % len(words) for b, ld, words in idx if ld["how"] != "download"]
        if chk:
            want.append(want[-1])
        got = [x.split(" ")[0] for x in r.out.split("\n") if " words read from " in x]
        if got != want:
            o.fail("count", "%s: reports %r words, expected %r" % (desc, got, want))
            return o
        for b, ld, words in idx:
            if ld["how"] == "download":
                got = [x for x in r.blocks[b] if "words" in x]
                if got != ["%d words loaded" % len(words)]:
                    o.fail("count/download", "%s: reports %r, expected %d" % (desc, got, len(words)))
                    return o
        for n, b, look, size in dumps:
            if look is None:
                data = r.files[b]
                if data is None or len(data) != size:
                    o.fail("dump", "dump of %s has %r bytes" % (n, None if data is None else len(data)))
                    return o
                if early:
                    # power-on contents are random: only what was stored can be compared
                    for a, v in sorted(mem[n].items()):
                        if data[a] != v:
                            o.fail("data/%s" % n, "%s: %s[%#x]=%02x, expected %02x" % (desc, n, a, data[a], v))
                            return o
                else:
                    exp = bytearray([init[n]]) * size
                    for a, v in mem[n].items():
                        exp[a] = v
                    if bytes(exp) != data:
                        k = next(i for i in range(size) if exp[i] != data[i])
                        o.fail("data/%s" % n, "%s: %s[%#x]=%02x, expected %02x%s" % (
                            desc, n, k, data[k], exp[k], "" if k in mem[n] else " (not in any file)"))
                        return o
            else:
                got = r.blocks[b]
                for a, g in zip(look, got):
                    if early and a not in mem[n] or hwreg(sim, a):
                        continue
                    v = mem[n].get(a, init[n])
                    if g != str(v):
                        o.fail("data/%s" % n, "%s: %s[%#x]=%s, expected %d%s" % (
                            desc, n, a, g, v, "" if a in mem[n] else " (not in any file)"))
                        return o
        if chk:
            # (a chip also answers at addresses it does not have)
            got, exp = ([x for x in y if x.startswith("Diff") and int(x.split(",")[0].split()[-1], 16) < last["tgt"][3] and
                         not hwreg(sim, int(x.split(",")[0].split()[-1], 16))] for y in (r.blocks[chk[0]], chk[1]))
            if got != exp:
                o.fail("check", "%s: check prints %r, expected %r" % (desc, got[:6], exp[:6]))
        return o

    def sample(self, case):
        return dict(sim=case["sim"], loads=[dict(spec=self.spec(i, l), how=l["how"], head=repr(self.render(l, 0)[0][:80]))
                                            for i, l in enumerate(case["loads"])][:3])


CHECK = C()

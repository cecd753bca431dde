"""C16: the simulator interface: the protocol a program speaks through one cell."""
import re
from ..engine import Check, Outcome
from .. import sim as S


def H(a):
    return [a >> 8 & 255, a & 255]


def L(a):
    return [a & 255, a >> 8 & 255]


# every snippet: a list of instructions, each a list of memory words
def mos(op_i, op_s, op_l, E):
    return dict(w=lambda a, c: [[op_i, c], [op_s] + E(a)],
                r=lambda a, d: [[op_l] + E(a), [op_s] + E(d)])


def avr_w(a, c):
    return [[0xe000 | (c & 0xf0) << 4 | c & 15], [0x9300, a]]


def avr_r(a, d):
    return [[0x9110, a], [0x9310, d]]


SIMS = {
    "s51": dict(args=["-t", "52"], mem="xram", code=0, res=0x2000, cells=(0x4000, 0xffff),
                w=lambda a, c: [[0x90] + H(a), [0x74, c], [0xf0]],
                r=lambda a, d: [[0x90] + H(a), [0xe0], [0x90] + H(d), [0xf0]]),
    "z80": dict(args=[], mem="rom", code=0x1000, res=0x3000, cells=(0x4000, 0x7fff), **mos(0x3e, 0x32, 0x3a, L)),
    "i8085": dict(args=[], mem="rom", code=0x1000, res=0x3000, cells=(0x4000, 0x7fff), **mos(0x3e, 0x32, 0x3a, L)),
    "stm8": dict(args=["-t", "STM8S"], mem="rom", code=0x600, res=0x200, cells=(0x400, 0x4ff), **mos(0xa6, 0xc7, 0xc6, H)),
    "m6800": dict(args=["-t", "6800"], mem="rom", code=0x1000, res=0x3000, cells=(0x4000, 0x7fff), **mos(0x86, 0xb7, 0xb6, H)),
    "mos6502": dict(args=[], mem="rom", code=0x1000, res=0x3000, cells=(0x4000, 0x7fff), **mos(0xa9, 0x8d, 0xad, L)),
    "avr": dict(args=[], mem="iram", code=0x100, res=0x1000, cells=(0x2000, 0x3fff), w=avr_w, r=avr_r),
}

# what the documentation tells about the commands: parameters, kind of answer
NONE, BYTE, ARRAY, STRING, UINT32 = 4, 1, 2, 3, 8
DOC = {"_": (0, BYTE), "i": (0, ARRAY), "v": (0, BYTE), "V": (0, STRING), "@": (0, NONE), "I": (1, ARRAY), "h": (1, STRING),
       "s": (0, BYTE), "p": (1, NONE), "x": (1, NONE), "f": (0, BYTE), "r": (0, BYTE), "w": (1, NONE), "R": (0, NONE),
       "L": (4, NONE), "l": (0, UINT32)}
ANY = None


class Model:
    """the interface, as its documentation describes it"""

    def __init__(self, at, listing, version, ifver):
        self.at = at
        self.cell = [None, None]
        self.active = None
        self.params = None
        self.answer = None
        self.listing = listing      # [(char, name, description)]
        self.version = version
        self.ifver = ifver
        self.fin = None
        self.fout = None
        self.outs = {}
        self.limit = 0
        self.rem = 0
        self.printed = ""
        self.stop = False
        self.odd = False

    def done(self):
        self.active = self.params = self.answer = None

    def string(self, s):
        return [len(s) + 1] + [ord(c) for c in s] + [0]

    def write(self, k, c):
        self.cell[k] = c
        if k != self.at:
            return
        if self.active is None:
            if chr(c) in DOC:
                self.active = chr(c)
                self.params = []
                if DOC[chr(c)][0] == 0:
                    self.work()
        elif self.answer is None:
            self.params.append(c)
            if len(self.params) == DOC[self.active][0]:
                self.work()

    def work(self):
        a, p = self.active, self.params
        n = None
        if a == "_":
            n = [ord("!")]
        elif a == "i":
            n = [len(self.listing)] + [ord(x[0]) for x in self.listing]
        elif a == "v":
            n = [self.ifver]
        elif a == "V":
            n = self.string(self.version)
        elif a == "I":
            n = [2] + list(DOC.get(chr(p[0]), (0, 0)))
        elif a == "h":
            n = [0]
            for ch, name, text in self.listing:
                if ord(ch) == p[0]:
                    n = self.string(text)
        elif a == "s":
            n = [ord("s")]
            self.stop = True
        elif a == "p":
            self.printed += chr(p[0])
        elif a == "x":
            self.printed += "%02x" % p[0]
        elif a == "f":
            n = [1 if self.fin else 0]
        elif a == "r":
            n = [self.fin.pop(0) if self.fin else 0]
        elif a == "w":
            if self.fout is not None:
                self.outs[self.fout].append(p[0])
        elif a == "L":
            v = p[0] | p[1] << 8 | p[2] << 16 | p[3] << 24
            self.limit = v
            if v:
                self.rem = v
            elif self.rem:
                self.odd = True
        elif a == "R":
            self.odd = True
        elif a == "l":
            n = [4] + L(self.limit & 0xffff) + L(self.limit >> 16)
        self.answer = n
        if n is None:
            self.done()

    def read(self, k):
        if k != self.at:
            return self.cell[k]
        if self.active is None:
            return ANY if self.cell[k] is None else ~self.cell[k] & 255
        if self.answer is None:
            return ANY
        v = self.answer.pop(0)
        if not self.answer:
            self.done()
        return v


class C(Check):
    id = "C16"
    sims = sorted(SIMS)
    n_quick = 1500
    n_thorough = 40000
    unit_name = "accesses of the interface cell"
    rule = ("a case is a program of 10..90 writes and reads of the interface cell, run in pieces; "
            "non-trivial when at least 3 commands are completed and 4 answer bytes compared")

    def gen(self, d):
        sim = d.choice(sorted(SIMS))
        lo, hi = SIMS[sim]["cells"]
        a = d.choice([lo, hi, d.int(lo, hi)])
        b = d.int(lo, hi)
        if a == b:
            b = lo if a != lo else hi
        case = {"sim": sim, "cells": [a, b], "early": d.bool(0.6)}
        case["fin"] = [[d.edge(8) for i in range(d.choice([0, 1, 3, 8]))] for k in range(2)]
        case["in0"] = d.choice([None, 0, 0, 0])
        case["out0"] = d.choice([None, 0, 0, 0])
        ops = []
        limits = d.bool(0.3)
        favour = d.choice([None, None, "r", "w", "h", "p", "V"])
        for i in range(d.int(3, 16)):
            c = favour if favour and d.bool(0.5) else d.choice("__iivV@@IIhhsppxxffrrrwwwLl")
            if c == "L" and not limits:
                c = "l"
            k = 1 if d.bool(0.06) else 0
            if d.bool(0.08):
                ops.append(["w", k, d.choice([0, 255, d.below(256), 32])])
            ops.append(["w", k, ord(c)])
            n = DOC[c][0]
            if c in "px":
                ps = [d.int(65, 90)]
            elif c in "Ih":
                ps = [ord(d.choice(list(DOC))) if d.bool(0.8) else d.below(256)]
            elif c == "L":
                v = d.choice([d.int(1, 40), d.int(1, 40), d.int(10000, 1 << 32 - 1), 0x12345678])
                ps = L(v & 0xffff) + L(v >> 16 & 0xffff)
            else:
                ps = [d.edge(8) for i in range(n)]
            cut = c != "L" and c not in "px" and d.bool(0.08)
            if cut:
                ps = ps[:d.int(0, len(ps))]
            for p in ps:
                if d.bool(0.05):
                    ops.append(["r", k])
                ops.append(["w", k, p])
            m = {"_": 1, "i": 17, "v": 1, "V": 8, "I": 3, "h": 30, "s": 1, "f": 1, "r": 1, "l": 5}.get(c, 0)
            if c in "hVi" and d.bool(0.3):
                m = d.int(0, m)
            elif d.bool(0.08):
                m = max(0, m - 1)
            elif d.bool(0.15):
                m += d.int(1, 3)
            for j in range(m):
                if d.bool(0.02):
                    ops.append(["w", k, d.below(256)])
                ops.append(["r", k])
        case["ops"] = ops[:180]
        case["reset"] = d.bool(0.2)
        case["segs"] = []
        for i in range(d.int(0, 5)):
            e = d.choice(["none", "none", "info", "info", "fin", "fout", "move"])
            case["segs"].append([d.choice(["step", "step", "run"]), d.int(1, 60), e,
                                 d.choice([None, 0, 1]), d.bool(0.4)])
        return case

    def run(self, case):
        sim = case["sim"]
        c = SIMS[sim]
        o = Outcome()
        m, code, res = c["mem"], c["code"], c["res"]
        A = case["cells"]
        what = "%s %s" % (sim, {k: v for k, v in case.items() if k != "sim"})
        # first a look at what the interface offers
        pre = S.Script()
        bl, bc = pre("info hw simif"), pre("conf")
        bn = pre("set hw simif variable_storage 3")
        r = pre.run(sim, args=list(c["args"]))
        if not S.health(r, o, sim):
            return o
        listing = re.findall(r"^0x[0-9a-f]{2}/(.) (.*?): (.*)$", "\n".join(r.blocks[bl]), re.M)
        v = re.findall(r"^ucsim version (\S+)", "\n".join(r.blocks[bc]), re.M)
        iv = re.findall(r"interface, version (\d+)", "\n".join(r.blocks[bl]))
        if not v or not iv or sorted(x[0] for x in listing) != sorted(DOC):
            o.fail("list", "%s: known commands %s, version %s" % (what, listing, v))
            return o
        if "variable_storage is not an address space" not in "\n".join(r.blocks[bn]):
            o.fail("chip", "%s: %s" % (what, r.blocks[bn]))
            return o
        M = Model(0, listing, v[0], int(iv[0]))
        # the program
        instrs, words, nres = [], [], 0
        for op in case["ops"]:
            if op[0] == "w":
                s = c["w"](A[op[1]], op[2])
                eff = ("w", op[1], op[2])
            else:
                s = c["r"](A[op[1]], res + nres)
                eff = ("r", op[1])
                nres += 1
            for i, one in enumerate(s):
                at = {"s51": 2 if op[0] == "w" else 1}.get(sim, 1 if op[0] == "w" else 0)
                instrs.append((code + len(words), eff if i == at else None, nres - 1))
                words += one
        end = code + len(words)
        sc = S.Script()
        args = list(c["args"])
        for i in range(0, len(words), 40):
            sc("set mem rom %d %s" % (code + i, " ".join(map(str, words[i:i + 40]))))
        for k in range(2):
            if not case["early"] or k:
                sc("expr /n %s[%d]=0x77" % (m, A[k]))
                M.cell[k] = 0x77
        if case["early"]:
            opt = "if=%s[%s]" % (m, "0x%x" % A[0])
            if case["in0"] is not None:
                opt += ",in=i0.dat"
            if case["out0"] is not None:
                opt += ",out=o0.dat"
            args += ["-I", opt]
        else:
            sc("set hw simif %s %d" % (m, A[0]))
            if case["in0"] is not None:
                sc('set hw simif fin "i0.dat"')
            if case["out0"] is not None:
                sc('set hw simif fout "o0.dat"')
        if case["in0"] is not None:
            M.fin = list(case["fin"][0])
        if case["out0"] is not None:
            M.fout = 0
            M.outs[0] = []
        sc("pc %d" % code, "break %d" % end)
        pos, want, checks = 0, {}, []
        cmds = bytes_cmp = 0
        segs = list(case["segs"])
        nseg = 0
        while pos < len(instrs):
            kind, n, e, x, rd = segs.pop(0) if segs else ("run", 0, "none", 0, False)
            nseg += 1
            if nseg > 60:
                break
            if e == "info":
                bi = sc("info hw simif")
                checks.append((bi, "info", (M.active, len(M.params or []), M.answer is not None)))
            elif e == "fin":
                sc('set hw simif fin "%s"' % ("NULL" if x is None else "i%d.dat" % x))
                M.fin = None if x is None else list(case["fin"][x])
            elif e == "fout":
                if x is not None and x == M.fout:
                    x = None
                sc('set hw simif fout "%s"' % ("NULL" if x is None else "o%d.dat" % x))
                M.fout = x
                if x is not None:
                    M.outs[x] = []
            elif e == "move" and rd:
                M.at = 1 - M.at
                sc("set hw simif %s %d" % (m, A[M.at]))
            M.printed = ""
            M.stop = False
            M.rem = n if kind == "step" else M.limit
            first, why = pos, None
            if kind == "step":
                bi = sc("step %d" % n)
            else:
                bi = sc("run")
            while why is None:
                if pos == len(instrs):
                    # (the breakpoint is not looked at by the first instruction)
                    why = 104 if pos > first else None
                    break
                a, eff, k = instrs[pos]
                pos += 1
                if eff:
                    before = M.active
                    if eff[0] == "w":
                        M.write(eff[1], eff[2])
                        if M.odd:
                            # a reset in the middle, or a limit taken back: not looked at
                            o.label("skipped")
                            return o
                        if before and M.active is None:
                            cmds += 1
                        if before is None and M.active is None and chr(eff[2]) in DOC and eff[1] == M.at:
                            cmds += 1
                    else:
                        v = M.read(eff[1])
                        if v is not ANY:
                            want[k] = v
                            bytes_cmp += 1
                        if before and M.active is None:
                            cmds += 1
                if M.stop:
                    why = "sif"
                    break
                if M.rem:
                    M.rem -= 1
                    if M.rem == 0:
                        why = 109
            checks.append((bi, "stop", (why, instrs[pos][0] if pos < len(instrs) else end, M.printed)))
        br = None
        if case["reset"] and M.active is None and pos == len(instrs):
            s = c["w"](A[M.at], ord("R"))
            tail = sum(s, [])
            sc("set mem rom %d %s" % (end + 2, " ".join(map(str, tail))))
            br = sc("pc %d" % (end + 2), "step %d" % len(s)), sc("reset", "pc")
        return self.finish(case, o, c, sc, args, M, res, nres, want, checks, what, cmds, bytes_cmp, br)

    def finish(self, case, o, c, sc, args, M, res, nres, want, checks, what, cmds, bytes_cmp, br):
        sim = case["sim"]
        bd = sc(*["expr %s[%d]" % (c["mem"], res + i) for i in range(nres)])
        files = {"i%d.dat" % k: bytes(case["fin"][k]) for k in range(2)}
        r = sc.run(sim, shim=False, args=args, files=files, want=["o%d.dat" % k for k in M.outs])
        o.units = len(case["ops"])
        if not S.health(r, o, sim):
            return o
        for b, kind, x in checks:
            text = "\n".join(r.blocks[b])
            if kind == "stop":
                why, addr, out = x
                st = re.search(r"^Stop at 0x([0-9a-f]+): \((\d+)\)", text, re.M)
                if not st or int(st[1], 16) != addr or (why != "sif" and int(st[2]) != why):
                    o.fail("stop", "%s: should stop at 0x%x for %s: %s" % (what, addr, why, text[:300]))
                    return o
                if why == "sif" and int(st[2]) in (104, 109, 101, 108):
                    o.fail("stop", "%s: stopped by the interface: %s" % (what, text[:300]))
                    return o
                got = re.sub(r"(?m)^Simulation started.*\n", "", text[:st.start()]).replace("\n", "")
                if got != out:
                    o.fail("print", "%s: printed %r instead of %r: %r" % (what, got, out, text[:300]))
                    return o
                o.label("stop-%s" % why)
                if out:
                    o.label("printed")
            else:
                act, np, ans = x
                g = re.search(r"^Active command: (none\.|0x([0-9a-f]{2}) )", text, re.M)
                if not g or (g[2] and chr(int(g[2], 16))) != act:
                    o.fail("info", "%s: active command should be %s: %s" % (what, act, text[:400]))
                    return o
                g = re.search(r"^Parameters received (\d+) bytes of (\d+)", text, re.M)
                if act and (not g or (int(g[1]), int(g[2])) != (np, DOC[act][0])):
                    o.fail("info", "%s: %s got %d parameters: %s" % (what, act, np, text[:400]))
                    return o
                o.label("info-%s" % ("active" if act else "idle"))
        if br:
            st = re.search(r"^Stop at 0x([0-9a-f]+): ", "\n".join(r.blocks[br[0]]), re.M)
            pc = re.search(r"^[ *FDbe!]*0x([0-9a-f]+) ", "\n".join(r.blocks[br[1]]), re.M)
            if not st or not pc or int(st[1], 16) != int(pc[1], 16):
                o.fail("reset", "%s: after command R: %s, after reset: %s" % (what, st and st[0], r.blocks[br[1]]))
                return o
            o.label("reset")
        try:
            got = [int(x) & 255 for x in r.blocks[bd]]
        except ValueError:
            o.fail("output", "%s: %s" % (what, r.blocks[bd][-3:]))
            return o
        for k in sorted(want):
            w = want[k]
            if got[k] != w:
                o.fail("answer", "%s: read %d gave 0x%02x instead of 0x%02x, all: %s" % (what, k, got[k], w, got))
                return o
        for k, v in M.outs.items():
            f = r.files.get("o%d.dat" % k)
            if f is None or list(f) != v:
                o.fail("file", "%s: output file %d is %s instead of %s" % (what, k, f and list(f), v))
                return o
            if v:
                o.label("written")
        for op in case["ops"]:
            if op[0] == "w" and chr(op[2]) in DOC:
                o.label("cmd " + chr(op[2]))
        o.label(sim)
        o.nontrivial = cmds > 2 and bytes_cmp > 3
        return o


CHECK = C()

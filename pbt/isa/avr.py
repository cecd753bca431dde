"""Reference model of the AVR (AVR Instruction Set Manual)."""
from .common import ISACheck, Reg, Skip

C, Z, N, V, S, H, T, I = 1, 2, 4, 8, 16, 32, 64, 128
RANGES = [(0, 0x2f), (0x3c, 0x5c), (0x60, 0x8ff), (0xff00, 0xffff)]
SREG, SPL, SPH = 0x5f, 0x5d, 0x5e
IOREGS = {SREG: "SREG", SPL: "SPL", SPH: "SPH"}
TWO = lambda w: w & 0xfc0f == 0x9000 or w & 0xfe0e in (0x940c, 0x940e)

# opcode patterns
PATTERNS = """
0000000000000000 nop
000001rdddddrrrr cpc
000010rdddddrrrr sbc
000011rdddddrrrr add
000100rdddddrrrr cpse
000101rdddddrrrr cp
000110rdddddrrrr sub
000111rdddddrrrr adc
001000rdddddrrrr and
001001rdddddrrrr eor
001010rdddddrrrr or
001011rdddddrrrr mov
0011KKKKddddKKKK cpi
0100KKKKddddKKKK sbci
0101KKKKddddKKKK subi
0110KKKKddddKKKK ori
0111KKKKddddKKKK andi
10q0qq0dddddyqqq ldd
10q0qq1dddddyqqq std
1001000ddddd0000 lds
1001000ddddd0001 ldzp
1001000ddddd0010 ldmz
1001000ddddd1001 ldyp
1001000ddddd1010 ldmy
1001000ddddd1100 ldx
1001000ddddd1101 ldxp
1001000ddddd1110 ldmx
1001000ddddd1111 pop
1001001ddddd0000 sts
1001001ddddd0001 stzp
1001001ddddd0010 stmz
1001001ddddd1001 styp
1001001ddddd1010 stmy
1001001ddddd1100 stx
1001001ddddd1101 stxp
1001001ddddd1110 stmx
1001001ddddd1111 push
1001010ddddd0000 com
1001010ddddd0001 neg
1001010ddddd0010 swap
1001010ddddd0011 inc
1001010ddddd0101 asr
1001010ddddd0110 lsr
1001010ddddd0111 ror
1001010ddddd1010 dec
100101000sss1000 bset
100101001sss1000 bclr
1001010000001001 ijmp
1001010100001001 icall
1001010100001000 ret
1001010100011000 reti
1001010111001000 lpm
10010110KKddKKKK adiw
10010111KKddKKKK sbiw
10011000AAAAAbbb cbi
10011001AAAAAbbb sbic
10011010AAAAAbbb sbi
10011011AAAAAbbb sbis
100111rdddddrrrr mul
10110AAdddddAAAA in
10111AAdddddAAAA out
1100kkkkkkkkkkkk rjmp
1101kkkkkkkkkkkk rcall
1110KKKKddddKKKK ldi
111100kkkkkkksss brbs
111101kkkkkkksss brbc
1111100ddddd0bbb bld
1111101ddddd0bbb bst
1111110ddddd0bbb sbrc
1111111ddddd0bbb sbrs
1001010000001100 jmp
1001010000001110 call
"""
# (MOVW, MULS..FMULSU, LPM Rd,Z and so on of the later cores are not implemented by the simulator)
PAT = [l.split() for l in PATTERNS.strip().split("\n")]


class CPU:
    def __init__(self, m):
        self.m = m
        self.r = m.r
        self.s = m.s["iram"]
        self.rom = m.s["rom"].m
        self.pc = m.r["PC"]

    def g(self, n):
        return self.s.m[n]

    def w(self, n, v):
        self.s.wr(n, v & 255)

    def ok(self, a):
        if not any(lo <= a <= hi for lo, hi in RANGES):
            raise Skip()

    def rd(self, a):
        a &= 0xffff
        if a in IOREGS:
            return self.r[IOREGS[a]]
        self.ok(a)
        return self.s.m[a]

    def wr(self, a, v):
        a &= 0xffff
        if a in IOREGS:
            self.r[IOREGS[a]] = v & 255
            return
        self.ok(a)
        self.s.wr(a, v & 255)

    def fetch(self):
        v = self.rom[self.pc]
        self.pc = (self.pc + 1) & 0xffff
        return v

    def pair(self, n):
        return self.g(n) | self.g(n + 1) << 8

    def wpair(self, n, v):
        self.w(n, v)
        self.w(n + 1, v >> 8)

    @property
    def sp(self):
        return self.r["SPL"] | self.r["SPH"] << 8

    @sp.setter
    def sp(self, v):
        self.r["SPL"], self.r["SPH"] = v & 255, v >> 8 & 255

    def smem(self, a):
        # the stack is in memory
        if a & 0xffff < 0x60:
            raise Skip()

    def push(self, v):
        self.smem(self.sp)
        self.wr(self.sp, v)
        self.sp -= 1

    def pop(self):
        self.smem(self.sp + 1)
        self.sp += 1
        return self.rd(self.sp)

    def push16(self, v):
        self.push(v >> 8)
        self.push(v)

    def pop16(self):
        v = self.pop()
        return v | self.pop() << 8

    def fl(self, mask, v):
        self.r["SREG"] = self.r["SREG"] & ~mask | v

    def nzs(self, mask, v, res, top=0x80, z=True):
        """N, Z and S from the result; v holds the other flags"""
        if res & top:
            v |= N
        if bool(v & N) != bool(v & V):
            v |= S
        if z and res == 0:
            v |= Z
        self.fl(mask, v)

    def add(self, a, b, c):
        t = a + b + c
        r = t & 255
        v = (C if t > 255 else 0) | (V if (a ^ r) & (b ^ r) & 128 else 0) | (H if (a & 15) + (b & 15) + c > 15 else 0)
        self.nzs(C | Z | N | V | S | H, v, r)
        return r

    def sub(self, a, b, c, keepz=False):
        t = a - b - c
        r = t & 255
        v = (C if t < 0 else 0) | (V if (a ^ b) & (a ^ r) & 128 else 0) | (H if (a & 15) - (b & 15) - c < 0 else 0)
        if keepz and r == 0:
            v |= self.r["SREG"] & Z
        self.nzs(C | Z | N | V | S | H, v, r, z=not keepz)
        return r

    def skip(self, cond):
        if cond:
            nx = self.rom[self.pc]
            if not known(nx):
                raise Skip()
            n = 2 if TWO(nx) else 1
            self.pc = (self.pc + n) & 0xffff
            self.m.ticks += n

    def step(self):
        w = self.fetch()
        for pat, name in PAT:
            f = match(pat, w)
            if f is not None:
                break
        else:
            raise Skip()
        self.m.ticks = 1
        self.do(name, f)
        self.r["PC"] = self.pc & 0xffff
        return name

    def do(self, n, f):
        m = self.m
        d, rr, K = f.get("d", 0), f.get("r", 0), f.get("K", 0)
        c = self.r["SREG"] & C
        if n in ("add", "adc"):
            self.w(d, self.add(self.g(d), self.g(rr), c if n == "adc" else 0))
        elif n in ("sub", "sbc", "cp", "cpc"):
            k = n in ("sbc", "cpc")
            t = self.sub(self.g(d), self.g(rr), c if k else 0, k)
            if n[0] == "s":
                self.w(d, t)
        elif n in ("cpi", "subi", "sbci"):
            d += 16
            k = n == "sbci"
            t = self.sub(self.g(d), K, c if k else 0, k)
            if n != "cpi":
                self.w(d, t)
        elif n in ("and", "or", "eor", "andi", "ori"):
            if n[-1] == "i":
                d += 16
                b = K
            else:
                b = self.g(rr)
            a = self.g(d)
            t = a & b if n[0] == "a" else a ^ b if n[0] == "e" else a | b
            self.w(d, t)
            self.nzs(Z | N | V | S, 0, t)
        elif n == "mov":
            self.w(d, self.g(rr))
        elif n == "movw":
            self.wpair(2 * d, self.pair(2 * rr))
        elif n == "ldi":
            self.w(d + 16, K)
        elif n in ("mul", "muls", "mulsu", "fmul", "fmuls", "fmulsu"):
            if n == "muls":
                d, rr = d + 16, rr + 16
            elif n != "mul":
                d, rr = d + 16, rr + 16
            a, b = self.g(d), self.g(rr)
            if n in ("muls", "mulsu", "fmuls", "fmulsu"):
                a -= (a & 128) << 1
            if n in ("muls", "fmuls"):
                b -= (b & 128) << 1
            t = a * b & 0xffff
            cc = C if t & 0x8000 else 0
            if n[0] == "f":
                t = t << 1 & 0xffff
            self.wpair(0, t)
            self.fl(C | Z, cc | (Z if t == 0 else 0))
            m.ticks = 2
        elif n in ("adiw", "sbiw"):
            d = 24 + 2 * d
            a = self.pair(d)
            t = (a + K if n[0] == "a" else a - K) & 0xffff
            if n[0] == "a":
                v = (V if t & ~a & 0x8000 else 0) | (C if a & ~t & 0x8000 else 0)
            else:
                v = (V if a & ~t & 0x8000 else 0) | (C if t & ~a & 0x8000 else 0)
            self.wpair(d, t)
            self.nzs(C | Z | N | V | S, v, t, 0x8000)
            m.ticks = 2
        elif n == "com":
            t = self.g(d) ^ 255
            self.w(d, t)
            self.nzs(C | Z | N | V | S, C, t)
        elif n == "neg":
            self.w(d, self.sub(0, self.g(d), 0))
        elif n in ("inc", "dec"):
            a = self.g(d)
            t = (a + (1 if n == "inc" else -1)) & 255
            self.w(d, t)
            self.nzs(Z | N | V | S, V if a == (0x7f if n == "inc" else 0x80) else 0, t)
        elif n in ("asr", "lsr", "ror"):
            a = self.g(d)
            t = a >> 1 | (a & 128 if n[0] == "a" else c << 7 if n[0] == "r" else 0)
            self.w(d, t)
            v = a & 1
            if bool(t & 128) != bool(v):
                v |= V
            self.nzs(C | Z | N | V | S, v, t)
        elif n == "swap":
            a = self.g(d)
            self.w(d, a >> 4 | a << 4)
        elif n == "bset":
            self.r["SREG"] |= 1 << f["s"]
        elif n == "bclr":
            self.r["SREG"] &= ~(1 << f["s"])
        elif n == "bst":
            self.fl(T, T if self.g(d) >> f["b"] & 1 else 0)
        elif n == "bld":
            b = 1 << f["b"]
            self.w(d, self.g(d) & ~b | (b if self.r["SREG"] & T else 0))
        elif n == "nop":
            pass
        elif n in ("cbi", "sbi", "sbic", "sbis"):
            a = 0x20 + f["A"]
            b = 1 << f["b"]
            v = self.rd(a)
            if n == "cbi":
                self.wr(a, v & ~b)
                m.ticks = 2
            elif n == "sbi":
                self.wr(a, v | b)
                m.ticks = 2
            else:
                self.skip(bool(v & b) == (n == "sbis"))
        elif n in ("in", "out"):
            a = 0x20 + f["A"]
            if n == "in":
                self.w(d, self.rd(a))
            else:
                self.wr(a, self.g(d))
        elif n in ("ldd", "std"):
            a = self.pair(28 if f.get("y") else 30) + f["q"]
            if a > 0xffff:
                raise Skip()
            if n == "ldd":
                self.w(d, self.rd(a))
            else:
                self.wr(a, self.g(d))
            m.ticks = 2
        elif n in ("lds", "sts"):
            a = self.fetch()
            if n == "lds":
                self.w(d, self.rd(a))
            else:
                self.wr(a, self.g(d))
            # (sources disagree about the number of cycles)
            m.ticks = None
        elif n in ("push", "pop"):
            if n == "push":
                self.push(self.g(d))
            else:
                self.w(d, self.pop())
            m.ticks = 2
        elif n[:2] in ("ld", "st"):
            k = n[2:]
            p = {"x": 26, "y": 28, "z": 30}[k.strip("pm")]
            if k[0] == "m" or k[-1] == "p":
                # undefined when the register is part of the pointer
                if d in (p, p + 1):
                    raise Skip()
            a = self.pair(p)
            if k[0] == "m":
                a = a - 1 & 0xffff
            if a in (p, p + 1) and (k[0] == "m" or k[-1] == "p"):
                raise Skip()
            if n[0] == "l":
                self.w(d, self.rd(a))
            else:
                self.wr(a, self.g(d))
            if k[0] == "m":
                self.wpair(p, a)
            elif k[-1] == "p":
                self.wpair(p, a + 1)
            m.ticks = 2
        elif n in ("lpm", "lpmz", "lpmzp"):
            a = self.pair(30)
            if n == "lpmzp" and d in (30, 31):
                raise Skip()
            v = self.rom[a >> 1] >> (8 if a & 1 else 0) & 255
            self.w(0 if n == "lpm" else d, v)
            if n == "lpmzp":
                self.wpair(30, a + 1)
            m.ticks = 3
        elif n == "ijmp":
            self.pc = self.pair(30)
            m.ticks = 2
        elif n == "icall":
            self.push16(self.pc)
            self.pc = self.pair(30)
            m.ticks = 3
        elif n in ("jmp", "call"):
            a = self.fetch()
            if n == "call":
                self.push16(self.pc)
            self.pc = a
            m.ticks = 3 if n == "jmp" else 4
        elif n in ("rjmp", "rcall"):
            k = f["k"]
            if n == "rcall":
                self.push16(self.pc)
            self.pc += k - ((k & 0x800) << 1)
            m.ticks = 2 if n == "rjmp" else 3
        elif n in ("ret", "reti"):
            self.pc = self.pop16()
            if n == "reti":
                self.r["SREG"] |= I
            m.ticks = 4
        elif n in ("brbs", "brbc"):
            if bool(self.r["SREG"] >> f["s"] & 1) == (n == "brbs"):
                k = f["k"]
                self.pc += k - ((k & 0x40) << 1)
                m.ticks = 2
        elif n == "cpse":
            self.skip(self.g(d) == self.g(rr))
        elif n in ("sbrc", "sbrs"):
            self.skip(bool(self.g(d) >> f["b"] & 1) == (n == "sbrs"))
        else:
            raise AssertionError(n)


_cache = {}


def match(pat, w):
    f = {}
    for i, ch in enumerate(pat):
        b = w >> (15 - i) & 1
        if ch in "01":
            if b != int(ch):
                return None
        else:
            f[ch] = f.get(ch, 0) << 1 | b
    return f


def known(w):
    if w not in _cache:
        _cache[w] = any(match(p, w) is not None for p, _ in PAT)
    return _cache[w]


class AVR(ISACheck):
    sim = "avr"
    regs = [Reg("SREG"), Reg("SPL"), Reg("SPH")]
    spaces = {"rom": 0x10000, "iram": 0x10000}
    cellbits = {"rom": 16}
    loaded = ["iram"]
    prologue = ["fill rom 0 0xffff 0"]
    filled = ["rom"]
    ROMLO, ROMHI = 0x80, 0x17f

    def memcheck_ranges(self, name):
        return RANGES if name == "iram" else [(0, 0xffff)]

    def readable(self, n, a):
        return n == "rom" or any(lo <= a <= hi for lo, hi in RANGES)

    def image(self, name, ms):
        img = super().image(name, ms)
        if name == "rom":
            img = [v if self.ROMLO <= i <= self.ROMHI else 0 for i, v in enumerate(img)]
        return img

    def load_lines(self, name, img):
        return ["set mem %s %d %s" % (name, a, " ".join(str(x) for x in img[a:a + 64]))
                for a in range(self.ROMLO, self.ROMHI + 1, 64)]

    def word(self, d, pats):
        pat, name = d.choice(pats)
        w = d.bits(16)
        v = 0
        for i, ch in enumerate(pat):
            v = v << 1 | (int(ch) if ch in "01" else w >> (15 - i) & 1)
        return v, name

    def gen_step(self, d, i):
        v, name = self.word(d, PAT)
        if name in ("in", "out") and d.bool(0.9):
            a = d.choice([0x3d, 0x3e, 0x3f])
            v = v & ~0x60f | (a & 0x30) << 5 | a & 15
        nx, nn = self.word(d, PAT) if d.bool(0.6) else self.word(d, [p for p in PAT if p[1] in ("lds", "sts", "jmp", "call")])
        if name in ("lds", "sts", "jmp", "call"):
            nx = self.addr(d)
        code = [v, nx, d.bits(16)]
        pc = d.weighted([(30, 0x100), (10, None), (1, 0xffff), (1, 0xfffe)])
        if pc is None:
            pc = d.bits(16)
        regs = {}
        if d.bool(0.5):
            regs["SREG"] = d.edge(8)
        if d.bool(0.5):
            a = self.addr(d)
            regs["SPL"], regs["SPH"] = a & 255, a >> 8
        poke = []
        for p in (26, 28, 30):
            if d.bool(0.4):
                a = self.addr(d)
                poke.append(["iram", p, [a & 255, a >> 8]])
        f = [match(p, v) for p, k in PAT if k == name][0]
        for k in "dr":
            if k in f and d.bool(0.6):
                x = f[k]
                if name in ("cpi", "subi", "sbci", "andi", "ori", "ldi", "muls", "mulsu", "fmul", "fmuls", "fmulsu"):
                    x += 16
                elif name in ("adiw", "sbiw"):
                    x = 24 + 2 * x
                elif name == "movw":
                    x = 2 * x
                poke.append(["iram", x, [d.edge(8)] + ([d.edge(8)] if name in ("adiw", "sbiw", "movw") else [])])
        return {"pc": pc, "code": code, "set": regs, "poke": poke}

    def addr(self, d):
        k = d.below(16)
        if k < 12:
            return 0x60 + d.bits(11)
        if k == 12:
            return 0xff00 + d.bits(8)
        if k == 13:
            return d.choice([0x5d, 0x5e, 0x5f, 0x5c, 0, 1, 30, 31, 0xffff])
        return d.bits(16) if k == 14 else d.below(32)

    def execute(self, m):
        return CPU(m).step()

"""C14: the disassembler and the execution agree about instructions"""
import re
from ..engine import Check, Outcome
from .. import anycpu as A, sim as S

# XA is announced by the simulator itself as unstable and for developers only
FLEET = [i for i, (s, t) in enumerate(A.FLEET) if s != "xa"]
PREFIX = {"z80": [0xdd, 0xfd, 0xed, 0xcb], "rxk": [0xdd, 0xfd, 0xed, 0xcb, 0xd3, 0x76, 0x5b, 0x49, 0x4d, 0x6d, 0x7f],
          "m6809": [0x10, 0x11], "m68hc08": [0x9e], "m68hc11": [0x18, 0x1a, 0xcd], "m68hc12": [0x18, 0x04],
          "stm8": [0x72, 0x90, 0x91, 0x92], "st7": [0x72, 0x90, 0x91, 0x92], "f8": [0x9c, 0x9d, 0x9e, 0x9f, 0xec, 0xee],
          "tlcs": [0xe0, 0xe3, 0xe4, 0xe7, 0xe8, 0xeb, 0xef, 0xf0, 0xf3, 0xf4, 0xf7, 0xf8, 0xfe], "s51": []}
FE = re.compile(r"Fetch= (\d+)")


# column where the instruction starts
COL = {"avr": 19, "f8": 24, "i8048": 14, "i8085": 18, "m6800": 21, "m6809": 24, "m68hc08": 21, "m68hc11": 27, "m68hc12": 27,
       "mos6502": 18, "oisc": 29, "p1516": 22, "pblaze": 14, "pdk": 19, "rxk": 21, "s51": 18, "st7": 24, "stm8": 25,
       "tlcs": 27, "z80": 21}
COLT = {"HUC6280": 30, "R4K": 27, "R5K": 27, "R6K": 27, "DS390": 19}
# instructions that may continue elsewhere than at the next one
FLOW = {"avr": r"br(?!eak)..|r?jmp|e?i?jmp|r?call|e?i?call|reti?|cpse|sb[ri][cs]|spm|break|sleep",
        "f8": r"call|d?n?jnz|dnjnz|jp|jr.*|ret.*|trap",
        "i8048": r"j.*|djnz|call|retr?i?|sel",
        "i8085": r"J.*|CALL|C(NZ|Z|NC|C|PO|PE|P|M)|RET|R(NZ|Z|NC|C|PO|PE|P|M)|RST.*|PCHL|HLT",
        "m6800": r"B(?!IT)..|JMP|JSR|RT[IS]|SWI|WAI",
        "m6809": r"L?B(?!IT)..|JMP|JSR|RT[IS]|SWI.?|PUL[SU]|EXG|TFR|CWAI|SYNC|RESET",
        "m68hc08": r"b(?!it|set|clr).*|cbeq.*|dbnz.*|jmp|jsr|call|rt[cis]|swi|stop|wait",
        "m68hc11": r"B(?!IT|SET|CLR)..|BRSET|BRCLR|JMP|JSR|RT[IS]|SWI|WAI|STOP|TEST",
        "m68hc12": r"L?B(?!IT|SET|CLR)..|BRSET|BRCLR|[DIT]B(EQ|NE)|JMP|JSR|CALL|RT[CIS]|SWI|WAI|STOP|TRAP.*|BGND|REVW?|WAV",
        "mos6502": r"B(?!IT)..|BB[RS].?|JMP|JSR|RT[IS]|BRK|STP|WAI",
        "pblaze": r"JUMP.*|CALL.*|RET.*|LOAD&.*", "pdk": r"call|goto|reti?|pcadd[lh]?|.*sn|icall|igoto|stopexe|stopsys|reset|delay|wait.|ijmp",
        "rxk": r"[FL]*J[PR].?|[FLS]*CALL|[FLS]*RET.?|RST|D?W?JNZ|DWJNZ|DJNZ|.*R|IDET|SYSCALL|SYSRET|SETUSRP?|COPY|COPYR|RDMODE",
        "s51": r"[AL]CALL|[ALS]?JMP|JN?[CZB]|JBC|CJNE|DJNZ|RETI?|[ES]?(CALL|JMP)",
        "st7": r"b[tj][jt].?|btj.|callr?|iret|j.*|ret|trap|halt|wfi",
        "stm8": r"btj.|call[rf]?|iret|int|j.*|retf?|trap|halt|wf[ie]|break",
        "tlcs": r"DJNZ|JP|JRL?|CALL|CALR|RET.?|SWI|HALT|..[ID]R", "z80": r"CALL|DJNZ|J[PR]|RET.?|RST.*|HALT|.*R|.*RX|SLP|STOP|LDIRSCALE|.*IRX|TRAP"}
# jumps of which the disassembler shows the address
DIRECT = {"avr": r"br(?!eak)..|r?jmp|r?call", "f8": r"call|dnjnz|jp|jr.*", "i8048": r"j(?!mpp).*|djnz|call",
          "i8085": r"J.*|CALL|C(NZ|Z|NC|C|PO|PE|P|M)", "m6800": r"B(?!IT)..|JMP|JSR", "m6809": r"L?B(?!IT)..|JMP|JSR",
          "m68hc08": r"b(?!it|set|clr).*|cbeq.*|dbnz.*|jmp|jsr", "m68hc11": r"B(?!IT|SET|CLR)..|BRSET|BRCLR|JMP|JSR",
          "m68hc12": r"L?B(?!IT|SET|CLR)..|BRSET|BRCLR|[DIT]B(EQ|NE)|JMP|JSR",
          "mos6502": r"B(?!IT)..|BB[RS].?|JMP|JSR", "pblaze": r"JUMP|CALL", "pdk": r"call|goto",
          "rxk": r"J[PR].?|CALL|D?W?JNZ|DWJNZ|DJNZ", "s51": r"[AL]CALL|[ALS]JMP|JN?[CZB]|JBC|CJNE|DJNZ",
          "st7": r"b[tj][jt].?|btj.|callr?|j.*", "stm8": r"btj.|callr?|j(?!pf).*", "tlcs": r"DJNZ|JP|JRL?|CALL|CALR",
          "z80": r"CALL|DJNZ|J[PR]"}
ADDR = re.compile(r"(?:0x|\$)([0-9a-fA-F]+)$|\b([0-9a-fA-F]+)[hH]$")
SKIPS = {"avr": r"cpse|sb[ri][cs]"}
LINE = re.compile(r"^0x([0-9a-f]+)    ")
DUMP = re.compile(r"^0x([0-9a-f]+) (?! )(.*)")

VECT = {"s51": range(3, 0x70), "i8048": (3, 7), "avr": range(1, 0x40)}

class C14(Check):
    id = "C14"
    sims = sorted({A.FLEET[i][0] for i in FLEET})
    rule = "at least one instruction of two or more units, or one that jumped, was executed"
    unit_name = "instructions"
    n_quick = 4000
    n_thorough = 60000

    def setup(self):
        for i in FLEET:
            A.spaces(i)

    def gen(self, d):
        i = d.choice(FLEET)
        sim, typ = A.FLEET[i]
        sp, lo, hi = A.code_of(sim)
        w = A.WIDTH.get(sim) or A.PDKW.get(typ, 8)
        pool = A.pools().get("%s/%s" % (sim, typ))
        pf = PREFIX.get(sim, [])
        if sim == "oisc":
            lo = 0x20
        if sim == "p1516":
            hi = 0xfeff
        if sim == "pdk" and typ != "PDK16":
            hi = 0xfff
        if sim == "i8048":
            hi = next(h for k, n, l, h in A.spaces(i)[0] if k == "c" and n == "rom_chip")
        pr, used = [], set()
        for _ in range(d.size(1, 30)):
            a = d.int(lo, hi - 0x18) & ~0xf
            if a in used or (sim in A.MOTO and a - 0x10 <= A.MOTO[sim] + 0x23 and a + 0x20 >= A.MOTO[sim]):
                continue
            used.add(a)
            b = []
            if pf and d.bool(0.5):
                b.append(d.choice(pf))
                if d.bool(0.3):
                    b.append(d.choice(pf))
                b.append(d.bits(8))
            elif pool and d.bool(0.8):
                b.append(d.choice(pool))
            while len(b) < 8:
                b.append(d.bits(w))
            pr.append((a + d.int(0, 7), b))
        return dict(cpu=i, R=d.int(1, 999), rst=d.bool(0.5), probes=pr)

    def run(self, sc):
        o = Outcome()
        rs = probe(sc, o)
        if rs is None:
            return o
        for x in rs:
            judge(sc, o, *x)
            if len(o.fails) > 4:
                break
        return o


def judge(sc, o, a, b, dc, s1, st, s2):
    sim, typ = A.FLEET[sc["cpu"]]
    lines = [l for l in dc if LINE.match(l) and not re.search(r" <[^>]*>:", l)]
    what = "%s -t %s" % (sim, typ)
    if any("!!!" in l for l in dc):
        o.label("undefined")
        return
    if not lines or int(LINE.match(lines[0])[1], 16) != a:
        o.fail("first/" + typ, "%s: dc 0x%x does not start with the instruction at the address: %r" % (what, a, dc[:2]))
        return
    if len(lines) < 2:
        return
    n = int(LINE.match(lines[1])[1], 16) - a
    col = COLT.get(typ, COL[sim])
    w = A.WIDTH.get(sim) or A.PDKW.get(typ, 8)
    toks = lines[0].split()
    if w == 8 or w > 16:
        # (long instructions push the text to the right)
        txt = " ".join(toks[1 + (n if w == 8 else 1):])
    else:
        txt = lines[0][col:]
    txt = txt.split(";")[0].strip().lstrip("*")
    if not txt or "UNKNOWN" in txt or txt[0] in "?-" or "BAD_OPCODE" in txt or "?" in txt or "!!!" in txt or txt.lower().startswith(("db", "unk", "ill")):
        o.label("undefined")
        return
    mn = txt.split()[0]
    stop = A.stop_of(st)
    if stop is None:
        o.fail("nostop/" + typ, "%s: step at 0x%x (%s) printed no stop line: %r" % (what, a, lines[0].strip(), st[:4]))
        return
    f = [FE.search("\n".join(x)) for x in (s1, s2)]
    d = int(f[1][1]) - int(f[0][1])
    if stop[0] != 109 or d < 0 or (d == 0 and sim != "oisc"):
        o.label("stop%d" % stop[0])
        return
    o.units += 1
    nx = stop[1]
    o.label(sim)
    ctx = "%s: %s" % (what, re.sub(r"\s+", " ", lines[0].strip()))
    # the code shown
    mem = []
    for l in dc:
        m = DUMP.match(l)
        if m and int(m[1], 16) == a + len(mem):
            mem += [int(t, 16) for t in re.findall(r"\b[0-9a-f]+(?= )", m[2][:8 * (w // 4 + w % 4 + 1)])]
    k = n if w == 8 else 1
    try:
        shown = [int(t, 16) for t in toks[1:1 + k]]
    except ValueError:
        shown = None
    if shown != mem[:k]:
        o.fail("code/" + typ, "%s: shown %d long, but the memory has %s" % (ctx, n, " ".join("%x" % v for v in mem)))
    # length and fetches
    if sim != "oisc":
        ok = d == n
        if not ok and sim in SKIPS and re.fullmatch(SKIPS[sim], mn):
            ok = d in (n, n + 1) and nx != a + n or d == n
        if not ok:
            o.fail("length/%s/%s" % (typ, mn), "%s: shown %d units long, but its execution fetched %d (PC after: 0x%x)" % (ctx, n, d, nx))
    # where it continues
    if sim in FLOW:
        if nx in VECT.get(sim, ()):
            # (an interrupt may be accepted)
            o.label("vector")
            return
        if nx != a + n and not re.fullmatch(FLOW[sim], mn):
            o.fail("flow/%s/%s" % (typ, mn), "%s: not a jump, but execution continued at 0x%x instead of 0x%x" % (ctx, nx, a + n))
        if nx != a + n:
            o.label("jumped")
            if re.fullmatch(DIRECT[sim], mn) and not re.search(r"[(\[@*]|P\.|DP:", txt):
                m = ADDR.search(txt)
                if m:
                    t = int(m[1] or m[2], 16)
                    o.label("target")
                    if (t ^ nx) & (0xffff if sim == "avr" or typ == "DS390" else -1):
                        o.fail("target/%s/%s" % (typ, mn), "%s: jumped to 0x%x" % (ctx, nx))
    if n > 1 or nx != a + n:
        o.nontrivial = True


def probe(sc, o):
    sim, typ = A.FLEET[sc["cpu"]]
    sp0, lo, hi = A.code_of(sim)
    sp = sp0
    s = S.Script()
    files, pre = {}, []
    w = A.WIDTH.get(sim) or A.PDKW.get(typ, 8)
    if w == 8 and sim != "f8":
        lines = []
        for a, b in sc["probes"]:
            rec = [len(b), a >> 8 & 255, a & 255, 0] + b
            lines.append(":" + "".join("%02X" % x for x in rec) + "%02X" % (-sum(rec) & 255))
        lines.append(":00000001FF")
        files, pre = {"code.ihx": "\n".join(lines) + "\n"}, ['load "code.ihx"']
    else:
        for a, b in sc["probes"]:
            if sim == "f8":
                sp, a = "prom_chip", a - 0x4000
            pre.append("set mem %s 0x%x %s" % (sp, a, " ".join("0x%x" % x for x in b)))
    s(*pre)
    ix = []
    for a, b in sc["probes"]:
        # (PDK: one core only; reset does not stop the other ones)
        s(*((["reset"] if sc["rst"] else []) + (["set mem regs8 1 1"] if sim == "pdk" else []) + ["pc 0x%x" % a]))
        ix.append((s("dc 0x%x 0x%x" % (a, a + 12), "dump /h %s 0x%x 0x%x" % (sp0, a, a + 7)), s("state"), s("step"), s("state"),
                   s("dump /h regs8 1 1") if sim == "pdk" else None))
    s.lines.append("quit")
    r = s.run(sim, args=["-t", typ], files=files, seed=sc["R"], timeout=60)
    if not S.health(r, o, "%s -t %s" % (sim, typ)):
        return None
    out = []
    for (a, b), (d, s1, st, s2, fp) in zip(sc["probes"], ix):
        g = [r.blocks[k] for k in (d, s1, st, s2)]
        if fp is not None and not any(re.match(r":0100010001", l) or re.match(r"0x0*1 01\b", l) for l in r.blocks[fp]):
            o.label("fpp")
            continue
        out.append((a, b) + tuple(g))
    return out


CHECK = C14()

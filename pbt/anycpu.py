"""Every CPU type of every simulator, executing random code: used by checks that hold for all
CPUs alike (execution in pieces, observation, determinism, disassembly)."""
import json, os, random, re
from . import sim as S
from .prog import CPUS

FLEET = [
    ("avr", "AVR"), ("f8", "F8"), ("i8048", "I8048"), ("i8048", "I8021"), ("i8048", "I8022"), ("i8048", "I8041"),
    ("i8085", "I8085"), ("i8085", "I8080"), ("m6800", "M6800"), ("m6800", "M6801"), ("m6809", "M6809"),
    ("m68hc08", "HC08"), ("m68hc08", "HCS08"), ("m68hc08", "9S08"), ("m68hc11", "HC11"), ("m68hc12", "HC12"),
    ("mos6502", "6502"), ("mos6502", "65C02"), ("mos6502", "65C02S"), ("mos6502", "HUC6280"),
    ("oisc", "URISC"), ("oisc", "EM"), ("oisc", "MISC16"), ("p1516", "P1516"), ("p1516", "P2223"),
    ("pblaze", "KCPSM3"), ("pblaze", "KCPSM6"), ("pdk", "PDK13"), ("pdk", "PDK14"), ("pdk", "PDK15"), ("pdk", "PDK16"),
    ("rxk", "R2K"), ("rxk", "R3K"), ("rxk", "R3KA"), ("rxk", "R4K"), ("rxk", "R5K"), ("rxk", "R6K"),
    ("s51", "51"), ("s51", "52"), ("s51", "51R"), ("s51", "89C51R"), ("s51", "521"), ("s51", "251"), ("s51", "C517"),
    ("s51", "XC88X"), ("s51", "DS320"), ("s51", "DS390"), ("s51", "F380"),
    ("st7", "ST7"), ("stm8", "S"), ("stm8", "S103"), ("stm8", "S105"), ("stm8", "S207"), ("stm8", "L"),
    ("tlcs", "TLCS90"), ("xa", "XA"),
    ("z80", "Z80"), ("z80", "Z180"), ("z80", "GB80"), ("z80", "EZ80"), ("z80", "Z80N"), ("z80", "R800"),
]
# address range with (startup-random) executable memory
CODE = {"f8": ("rom", 0x4000, 0xffff), "i8048": ("rom", 0, 0xfff), "pblaze": ("rom", 0, 0x3ff), "pdk": ("rom", 0, 0x1fff),
        "stm8": ("rom", 0x8000, 0x9fff), "tlcs": ("nas", 0, 0xffff), "p1516": ("rom", 0, 0xffff)}


def code_of(sim):
    return CODE.get(sim, ("rom", 0, 0xffff))


def code_top(i):
    sp = code_of(FLEET[i][0])[0]
    return max(hi for kind, name, lo, hi in spaces(i)[0] if kind == "s" and name == sp)


# ---------------------------------------------------------------- memory images
_pools = None


def pools():
    global _pools
    if _pools is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "opcodes.json")) as f:
            _pools = json.load(f)
    return _pools


WIDTH = {"avr": 16, "pblaze": 18, "p1516": 32, "oisc": 16}
PDKW = {"PDK13": 13, "PDK14": 14, "PDK15": 15, "PDK16": 16}


# where the registers of the hardware elements are: (memory, first, last, bits)
HWREGS = {"s51": [("sfr", 0x80, 0xff, 8)] * 3 + [("sfr", 0x88, 0x8d, 8), ("sfr", 0xa8, 0xa8, 8), ("sfr", 0xc8, 0xcd, 8)],
          "stm8": [("rom", 0x5000, 0x50ff, 8), ("rom", 0x5200, 0x53ff, 8), ("rom", 0x7f70, 0x7f77, 8)],
          "pdk": [("regs8", 3, 0x3f, 8)], "avr": [("iram", 0x20, 0x5f, 8)], "xa": [("sfr", 0x400, 0x47f, 8)],
          "m6800": [("rom", 0x8000, 0x8023, 8), ("rom", 0xc000, 0xc023, 8)], "m6809": [("rom", 0xc000, 0xc023, 8)],
          "m68hc11": [("rom", 0x8000, 0x8023, 8), ("rom", 0xc000, 0xc023, 8)],
          "m68hc12": [("rom", 0x8000, 0x8023, 8), ("rom", 0xc000, 0xc023, 8)],
          "z80": [("inputs", 0, 15, 8), ("outputs", 0, 15, 8)], "rxk": [("ioi", 0, 0xff, 8)],
          "p1516": [("rom", 0xff00, 0xff53, 32)], "oisc": [("rom", 0xff00, 0xffff, 16)]}


# the PIAs of Motorola CPUs change when they are read, also by the printing of the memory that the
# index and stack registers point to; so does the MMU of the 9S08
MOTO = {"m6800": 0x8000, "m68hc11": 0x8000, "m68hc12": 0x8000, "m6809": 0xc000}


def gen_scene(d, only=None, hw=0.5):
    """a scene: CPU, seed of the start-up memory, code image, PC, hardware registers"""
    idx = [i for i, (s, t) in enumerate(FLEET) if only is None or s in only]
    i = d.choice(idx)
    sim, typ = FLEET[i]
    sp, lo, hi = code_of(sim)
    sc = dict(cpu=i, R=d.int(1, 999), img=d.bits(24), p=d.choice([100, 70, 40, 90, 0]), pc=d.int(lo, hi - 4))
    if sim in HWREGS and d.bool(hw):
        pre = []
        for _ in range(d.size(1, 16)):
            m, a, b, w = d.choice(HWREGS[sim])
            pre.append("set mem %s 0x%x 0x%x" % (m, d.int(a, b), d.edge(w)))
        sc["pre"] = pre
    return sc


_img = {}


def image(sc):
    """(files, commands) that fill the code memory of the scene"""
    sim, typ = FLEET[sc["cpu"]]
    sp, lo, hi = code_of(sim)
    k = (sc["cpu"], sc["img"], sc["p"])
    if k in _img:
        return _img[k]
    r = random.Random("img%d" % sc["img"])
    pool = pools().get("%s/%s" % (sim, typ))
    w = WIDTH.get(sim) or PDKW.get(typ, 8)
    m = (1 << w) - 1

    def cell():
        if pool and r.random() * 100 < sc["p"]:
            return r.choice(pool)
        if sim == "oisc" and r.random() < .4:
            # (what the computers can do is in these cells)
            return r.choice([0xfff0 + r.getrandbits(3), 0xffff]) if typ == "URISC" else r.getrandbits(4)
        return r.getrandbits(w)
    if w == 8 and sim != "f8":
        lines = []
        for a in range(lo, hi + 1, 32):
            bs = [cell() for _ in range(min(32, hi + 1 - a))]
            if sim in MOTO and MOTO[sim] <= a <= MOTO[sim] + 0x23:
                bs = [0] * len(bs)
            rec = [len(bs), a >> 8 & 255, a & 255, 0] + bs
            lines.append(":" + "".join("%02X" % b for b in rec) + "%02X" % (-sum(rec) & 255))
        lines.append(":00000001FF")
        res = ({"cpuimg.ihx": "\n".join(lines) + "\n"}, ['load "cpuimg.ihx"'])
    else:
        # only around the starting point
        n = 1024
        a0 = max(lo, min(sc["pc"] - 256, hi + 1 - n))
        cmds = []
        for a in range(a0, min(hi + 1, a0 + n), 32):
            cmds.append("set mem %s 0x%x %s" % (sp, a, " ".join("0x%x" % (cell() & m) for _ in range(32))))
        res = ({}, cmds)
    _img.clear()
    _img[k] = res
    return res


# ---------------------------------------------------------------- snapshots
_info = {}
_wide = {}


def spaces(i):
    """[(kind, name, lo, hi)], [hardware (category, id)] of a CPU"""
    if i not in _info:
        sim, typ = FLEET[i]
        r = S.run(sim, "info memory\nconf\nquit\n", args=["-t", typ], timeout=20)
        sp, hw, mode = [], [], None
        for l in r.out.split("\n"):
            if l.startswith("Memory chips"):
                mode = "c"
            elif l.startswith("Address spaces"):
                mode = "s"
            elif l.startswith("Address dec"):
                mode = None
            m = re.match(r"\s+0x([0-9a-f]+)-0x([0-9a-f]+)\s+(\d+)\s+(\S+) \((\d+),", l)
            if m and mode:
                lo, hi = int(m[1], 16), int(m[2], 16)
                sp.append((mode, m[4], lo, min(hi, lo + 0x1ffff)))
                if int(m[5]) > 8 and mode == "s" and m[4] != "variables":
                    _wide.setdefault(i, set()).add(m[4])
            m = re.match(r"\s+(?:on|off) (\S+)\[(\d+)\]\s*$", l)
            if m:
                hw.append((m[1], int(m[2])))
        _info[i] = (sp, hw)
        _wide.setdefault(i, set())
    return _info[i]


def snapshot(i, s, only=None):
    """adds the commands that print the whole state; returns (block index, files)"""
    sim, typ = FLEET[i]
    sp, hw = spaces(i)
    b = s("state", "info registers", "history list 12", "info breakpoints", "conf", "info memory")
    files = []
    # (address spaces first: reading through the hardware brings the registers up to date)
    for k, (kind, name, lo, hi) in sorted(enumerate(sp), key=lambda x: (x[1][0] == "c", x[0])):
        if kind == "c" and name in ("rom_chip", "nas_chip") and hi - lo > 0xffff:
            hi = lo + 0xffff
        f = "snap%d" % k
        # (/b writes the low bytes only)
        s.lines.append("dump %s %s 0x%x 0x%x >%s" % ("/h" if name in _wide[i] else "/b", name, lo, hi, f))
        files.append((f, name))
    for c, n in hw:
        if c not in ("vcd", "simif"):
            s.lines.append('info hardware %s[%d]' % (c, n))
    e = s("info variables")
    return (b, e, files)


# (ccyc counts turns of the command loop)
RT = re.compile(r"^(Runtime:.*|Host usage:.*|Simulated .*|ccyc  = .*)$", re.M)
REASON = re.compile(r"^sim_reason .*$", re.M)


def state_of(r, snap, reason=True):
    b, e, files = snap
    txt = "\n".join("\n".join(x) for x in r.blocks[b:e + 1])
    txt = RT.sub("", txt)
    if not reason:
        txt = REASON.sub("", txt)
    st = {"text": txt}
    for f, name in files:
        st[name] = r.files.get(f)
    return st


PIA = re.compile(r"^.*(?:PIA|pia|CIA|cia|ora=|DDR|CR[AB]|CA[12]|CB[12]|IR[AB]|OR[AB]).*$", re.M)


def _masked(st, sim):
    base, out = MOTO[sim], {}
    for k, v in st.items():
        if k == "text":
            v = PIA.sub("", v)
        elif k in ("rom", "rom_chip") and v:
            v = v[:base] + b"\0" * 0x24 + v[base + 0x24:]
        elif v and len(v) == 32:
            v = None  # (configuration cells)
        out[k] = v
    return out


LAP = re.compile(r"^.*\b(?:LAP\w*|LBP?|LWP)\b.*$", re.M)


def _nommu(st):
    out = dict(st)
    out["text"] = LAP.sub("", st["text"])
    for k in ("rom", "rom_chip"):
        if st.get(k):
            out[k] = st[k][:0x78] + b"\0" * 8 + st[k][0x80:]
    return out


def diff(a, b, cpu=None):
    """what is different between two states"""
    if cpu is not None and FLEET[cpu][1] == "9S08" and a != b and _nommu(a) == _nommu(b):
        return ""
    if cpu is not None and FLEET[cpu][0] in MOTO and a != b:
        ma, mb = _masked(a, FLEET[cpu][0]), _masked(b, FLEET[cpu][0])
        if ma == mb:
            return ""
    out = []
    for k in a:
        if a[k] != b.get(k):
            if k == "text":
                la, lb = a[k].split("\n"), b[k].split("\n")
                ds = [(x, y) for x, y in zip(la, lb) if x != y]
                if not ds:
                    ds = [("%d lines" % len(la), "%d lines" % len(lb))]
                out.append("printed state: %s" % "; ".join("%r / %r" % p for p in ds[:4]))
            elif a[k] is None or b.get(k) is None:
                out.append("%s: missing dump" % k)
            else:
                n = min(len(a[k]), len(b[k]))
                ad = [j for j in range(n) if a[k][j] != b[k][j]]
                out.append("%s: %d bytes of the dump differ, first at offset 0x%x (%02x / %02x)" % (
                    k, len(ad), ad[0] if ad else n, a[k][ad[0]] if ad else 0, b[k][ad[0]] if ad else 0))
    return "; ".join(out)


STOP = re.compile(r"Stop at 0x([0-9a-f]+): \((\d+)\)")


def stop_of(block):
    m = None
    for x in STOP.finditer("\n".join(block)):
        m = x
    return (int(m[2]), int(m[1], 16)) if m else None


def run_scene(sc, cmds, groups=None, tail=(), env=None):
    """one process: image, pc, the command groups (one block each), snapshot"""
    sim, typ = FLEET[sc["cpu"]]
    s = S.Script()
    files, pre = image(sc)
    s(*(pre + list(sc.get("pre", [])) + ["pc 0x%x" % sc["pc"]]))
    bs = [s(*(g if isinstance(g, (list, tuple)) else [g])) for g in cmds]
    snap = snapshot(sc["cpu"], s)
    s.lines.extend(tail)
    s.lines.append("quit")
    r = s.run(sim, args=["-t", typ], files=files, seed=sc["R"], want=[f for f, _ in snap[2]], timeout=60, env=env)
    return r, bs, snap

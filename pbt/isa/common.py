"""Instruction-set conformance: single instructions on random machine states, against
a reference model written from the documentation of the CPU.

A case is a list of steps.  Each step puts an instruction at some address, loads some
registers, executes one instruction in the simulator and in the model, and compares
every register, the PC and the memory cells the model wrote (with their neighbours).
Registers and memory that a step does not set keep the values left by earlier steps.
At the end of a case the whole memory is compared.
"""
import random
import re
from ..engine import Check, Outcome
from .. import sim as S


TICKS = re.compile(r"Stop at 0x[0-9a-f]+: \(109\) stepped (\d+) ticks")


class Skip(Exception):
    """the instruction's effect on this state is not documented (or touches a
    peripheral): the step is not executed"""


def hexfile(mem, rec=32, ranges=None):
    """Intel HEX text of a memory image that starts at 0"""
    out = []
    ext = 0
    mem = bytes(mem)
    for lo, hi in ranges or [(0, len(mem) - 1)]:
        for a in range(lo, hi + 1, rec):
            if (a >> 16) != ext:
                ext = a >> 16
                r = bytes([2, 0, 0, 4, ext >> 8, ext & 255])
                out.append(":%s%02X" % (r.hex().upper(), -sum(r) & 255))
            n = min(rec, hi + 1 - a)
            r = bytes((n, (a >> 8) & 255, a & 255, 0)) + mem[a:a + n]
            out.append(":%s%02X" % (r.hex(), -sum(r) & 255))
    out.append(":00000001FF")
    return "\n".join(out) + "\n"


class Space:
    """a memory space of the model, with a log of what an instruction wrote"""

    def __init__(self, name, data):
        self.name = name
        self.m = data
        self.log = []

    def rd(self, a):
        return self.m[a]

    def wr(self, a, v):
        self.log.append((a, self.m[a]))
        self.m[a] = v

    def undo(self):
        for a, v in reversed(self.log):
            self.m[a] = v
        self.log.clear()


class Reg:
    def __init__(self, name, bits=8, var=None, set=True, undef=0):
        self.name = name
        self.bits = bits
        self.var = var or name
        self.settable = set
        self.mask = (1 << bits) - 1


class Machine:
    """the state an ISA model works on: registers as attributes in r{}, spaces in s{}"""

    def __init__(self, spaces):
        self.r = {}
        self.s = spaces
        self.loose = {}      # register -> mask of bits with undefined values


class ISACheck(Check):
    sim = None
    args = []
    variants = []           # (more arguments, anything the model wants): CPU types
    v = 0
    regs = []               # Reg list; "PC" is implied and handled as a register
    pcbits = 16
    code = "rom"            # space with the instructions
    spaces = {"rom": 65536}  # space -> size (8-bit cells unless cellbits says otherwise)
    cellbits = {}
    loaded = ["rom"]        # spaces filled with random contents through a hex file
    filled = []             # spaces filled cell by cell
    prologue = []
    unit_name = "instructions"
    n_quick = 1500
    n_thorough = 30000
    steps_max = 200
    rule = ("a case is 1..200 single-instruction steps on random/edge register and memory "
            "states; non-trivial when at least one executed step changed a register other than "
            "PC or memory")

    def __init__(self):
        self.sims = [self.sim]

    # -- to be supplied by the ISA
    def gen_step(self, d, i):
        """returns {"pc":, "set": {}, "code": [..], "poke": [[space, addr, [bytes]]..]}"""
        raise NotImplementedError

    def execute(self, m):
        """executes one instruction at m.r['PC']; returns the mnemonic"""
        raise NotImplementedError

    def pre(self, m):
        pass

    # -- shared
    def gen(self, d):
        # the first bytes decide the memory contents
        n = d.int(1, self.steps_max)
        ms = d.bits(16)
        case = {"mem": ms}
        if self.variants:
            case["v"] = self.v = d.below(len(self.variants))
        case["steps"] = [self.relate(d, self.gen_step(d, i)) for i in range(n)]
        return case

    # registers that stand in a relation to each other: comparisons and divisions
    # have corners at equal operands, which independent values rarely meet
    NORELATE = ("CC", "P", "PSW", "F", "SR", "SP", "SPL", "SPH", "S", "PC", "SREG", "CCR", "I", "R")

    def relate(self, d, st):
        if not d.bool(0.12):
            return st
        sets = st.get("set") or {}
        bits = {g.name: g.bits for g in self.regs}
        names = [g.name for g in self.regs if g.name in sets and g.name not in self.NORELATE]
        code = st.get("code")
        if not names:
            return st
        src = d.choice(names)
        if code and len(code) > 1 and max(code) < 256 and d.bool():
            code = list(code)
            code[-1 - d.below(min(2, len(code) - 1))] = (sets[src] + d.choice([0, 0, 0, 1, -1])) & 0xff
            st["code"] = code
            return st
        dst = [n for n in names if n != src and bits[n] == bits[src]]
        if dst:
            sets[d.choice(dst)] = (sets[src] + d.choice([0, 0, 0, 1, -1])) & ((1 << bits[src]) - 1)
        return st

    def image(self, name, ms):
        r = random.Random("%s:%d" % (name, ms))
        n = self.spaces[name]
        b = self.cellbits.get(name, 8)
        if b == 8:
            if ms == 0:
                return bytearray(n)
            return bytearray(r.randbytes(n))
        if ms == 0:
            return [0] * n
        return [r.getrandbits(b) for _ in range(n)]

    def load_lines(self, name, img):
        """commands that put img into space `name`"""
        out = []
        for a in range(0, len(img), 128):
            out.append("set mem %s %d %s" % (name, a, " ".join(str(x) for x in img[a:a + 128])))
        return out

    def set_cmd(self, space, a, vals):
        return "expr /n " + ";expr /n ".join("%s[%d]=%d" % (space, a + i, v) for i, v in enumerate(vals))

    def fmt_pc(self, pc):
        return "pc %d" % pc

    def model_init(self, r):
        """completes the register file read after the prologue"""

    def plan(self, case):
        """runs the model; yields the steps to be executed with what is expected"""

    def compare_mask(self, name):
        return -1

    def fixed_spaces(self):
        return {}

    def memcheck_ranges(self, name):
        """ranges compared at the end of a case"""
        return [(0, self.spaces[name] - 1)]

    def init_regs(self, case):
        """every register gets a defined value first"""
        r = random.Random("regs:%d" % case["mem"])
        return {g.name: (r.getrandbits(g.bits) if case["mem"] else 0) for g in self.regs if g.settable}

    def norm(self, name, v):
        return v

    def run(self, case):
        o = Outcome()
        ms = case["mem"]
        args = self.args
        if self.variants:
            self.v = case["v"]
            args = self.args + self.variants[self.v][0]
        imgs = {n: self.image(n, ms) for n in self.spaces}
        m = Machine({n: Space(n, imgs[n]) for n in self.spaces})
        files = {}
        sc = S.Script()
        pre = list(self.prologue)
        for n in self.loaded:
            files["m_%s.hex" % n] = hexfile(imgs[n], ranges=self.memcheck_ranges(n))
            pre.append('load "m_%s.hex%s"' % (n, "" if n == "rom" else "@" + n))
        for n in self.filled:
            pre += self.load_lines(n, imgs[n])
        init = self.init_regs(case)
        for k, v in init.items():
            m.r[k] = v & self.regmask(k)
        for g in self.regs:
            if g.settable:
                pre.append("expr /n %s=%d" % (g.var, m.r[g.name]))
        sc(*pre)
        self.model_init(m)
        allregs = [g for g in self.regs] + [Reg("PC", self.pcbits)]
        readback = ";".join("expr %s" % g.var for g in allregs)
        plan = []
        for st in case["steps"]:
            saved = dict(m.r)
            m.loose = {}
            for k, v in st.get("set", {}).items():
                m.r[k] = v & self.regmask(k)
            for sp, a, vals in st.get("poke", []):
                for j, v in enumerate(vals):
                    m.s[sp].wr((a + j) % len(m.s[sp].m), v)
            m.r["PC"] = st["pc"]
            cs = m.s[self.code]
            for j, v in enumerate(st["code"]):
                cs.wr((st["pc"] + j) % len(cs.m), v)
            marks = {n: len(s.log) for n, s in m.s.items()}
            self.pre(m)
            before = dict(m.r)
            m.ticks = None
            m.says = None       # a line the step has to print
            m.start = st["pc"]
            m.setnow = st.get("set", {})
            try:
                mnem = self.execute(m)
            except Skip:
                for s in m.s.values():
                    s.undo()
                m.r = saved
                o.label("skipped")
                continue
            for k in m.r:
                m.r[k] &= self.regmask(k)
            cmds = []
            for sp, a, vals in st.get("poke", []):
                cmds.append(self.poke_cmd(sp, a, vals))
            cmds.append(self.poke_cmd(self.code, st["pc"], st["code"]))
            if st.get("set"):
                cmds.append(";".join("expr /n %s=%d" % (self.regvar(k), before[k])
                                     for k in st["set"]))
            cmds.append(self.fmt_pc(st["pc"]))
            cmds.append("step")
            b0 = sc(*cmds)
            rb = [readback]
            chk = []
            for n, s in m.s.items():
                addrs = []
                for a, old in s.log[marks[n]:]:
                    for x in (a, a - 1, a + 1):
                        x %= len(s.m)
                        if x not in addrs and self.readable(n, x):
                            addrs.append(x)
                for x in addrs[:24]:
                    rb.append("expr %s[%d]" % (n, x))
                    chk.append((n, x, s.m[x]))
                if len(s.log) > marks[n]:
                    pass
            b1 = sc(*rb)
            changed = any(before[k] != m.r[k] for k in before if k != "PC") or \
                any(len(s.log) > marks[n] for n, s in m.s.items())
            loose = dict(m.loose)
            expect = dict(m.r)
            if loose:
                # values the documentation leaves open: continue from defined ones
                fix = []
                for k, ml in loose.items():
                    m.r[k] = m.r[k] & ~ml
                    fix.append("expr /n %s=%d" % (self.regvar(k), m.r[k]))
                sc(*fix)
            for s in m.s.values():
                s.log.clear()
            plan.append((st, mnem, before, expect, loose, b0, (m.ticks, m.says), b1, chk, changed))
            o.label(mnem.split(" ")[0])
        dumps = []
        for n in self.spaces:
            if n in self.loaded:
                for k, (lo, hi) in enumerate(self.memcheck_ranges(n)):
                    fn = "d_%s_%d.bin" % (n, k)
                    sc("dump /b %s %d %d >%s" % (n, lo, hi, fn))
                    dumps.append((n, lo, hi, fn))
        r = sc.run(self.sim, args=args, files=files, want=[x[3] for x in dumps])
        o.units = len(plan)
        for st, mnem, before, expect, loose, b0, (ticks, says), b1, chk, changed in plan:
            if changed:
                o.nontrivial = True
            if b1 >= len(r.blocks):
                break
            bl = r.blocks[b1]
            try:
                vals = [int(x) for x in bl if x.strip() != ""]
            except ValueError:
                vals = []
            desc = "%s code %s at %#x, before: %s" % (
                mnem, " ".join("%02x" % x for x in st["code"]), st["pc"],
                " ".join("%s=%x" % kv for kv in before.items() if kv[0] != "PC"))
            if len(vals) != len(allregs) + len(chk):
                o.fail("output/%s" % mnem, "unreadable register values %r after %s" % (bl[:6], desc))
                break
            bad = []
            for g, v in zip(allregs, vals):
                v = self.norm(g.name, v & g.mask)
                e = expect[g.name]
                mk = g.mask & ~loose.get(g.name, 0)
                if (v ^ e) & mk:
                    bad.append((g.name, "%s=%x, expected %x" % (g.name, v & mk, e & mk)))
            for (n, x, e), v in zip(chk, vals[len(allregs):]):
                cm = (1 << self.cellbits.get(n, 8)) - 1
                if (v & cm) != e:
                    bad.append((n, "%s[%#x]=%x, expected %x" % (n, x, v & cm, e)))
            if ticks is not None:
                t = [int(g.group(1)) for g in map(TICKS.match, r.blocks[b0]) if g]
                # (stack errors stop in another way)
                if t != [ticks] and not any("(108)" in x for x in r.blocks[b0]):
                    bad.append(("ticks", "clock cycles %s, expected %d (%s)" % (
                        t, ticks, " / ".join(x.strip() for x in r.blocks[b0][:4]))))
            if says is not None and not any(x.strip() == says for x in r.blocks[b0]):
                bad.append(("output", "no line %r (%s)" % (
                    says, " / ".join(x.strip() for x in r.blocks[b0][:4]))))
            if bad:
                o.fail("%s/%s" % (mnem.replace(" ", "_"), bad[0][0]),
                       "%s: %s" % (desc, "; ".join(b[1] for b in bad)))
                break
        if not o.fails and S.health(r, o, self.sim):
            for n, lo, hi, fn in dumps:
                got = r.files[fn]
                exp = bytes(m.s[n].m[lo:hi + 1])
                if got != exp:
                    if got is None or len(got) != len(exp):
                        o.fail("dump/%s" % n, "dump of %s has %s bytes" % (n, None if got is None else len(got)))
                    else:
                        k = next(i for i in range(len(exp)) if got[i] != exp[i])
                        o.fail("stray/%s" % n, "after %d instructions %s[%#x] is %02x, expected %02x" % (
                            len(plan), n, lo + k, got[k], exp[k]))
        return o

    def readable(self, n, a):
        return True

    def poke_cmd(self, sp, a, vals):
        n = self.spaces[sp]
        return ";".join("expr /n %s[%d]=%d" % (sp, (a + i) % n, v) for i, v in enumerate(vals))

    def regmask(self, k):
        if not hasattr(self, "_rm"):
            self._rm = {g.name: g.mask for g in self.regs}
            self._rm["PC"] = (1 << self.pcbits) - 1
        return self._rm.get(k, -1)

    def regvar(self, k):
        if not hasattr(self, "_rv"):
            self._rv = {g.name: g.var for g in self.regs}
        return self._rv[k]

    def sample(self, case):
        st = case["steps"][:3]
        return {"mem": case["mem"], "nsteps": len(case["steps"]), "first_steps": st}

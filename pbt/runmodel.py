"""Model of run control (breakpoints, stepping, history) over the generated programs of prog.py."""
import re
from . import sim as S
from .prog import Prog, gen_prog

BRK, EVT, STEP, SELF = 104, 112, 109, 113
STOP = re.compile(r"^Stop at 0x([0-9a-f]+): \((\d+)\)")
FIN = re.compile(r"^F 0x([0-9a-f]+)$")
EV = re.compile(r"^Event `(\w+)' at (\w+)\[0x([0-9a-f]+)\]")


def accesses(kind, arg):
    """data accesses of an instruction: (rd|wr, space, address, value)"""
    if kind == "acc":
        return [tuple(x) if len(x) == 4 else tuple(x) + (None,) for x in arg]
    if kind == "rd":
        return [("rd", arg[0], arg[1], None)]
    if kind == "wr":
        return [("wr", arg[0], arg[1], arg[2])]
    return []


class BP:
    def __init__(self, nr, kind, addr, perm, hit, cond=None, sp=None):
        self.nr, self.kind, self.addr, self.perm, self.hit = nr, kind, addr, perm, hit
        self.cnt = hit
        self.cond = cond
        self.sp = sp
        self.cmd = None


class Model:
    def __init__(self, P, trace):
        self.P = P
        self.trace = trace
        self.pos = 0
        self.mem = {(s, a): 0 for s, a in P.p["cells"]}
        self.bps = []
        self.nr = 0
        self.disp = []
        self.dispnr = 0
        self.hist = []
        self.ninst = 0
        self.cmds_run = []
        # cells accessed together by one instruction
        self.together = set()
        for i in P.ins:
            l = accesses(i.kind, i.arg)
            for x in l:
                for y in l:
                    self.together.add((x[1], x[2], y[1], y[2]))

    @property
    def pc(self):
        return self.trace[self.pos][0]

    def new_nr(self):
        if self.nr == 0 or not self.bps:
            self.nr = 1
        else:
            self.nr += 1
        return self.nr

    def fbrk(self, addr):
        for b in self.bps:
            if b.kind == "f" and b.addr == addr:
                return b

    def true(self, b):
        if b.cond is None:
            return True
        return self.mem[(b.cond[0], b.cond[1])] == b.cond[2]

    def hit(self, b):
        b.cnt -= 1
        if b.cnt <= 0:
            b.cnt = b.hit
            return self.true(b)
        return False

    def go(self, n):
        """n instructions (0: unlimited); returns (reason, bps that stopped it, executed)"""
        done = 0
        self.cmds_run = []
        while True:
            a, kind, arg, depth = self.trace[self.pos]
            if done > 0:
                b = self.fbrk(a)
                if b and self.hit(b):
                    if b.perm == "del":
                        self.bps.remove(b)
                    elif b.cmd:
                        self.cmds_run.append(b.cmd)
                    return BRK, [b], done
            # executed
            self.ninst += 1
            if self.hist and self.hist[-1][0] == a:
                self.hist[-1][1] += 1
            else:
                self.hist.append([a, 1])
                if len(self.hist) > 10000:
                    self.hist.pop(0)
            done += 1
            evs = []
            for k, sp, ca, v in accesses(kind, arg):
                # the condition of a write event sees the cell as it was or as it becomes:
                # such breakpoints are not generated with conditions on cells of the same instruction
                for b in self.bps:
                    if b.kind == k[0] and b.sp == sp and b.addr == ca:
                        if self.hit(b):
                            evs.append(b)
                if k == "wr":
                    if v == ["inc"]:
                        v = (self.mem[(sp, ca)] + 1) & 255
                    elif isinstance(v, list):
                        v = self.mem[(v[1], v[2])]
                    self.mem[(sp, ca)] = v
            if kind == "halt":
                return SELF, [], done
            self.pos += 1
            if evs:
                for b in evs:
                    if b.cmd:
                        self.cmds_run.append(b.cmd)
                for b in evs:
                    if b.perm == "del":
                        self.bps.remove(b)
                return EVT, evs, done
            if n and done >= n:
                return STEP, [], done


class Session:
    """Generated list of operations -> script + expectations"""

    def __init__(self, P, trace, o):
        self.P = P
        self.m = Model(P, trace)
        self.sc = S.Script()
        self.exp = []          # functions called with the blocks
        self.o = o
        self.sc(*P.load())
        self.sc("history clear")
        if self.P.cpu.sim == "m68hc08":
            pass

    def want(self, blk, what, f):
        self.exp.append((blk, what, f))

    # -- stop expectations
    def expect_stop(self, blk, what, start, reason, evs, started):
        m = self.m
        pc = m.pc
        cmds = list(m.cmds_run)
        disp = [(n, f, key, m.mem[key]) for n, f, key in m.disp]
        simsteps = None

        def f(lines, o):
            st = [STOP.match(l) for l in lines]
            st = [x for x in st if x]
            if started is not None:
                s = [l for l in lines if l.startswith("Simulation started, PC=")]
                if s != ["Simulation started, PC=0x%06x" % started]:
                    o.fail("started", "%s: started with %r, expected PC 0x%x" % (what, s, started))
            if len(st) != 1:
                o.fail("nostop", "%s: %d stops reported, expected one" % (what, len(st)))
                return
            got = (int(st[0].group(1), 16), int(st[0].group(2)))
            if got[0] != pc or got[1] != reason:
                o.fail("stop", "%s: stopped at 0x%x (%d), expected 0x%x (%d)" % (
                    what, got[0], got[1], pc, reason))
                return
            fin = [FIN.match(l) for l in lines]
            fin = [int(x.group(1), 16) for x in fin if x]
            if fin != [pc]:
                o.fail("final", "%s: final PC line %r, expected 0x%x" % (what, fin, pc))
            ev = sorted((x.group(1), x.group(2), int(x.group(3), 16)) for x in map(EV.match, lines) if x)
            ee = sorted(({"r": "read", "w": "write"}[b.kind], b.sp, b.addr) for b in evs if b.kind != "f")
            if ev != ee:
                o.fail("events", "%s: reported events %r, expected %r" % (what, ev, ee))
            c = [l for l in lines if l.startswith("CMD")]
            if sorted(c) != sorted(cmds):
                o.fail("commands", "%s: breakpoint commands printed %r, expected %r" % (what, c, cmds))
            d = [l for l in lines if re.match(r"^\d+:.*=", l)]
            ed = []
            if reason in (BRK, EVT):
                for n, fm, key, v in disp:
                    ed.append("%d:%s %s[%d] = %s" % (n, "/x" if fm else "", key[0], key[1], "%x" % v if fm else "%d" % v))
            if d != ed:
                o.fail("display", "%s: displayed %r, expected %r" % (what, d, ed))
        self.want(blk, what, f)

    def check_state(self):
        m = self.m
        pc = m.pc
        mem = dict(m.mem)
        b = self.sc("expr PC", *["expr %s[%d]" % k for k in mem])

        def f(lines, o):
            try:
                v = [int(x) for x in lines if x]
            except ValueError:
                o.fail("state", "unexpected output %r" % lines)
                return
            e = [pc] + list(mem.values())
            if v != e:
                o.fail("state", "PC and data are %r, expected %r" % (v, e))
        self.want(b, "state", f)

    def info_b(self):
        exp = []
        for k in ("f", "e"):
            for b in sorted(self.m.bps, key=lambda b: b.nr):
                if (b.kind == "f") == (k == "f"):
                    exp.append((b.nr, "fetch" if k == "f" else "event", b.perm, b.hit, b.cnt, b.addr,
                                {"r": "read", "w": "write"}.get(b.kind)))
        conds = sorted("%s[%d]==%d" % b.cond for b in self.m.bps if b.cond)
        cmds = sorted(b.cmd for b in self.m.bps if b.cmd)
        blk = self.sc("info breakpoints")

        def f(lines, o):
            got = []
            gc, gm = [], []
            for l in lines:
                x = re.match(r"^(\d+)\s+(fetch|event)\s+(keep|del)\s+(-?\d+)\s+(-?\d+)\s+0x([0-9a-f]+)\s+(\S+)?", l)
                if x:
                    got.append((int(x.group(1)), x.group(2), x.group(3), int(x.group(4)), int(x.group(5)),
                                int(x.group(6), 16), x.group(7) if x.group(2) == "event" else None))
                x = re.search(r'cond="([^"]*)"', l)
                if x:
                    gc.append(x.group(1))
                x = re.search(r'cmd="echo ([^"]*)"', l)
                if x:
                    gm.append(x.group(1))
            if sorted(map(str, got)) != sorted(map(str, exp)):
                o.fail("list", "info breakpoints shows %r, expected %r" % (got, exp))
            elif sorted(gc) != conds or sorted(gm) != cmds:
                o.fail("list", "info breakpoints shows %r %r, expected %r %r" % (gc, gm, conds, cmds))
        self.want(blk, "info b", f)

    def show_hist(self, nr=None):
        h = [list(x) for x in self.m.hist]
        n = self.m.ninst
        blk = self.sc("history" + ("" if nr is None else " list %d" % nr))
        h = h[-(10 if nr is None else nr):]

        def f(lines, o):
            got = []
            for l in lines:
                x = re.match(r"^0x([0-9a-f]+) .*?(?:\((\d+) times\))?\s*$", l)
                if x:
                    got.append([int(x.group(1), 16), int(x.group(2) or 1)])
            if got != h:
                k = 0
                while k < len(got) and k < len(h) and got[k] == h[k]:
                    k += 1
                o.fail("history", "history %s lists %d entries, expected %d; from entry %d: %s, expected %s" % (
                    "" if nr is None else nr, len(got), len(h), k, ["%x*%d" % tuple(x) for x in got[k:k + 4]],
                    ["%x*%d" % tuple(x) for x in h[k:k + 4]]))
        self.want(blk, "history", f)

    def hist_info(self):
        used = len(self.m.hist)
        ins = sum(x[1] for x in self.m.hist)
        blk = self.sc("history info")

        def f(lines, o):
            g = {}
            for l in lines:
                x = re.match(r"^(\w+):\s*(\d+)", l)
                if x:
                    g[x.group(1)] = int(x.group(2))
            e = dict(len=10000, used=used, insts=ins)
            if g != e:
                o.fail("histinfo", "history info shows %r, expected %r" % (g, e))
        self.want(blk, "history info", f)

    # -- one operation; returns a label
    def op(self, op):
        m = self.m
        k = op[0]
        if k == "brk":          # addr-index, perm, hit, cond
            _, addr, perm, hit, cond, form = op
            cmd = "break" if perm == "keep" else "tbreak"
            line = "%s %s" % (cmd, addr if form != "hex" else hex(addr))
            if hit != 1:
                line += " %d" % hit
            if cond:
                line += ' if "%s[%d]==%d"' % tuple(cond)
            blk = self.sc(line)
            old = m.fbrk(addr)
            if old:
                def f(lines, o):
                    if not any(l.startswith("Breakpoint at 0x%06x is already set" % addr) for l in lines):
                        o.fail("dup", "second breakpoint at 0x%x: %r" % (addr, lines[:2]))
                self.want(blk, line, f)
                return
            b = BP(m.new_nr(), "f", addr, perm, hit, tuple(cond) if cond else None)
            m.bps.append(b)

            def f(lines, o):
                if not any(l.startswith("Breakpoint %d at 0x%06x " % (b.nr, addr)) for l in lines):
                    o.fail("made", "%s: answered %r, expected breakpoint %d" % (line, lines[:2], b.nr))
            self.want(blk, line, f)
        elif k == "ev":
            _, rw, sp, addr, perm, hit, cond = op
            if cond and (cond[0] == sp and cond[1] == addr or (sp, addr, cond[0], cond[1]) in m.together):
                cond = None
            line = "%s %s %s %d" % ("break" if perm == "keep" else "tbreak", sp, rw, addr)
            if hit != 1:
                line += " %d" % hit
            if cond:
                line += ' if "%s[%d]==%d"' % tuple(cond)
            self.sc(line)
            m.bps.append(BP(m.new_nr(), rw, addr, perm, hit, tuple(cond) if cond else None, sp))
        elif k == "clear":
            addr = op[1]
            blk = self.sc("clear %d" % addr)
            b = m.fbrk(addr)
            if b:
                m.bps.remove(b)

            def f(lines, o):
                no = any(l.startswith("No breakpoint at") for l in lines)
                if no != (b is None):
                    o.fail("clear", "clear 0x%x: answered %r" % (addr, lines[:2]))
            self.want(blk, "clear", f)
        elif k == "delete":
            nr = op[1]
            if nr is None:
                self.sc("delete")
                m.bps = []
            else:
                blk = self.sc("delete %d" % nr)
                b = [x for x in m.bps if x.nr == nr]
                m.bps = [x for x in m.bps if x.nr != nr]

                def f(lines, o):
                    er = any(l.startswith("Error") for l in lines)
                    if er != (not b):
                        o.fail("delete", "delete %d: answered %r" % (nr, lines[:2]))
                self.want(blk, "delete", f)
        elif k == "cmd":
            nr, text = op[1], op[2]
            blk = self.sc("commands %d %s" % (nr, ("echo " + text) if text else ""))
            for b in m.bps:
                if b.nr == nr:
                    b.cmd = text or None
        elif k == "disp":
            key = (op[1], op[2])
            self.sc("display %s%s[%d]" % ("/x " if op[3] else "", key[0], key[1]))
            m.dispnr = m.dispnr + 1
            m.disp.append((m.dispnr, op[3], key))
        elif k == "undisp":
            if op[1] is None:
                self.sc("undisplay")
                m.disp = []
            else:
                self.sc("undisplay %d" % op[1])
                m.disp = [x for x in m.disp if x[0] != op[1]]
        elif k == "step":
            n = op[1]
            blk = self.sc("step" if n == 1 else "step %d" % n)
            r = m.go(n)
            self.expect_stop(blk, "step %d" % n, None, r[0], r[1], None)
            self.check_state()
        elif k == "run":
            st = m.pc
            blk = self.sc(op[1] if len(op) > 1 else "run")
            r = m.go(0)
            self.expect_stop(blk, "run", st, r[0], r[1], st)
            self.check_state()
            return "stop%d" % r[0]
        elif k == "runfrom":
            stop = op[1]
            a = self.P.cpu.base
            m.pos = 0
            if stop is not None and stop == a:
                blk = self.sc("run %d %d" % (a, stop))

                def f(lines, o):
                    if any(STOP.match(l) for l in lines):
                        o.fail("runsame", "run with equal addresses started the simulation")
                self.want(blk, "run same", f)
                return
            blk = self.sc("run %d" % a + ("" if stop is None else " %d" % stop))
            if stop is not None and not m.fbrk(stop):
                m.bps.append(BP(m.new_nr(), "f", stop, "del", 1))
            r = m.go(0)
            self.expect_stop(blk, "run start stop", a, r[0], r[1], a)
            self.check_state()
        elif k == "next":
            a, kind, arg, depth = m.trace[m.pos]
            if kind == "call":
                nx = a + arg[-1]
                b = m.fbrk(nx)
                if b and (b.hit != 1 or b.cond):
                    return
                if not b:
                    m.bps.append(BP(m.new_nr(), "f", nx, "del", 1))
                blk = self.sc("next")
                r = m.go(0)
            else:
                blk = self.sc("next")
                r = m.go(1)
            self.expect_stop(blk, "next", None, r[0], r[1], None)
            self.check_state()
            return "next-call" if kind == "call" else "next"
        elif k == "pc":
            self.sc("pc %d" % self.P.cpu.base)
            m.pos = 0
        elif k == "poke":
            key = (op[1], op[2])
            self.sc("set memory %s %d %d" % (key[0], key[1], op[3]))
            m.mem[key] = op[3]
        elif k == "pokee":
            key = (op[1], op[2])
            self.sc("expr /n %s[%d]=%d" % (key[0], key[1], op[3]))
            m.mem[key] = op[3]
        elif k == "look":
            self.sc("expr %s[%d]" % (op[1], op[2]), "dump /h %s %d %d" % (op[1], op[2], op[2]))
        elif k == "info":
            self.info_b()
        elif k == "hist":
            self.show_hist()
        elif k == "histn":
            self.show_hist(op[1])
        elif k == "histinfo":
            self.hist_info()
        elif k == "histclr":
            self.sc("history clear")
            m.hist = []
        else:
            raise ValueError(k)

    def finish(self, **kw):
        r = self.sc.run(self.P.cpu.sim, args=self.P.cpu.args, **kw)
        o = self.o
        if not S.health(r, o, self.P.cpu.sim):
            return r
        for blk, what, f in self.exp:
            if o.fails:
                break
            f(r.blocks[blk], o)
        return r

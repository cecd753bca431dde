"""Runs a simulator on a command script and splits what it printed."""
import os, re, resource, shutil, signal, subprocess, tempfile
from . import build

MARK = "@@"
BAD = re.compile(r"\*+ bad prefix !!!!\n|Loading from (?:f\.bin|cpuimg\.ihx)\n|(?:65536|8192|4096) words read from cpuimg\.ihx\n")
_dir = None
_pid = None


def workdir():
    global _dir, _pid
    if _dir is None or _pid != os.getpid():
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _dir = tempfile.mkdtemp(prefix="ucv.", dir=base)
        _pid = os.getpid()
    return _dir


def cleanup():
    global _dir
    if _dir and _pid == os.getpid():
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None


class Crash(Exception):
    pass


class Result:
    def __init__(self, rc, out, timeout, err):
        self.rc = rc
        self.out = out
        self.timeout = timeout
        self.err = err
        self.blocks = None
        self.files = {}

    def split(self, n):
        """text printed between marker k and marker k+1, for k in 0..n-2"""
        parts = self.out.split("\n")
        blocks = []
        cur = []
        for ln in parts:
            if ln.startswith(MARK) and ln == "%s%d" % (MARK, len(blocks)):
                blocks.append(cur)
                cur = []
            else:
                cur.append(ln)
        self.tail = cur
        self.blocks = blocks[1:]
        self.complete = len(blocks) == n
        return self.blocks


def _limits(cpu, vm):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if vm:
            resource.setrlimit(resource.RLIMIT_AS, (vm, vm))
        resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(sim, script, args=(), files=None, want=(), timeout=60, variant="opt", stdin=None,
        seed=1, cpu=20, script_mode="c", shim=True, env=None):
    """script: text.  Output files named in `want` are read back."""
    d = workdir()
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    for n, data in (files or {}).items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
    argv = [build.binary(sim, variant), "-b", "-R", str(seed)]
    if script_mode == "c":
        with open(os.path.join(d, "s.cmd"), "wb") as f:
            f.write(script if isinstance(script, bytes) else script.encode("latin-1"))
        argv += ["-c", "s.cmd"]
    argv += list(args)
    xenv = env or {}
    env = dict(PATH=os.environ.get("PATH", "/usr/bin:/bin"), HOME=d, LC_ALL="C",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")
    so = build.shim()
    if variant == "opt" and so and shim:
        env["LD_PRELOAD"] = so
    env.update(xenv)
    of = open(os.path.join(d, "out.txt"), "wb+")
    ef = open(os.path.join(d, "err.txt"), "wb+")
    fin = subprocess.DEVNULL
    if stdin is not None:
        with open(os.path.join(d, "in.txt"), "wb") as f:
            f.write(stdin if isinstance(stdin, bytes) else stdin.encode("latin-1"))
        fin = open(os.path.join(d, "in.txt"), "rb")
    to = False
    vm = (3 << 30) if variant == "opt" else None
    p = subprocess.Popen(argv, cwd=d, stdin=fin, stdout=of, stderr=ef, env=env,
                         preexec_fn=_limits(cpu, vm))
    fired = []

    def onalarm(sig, frame):
        fired.append(1)
        p.kill()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    rc = p.wait()
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)
    to = bool(fired)
    if fin is not subprocess.DEVNULL:
        fin.close()
    of.seek(0)
    ef.seek(0)
    r = Result(rc, of.read().decode("latin-1"), to or rc == -signal.SIGXCPU,
               ef.read(200000).decode("latin-1"))
    of.close()
    ef.close()
    for n in want:
        try:
            with open(os.path.join(d, n), "rb") as f:
                r.files[n] = f.read()
        except OSError:
            r.files[n] = None
    return r


class Script:
    """Commands with a marker after each group."""

    def __init__(self):
        self.lines = ["echo %s0" % MARK]
        self.n = 1

    def __call__(self, *cmds):
        """adds commands; returns the index of the block with their output"""
        self.lines.extend(cmds)
        self.lines.append("echo %s%d" % (MARK, self.n))
        self.n += 1
        return self.n - 2

    def text(self):
        return "\n".join(self.lines) + "\n"

    def run(self, sim, **kw):
        r = run(sim, self.text(), **kw)
        # (messages which come through another buffer)
        r.out = BAD.sub("", r.out)
        r.split(self.n)
        return r


def health(r, o, what=""):
    """records a crash/hang as a failure; True when the run was complete"""
    if r.complete and r.rc == 0:
        return True
    nb = len(r.blocks)
    if r.timeout:
        o.fail("hang", "%s: the simulator did not finish (stopped in block %d)" % (what, nb))
    elif r.rc != 0:
        o.fail("crash", "%s: the simulator ended with %d in block %d: %s" % (
            what, r.rc, nb, r.err[:300]))
    else:
        o.fail("lost", "%s: output ended in block %d" % (what, nb))
    return False

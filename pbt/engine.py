"""A small property-based testing engine.

Every random choice of a case goes through a Source, a sequence of bounded integers
derived from VERIF_SEED; a failing sequence is shrunk (deletion, zeroing, lowering)
and what is left is written out as a replay file.
"""
import hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stop(Exception):
    """The choice sequence grew too long (only while shrinking)."""


class Source:
    """Choice sequence.  With `prefix` the choices are replayed, then all are 0."""

    def __init__(self, rnd=None, prefix=None, limit=200000):
        self.rnd = rnd
        self.prefix = prefix
        self.taken = []
        self.limit = limit

    def _draw(self, n, pick=None):
        """an integer in [0, n]"""
        i = len(self.taken)
        if i >= self.limit:
            raise Stop()
        if self.prefix is not None:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v > n:
                v = n
        else:
            v = pick() if pick else self.rnd.randint(0, n)
        self.taken.append(v)
        return v

    # -- generators; 0 is always the simplest choice
    def int(self, lo, hi):
        return lo + self._draw(hi - lo)

    def below(self, n):
        return self._draw(n - 1)

    def choice(self, seq):
        return seq[self._draw(len(seq) - 1)]

    def bool(self, p=0.5):
        return self._draw(1, (lambda: 1 if self.rnd.random() < p else 0)) == 1

    def weighted(self, pairs):
        """pairs: [(weight, value)...]"""
        tot = sum(w for w, v in pairs)

        def pick():
            x = self.rnd.random() * tot
            for i, (w, v) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._draw(len(pairs) - 1, pick)][1]

    def edge(self, bits):
        """an unsigned number of `bits` bits, biased towards the edges"""
        m = (1 << bits) - 1

        def pick():
            r = self.rnd.random()
            if r < 0.45:
                return self.rnd.randint(0, m)
            if r < 0.65:
                b = self.rnd.randint(0, bits - 1)
                return (1 << b) & m
            if r < 0.8:
                return self.rnd.choice([0, 1, m, m >> 1, (m >> 1) + 1, m - 1, 2])
            if r < 0.9:
                b = self.rnd.randint(1, bits)
                return ((1 << b) - 1) & m
            return self.rnd.randint(0, min(m, 255))
        return self._draw(m, pick)

    def bits(self, n):
        return self._draw((1 << n) - 1)

    def size(self, lo, hi):
        """a size, biased to small"""
        def pick():
            a = self.rnd.random()
            return int((hi - lo + 1) * a * a)
        return lo + self._draw(hi - lo, pick)

    def sample(self, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self._draw(len(seq) - 1)))
        return out

    def bytes(self, n):
        return [self._draw(255) for _ in range(n)]


class Failure:
    def __init__(self, sig, msg):
        self.sig = sig
        self.msg = msg

    def __repr__(self):
        return "[%s] %s" % (self.sig, self.msg)


class Outcome:
    def __init__(self):
        self.fails = []
        self.labels = []
        self.nontrivial = False
        self.units = 0

    def fail(self, sig, msg):
        self.fails.append(Failure(sig, msg))

    def label(self, *ls):
        self.labels.extend(ls)


class Check:
    """Base class of the checks; see pbt/checks."""
    id = None
    sims = []
    variant = "opt"
    level = "exploration"
    rule = ""
    unit_name = "units"
    n_quick = 200
    n_thorough = 2000
    cap_quick = 150.0
    cap_thorough = 1500.0
    assumptions = []

    def directed(self, tier):
        """fixed cases that every run covers"""
        return []

    def gen(self, d):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def setup(self):
        pass

    def cleanup(self):
        from . import sim
        sim.cleanup()

    def sample(self, case):
        return case


def load_known(path=None):
    """known_findings.txt: lines `known: property=<id> sig=<signature> <text>`"""
    known = {}
    path = path or os.path.join(ROOT, "known_findings.txt")
    try:
        f = open(path)
    except OSError:
        return known
    for ln in f:
        ln = ln.strip()
        if not ln.startswith("known:"):
            continue
        w = ln[6:].split(None, 2)
        pid = w[0].split("=", 1)[1]
        sig = w[1].split("=", 1)[1]
        known.setdefault(pid, {})[sig] = w[2] if len(w) > 2 else ""
    return known


def unlisted(check, out):
    return [f for f in out.fails if f.sig not in check.known]


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_case(check, case):
    try:
        return check.run(case)
    except (ValueError, KeyError, IndexError, TypeError, AttributeError):
        # what the simulator printed was not understood: the cases themselves are
        # well formed (every one of them is generated and run on the unchanged tree)
        out = Outcome()
        tb = traceback.format_exc().strip().split("\n")
        out.fail("output", "the output was not understood: " + " | ".join(x.strip() for x in tb[-4:]))
        return out


def gen_case(check, seed, i):
    src = Source(random.Random("%s:%s:%s" % (seed, check.id, i)))
    c = check.gen(src)
    return c, src.taken


def _worker(check, w, nw, total, directed, seed, deadline, best, q, evdir):
    st = dict(evals=0, units=0, labels={}, keys=set(), known={}, samples=[], fail=None, err=None,
              capped=False)
    try:
        for i in range(w, total, nw):
            if i > best.value:
                break
            if time.time() > deadline:
                st["capped"] = True
                break
            if i < len(directed):
                case, taken = directed[i], None
            else:
                case, taken = gen_case(check, seed, i)
            out = run_case(check, case)
            st["evals"] += 1
            st["units"] += out.units
            for l in out.labels:
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if out.nontrivial:
                st["keys"].add(case_key(case))
                if len(st["samples"]) < 1:
                    st["samples"].append(check.sample(case))
            for f in out.fails:
                if f.sig in check.known:
                    st["known"][f.sig] = st["known"].get(f.sig, 0) + 1
            u = unlisted(check, out)
            if u:
                with best.get_lock():
                    if i < best.value:
                        best.value = i
                st["fail"] = (i, case, taken, u[0].sig, u[0].msg)
                break
    except Exception:
        st["err"] = traceback.format_exc()
    finally:
        try:
            check.cleanup()
        except Exception:
            pass
    q.put((w, st))


def shrink(check, taken, case, fail, budget=40.0):
    """Minithesis-style shrinking of a choice sequence; keeps any unlisted failure of
    the same kind (signature up to the first '/')."""
    t_end = time.time() + budget
    kind = fail.sig.split("/")[0]
    best = [list(taken), case, fail]
    seen = set()
    runs = [0]

    def ok(ch):
        t = tuple(ch)
        if t in seen or time.time() > t_end:
            return False
        seen.add(t)
        src = Source(prefix=ch, limit=len(taken) + 64)
        try:
            c = check.gen(src)
            out = run_case(check, c)
        except Stop:
            return False
        except Exception:
            return False
        runs[0] += 1
        u = [f for f in unlisted(check, out) if f.sig.split("/")[0] == kind]
        if u and (len(src.taken), src.taken) <= (len(best[0]), best[0]):
            best[:] = [list(src.taken), c, u[0]]
            return True
        return False

    improved = True
    while improved and time.time() < t_end:
        improved = False
        k = max(1, len(best[0]) // 2)
        while k >= 1 and time.time() < t_end:
            i = len(best[0]) - k
            while i >= 0 and time.time() < t_end:
                if i + k <= len(best[0]):
                    c = best[0][:i] + best[0][i + k:]
                    if ok(c):
                        improved = True
                    elif i > 0 and best[0][i - 1] > 0:
                        c2 = list(c)
                        c2[i - 1] -= 1
                        if ok(c2):
                            improved = True
                i -= k
            k //= 2
        for k in (8, 4, 2):
            i = len(best[0]) - k
            while i >= 0 and time.time() < t_end:
                if any(best[0][i:i + k]):
                    if ok(best[0][:i] + [0] * k + best[0][i + k:]):
                        improved = True
                i -= k
        i = len(best[0]) - 1
        while i >= 0 and time.time() < t_end:
            if i < len(best[0]) and best[0][i] > 0:
                v = best[0][i]
                for nv in (0, v >> 1, v & (v - 1), v - 1):
                    if nv < v and i < len(best[0]) and ok(best[0][:i] + [nv] + best[0][i + 1:]):
                        improved = True
                        break
            i -= 1
    return best[1], best[2], runs[0]


def main(check, argv):
    from . import build, sim
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    only = None
    nover = None
    i = 0
    while i < len(argv):
        if argv[i] == "--replay":
            replay = argv[i + 1]; i += 1
        elif argv[i] == "--tier":
            tier = argv[i + 1]; i += 1
        elif argv[i] == "--seed":
            seed = int(argv[i + 1]); i += 1
        elif argv[i] == "-n":
            nover = int(argv[i + 1]); i += 1
        elif argv[i] == "--case":
            only = int(argv[i + 1]); i += 1
        i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    sims = check.sims_for(tier) if hasattr(check, "sims_for") else check.sims
    try:
        build.build(sims, check.variant)
    except build.BuildError as e:
        print("build error: %s" % e)
        return 2
    check.tier = tier
    check.seed = seed
    check.known = load_known().get(check.id, {})
    check.setup()
    if replay:
        with open(replay) as f:
            r = json.load(f)
        out = run_case(check, r["case"])
        check.cleanup()
        for f in out.fails:
            print("%s%s" % ("(known) " if f.sig in check.known else "", f))
        if unlisted(check, out):
            print("VIOLATION property=%s replay=%s" % (check.id, replay))
            return 1
        print("replay: no violation")
        return 0
    directed = check.directed(tier)
    total = nover if nover is not None else (check.n_quick if tier == "quick" else check.n_thorough)
    total += len(directed)
    if only is not None:
        case = directed[only] if only < len(directed) else gen_case(check, seed, only)[0]
        out = run_case(check, case)
        print(json.dumps(case))
        print(out.labels)
        for f in out.fails:
            print(f)
        check.cleanup()
        return 1 if unlisted(check, out) else 0
    cap = check.cap_quick if tier == "quick" else check.cap_thorough
    nw = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
    nw = max(1, min(nw, total))
    ctx = mp.get_context("fork")
    best = ctx.Value("q", 1 << 60)
    q = ctx.Queue()
    deadline = time.time() + cap
    ps = [ctx.Process(target=_worker, args=(check, w, nw, total, directed, seed, deadline, best, q, None))
          for w in range(nw)]
    for p in ps:
        p.start()
    sts = []
    while len(sts) < nw:
        try:
            sts.append(q.get(timeout=5)[1])
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    err = [s["err"] for s in sts if s["err"]]
    if err or len(sts) < nw:
        print("harness error:\n%s" % (err[0] if err else "a worker died"))
        if not any(s["fail"] for s in sts):
            check.cleanup()
            return 2
    labels, known, keys, samples = {}, {}, set(), []
    evals = units = 0
    for s in sts:
        evals += s["evals"]
        units += s["units"]
        keys |= s["keys"]
        samples += s["samples"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["known"].items():
            known[k] = known.get(k, 0) + v
    fails = sorted((s["fail"] for s in sts if s["fail"]), key=lambda x: x[0])
    rc = 0
    violations = 0
    if fails:
        idx, case, taken, sig, msg = fails[0]
        f = Failure(sig, msg)
        # the failure must repeat: 3 times
        ok = True
        for _ in range(3):
            u = unlisted(check, run_case(check, case))
            if not u:
                ok = False
        if ok:
            print("case %d fails: %s" % (idx, f))
            shr = 0
            if taken is not None:
                case, f, shr = shrink(check, taken, case, f,
                                      float(os.environ.get("VERIF_SHRINK", "40")))
            rdir = os.path.join(ROOT, "replay")
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%s.json" % (check.id, case_key(case)))
            with open(rp, "w") as fo:
                json.dump(dict(property=check.id, signature=f.sig, message=f.msg, case=case,
                               seed=seed, index=idx), fo, indent=1)
            print("after %d shrinking runs: %s" % (shr, f))
            print("VIOLATION property=%s replay=%s" % (check.id, os.path.relpath(rp, ROOT)))
            rc = 1
            violations = 1
        else:
            print("note: case %d failed once and did not repeat: %s" % (idx, f))
    for s, text in sorted(check.known.items()):
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (
            check.id, text, s, " (seen %d times)" % known[s] if s in known else ""))
    samples = samples[:4] or [check.sample(gen_case(check, seed, len(directed))[0])]
    samples = [x if len(json.dumps(x)) < 3000 else json.dumps(x)[:3000] + "..." for x in samples]
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=check.rule,
                            samples=samples, classes=dict(sorted(labels.items())),
                            directed=min(len(directed), evals),
                            time_cap_hit=any(s["capped"] for s in sts)),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2),
              violations=violations)
    if units:
        ev["coverage"][check.unit_name] = units
    if known:
        ev["coverage"]["known_findings_seen"] = known
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", check.id + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s: %s tier, seed %d: %d cases (%d distinct non-trivial), %d %s, %.1fs" % (
        check.id, tier, seed, evals, len(keys), units, check.unit_name, time.time() - t0))
    check.cleanup()
    return rc

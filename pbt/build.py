#!/usr/bin/env python3
"""Builds the simulators from /repo's *current working tree*.

/repo is mirrored by content into /verif/.build/src (so only files whose content
changed get a new mtime), configured out of tree in /verif/.build/<variant>, and
made there with the project's own makefiles.  Nothing in /repo is written.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UCSIM_REPO", "/repo")
BDIR = os.environ.get("UCSIM_BUILD", os.path.join(ROOT, ".build"))

ALL_SIMS = ["avr", "f8", "i8048", "i8085", "m6800", "m6809", "m68hc08", "m68hc11",
            "m68hc12", "mos6502", "oisc", "p1516", "pblaze", "pdk", "rxk", "s51",
            "st7", "stm8", "tlcs", "xa", "z80"]

VARIANTS = {
    "opt": ("gcc", "g++", "-O1 -g0 -w"),
    "san": ("clang", "clang++",
            "-O1 -g1 -w -fsanitize=address,undefined -fno-sanitize=shift,alignment,vptr,function "
            "-fno-sanitize-recover=undefined -fno-omit-frame-pointer"),
}


class BuildError(Exception):
    pass


def exe_name(sim):
    return "ucsim_51" if sim == "s51" else "ucsim_" + sim


def binary(sim, variant="opt"):
    return os.path.join(BDIR, variant, "src/sims", sim + ".src", exe_name(sim))


def _src_files():
    """Relative path -> absolute path of the files that a build depends on."""
    out = {}
    for base, dirs, files in os.walk(REPO):
        rel = os.path.relpath(base, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d in ("src", "docs")]
        dirs[:] = [d for d in dirs if d not in (".git", "_build")]
        in_test = "test" in rel.split(os.sep)
        dirs.sort()
        for f in files:
            if f.endswith((".o", ".a", "~")):
                continue
            r = f if rel == "." else os.path.join(rel, f)
            if (r.startswith("docs/") or in_test) and not f.endswith((".in", ".mk")):
                continue
            p = os.path.join(base, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            if os.path.isfile(p):
                out[r] = p
    return out


def _digest(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def _is_cfg(r):
    b = os.path.basename(r)
    return (b.endswith(".in") or "_in." in b or b in ("configure", ".version")
            or b.endswith(".mk"))


def mirror():
    """Bring BDIR/src in line with REPO; returns (digest, cfg_digest)."""
    src = os.path.join(BDIR, "src")
    os.makedirs(src, exist_ok=True)
    files = _src_files()
    h = hashlib.sha1()
    hc = hashlib.sha1()
    keep = set()
    dirset = {}
    for r in sorted(files):
        d = _digest(files[r])
        h.update(("%s %s\n" % (r, d)).encode())
        if _is_cfg(r):
            hc.update(("%s %s\n" % (r, d)).encode())
        dst = os.path.join(src, r)
        keep.add(r)
        dirset.setdefault(os.path.dirname(r), []).append(r)
        if not (os.path.isfile(dst) and _digest(dst) == d):
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.lexists(dst):
                os.unlink(dst)
            shutil.copyfile(files[r], dst)
            shutil.copymode(files[r], dst)
    for base, dirs, fs in os.walk(src):
        for f in fs:
            r = os.path.relpath(os.path.join(base, f), src)
            if r not in keep:
                os.unlink(os.path.join(base, f))
    names = hashlib.sha1("\n".join(sorted(keep)).encode()).hexdigest()
    return h.hexdigest(), hc.hexdigest(), names


def _run(cmd, cwd, log, env):
    with open(log, "ab") as lf:
        lf.write(("\n$ %s\n" % " ".join(cmd)).encode())
        lf.flush()
        r = subprocess.run(cmd, cwd=cwd, stdout=lf, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, env=env)
    return r.returncode


def _read(p):
    try:
        with open(p) as f:
            return f.read()
    except OSError:
        return ""


def _write(p, s):
    with open(p, "w") as f:
        f.write(s)


def shim():
    """path of the output buffering shim (None when it cannot be built)"""
    so = os.path.join(BDIR, "shim.so")
    return so if os.path.exists(so) else None


def _build_shim():
    srcf = os.path.join(ROOT, "pbt", "shim.c")
    so = os.path.join(BDIR, "shim.so")
    tag = os.path.join(BDIR, "shim.tag")
    d = _digest(srcf)
    if os.path.exists(so) and _read(tag) == d:
        return
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O2", "-o", so + ".tmp", srcf],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if r.returncode == 0:
        os.rename(so + ".tmp", so)
        _write(tag, d)


def build(sims, variant="opt", quiet=True):
    """Make sure the given simulators are built from the current tree."""
    os.makedirs(BDIR, exist_ok=True)
    lockf = open(os.path.join(BDIR, "lock"), "w")
    fcntl.flock(lockf, fcntl.LOCK_EX)
    try:
        t = _build(list(sims), variant)
        _build_shim()
        return t
    finally:
        lockf.close()


def _newest(d):
    m = 0
    for base, dirs, fs in os.walk(d):
        for f in fs:
            try:
                m = max(m, os.lstat(os.path.join(base, f)).st_mtime)
            except OSError:
                pass
    return m


def _build(sims, variant):
    t0 = time.time()
    cc, cxx, flags = VARIANTS[variant]
    # a tree copied from elsewhere with mtimes in the future cannot be trusted to make
    if os.path.isdir(os.path.join(BDIR, "src")) and _newest(BDIR) > time.time() + 1:
        for n in os.listdir(BDIR):
            if n != "lock":
                p = os.path.join(BDIR, n)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    digest, cfgd, names = mirror()
    src = os.path.join(BDIR, "src")
    bd = os.path.join(BDIR, variant)
    os.makedirs(bd, exist_ok=True)
    stamp = os.path.join(bd, ".stamp")
    cfgstamp = os.path.join(bd, ".cfgstamp")
    want = digest + " " + flags
    have = _read(stamp).split("\n")
    if have and have[0] == want and all(s in have[1:] and os.access(binary(s, variant), os.X_OK)
                                        for s in sims):
        return 0.0
    log = os.path.join(bd, "build.log")
    env = {k: v for k, v in os.environ.items()
           if k not in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MFLAGS")}
    env.update(CC=cc, CXX=cxx, LC_ALL="C.UTF-8", ASAN_OPTIONS="detect_leaks=0")
    built = []
    cfgwant = "%s %s %s %s" % (cfgd, names, flags, cxx)
    if _read(cfgstamp) != cfgwant:
        shutil.rmtree(bd)
        os.makedirs(bd)
        rc = _run(["bash", os.path.join(src, "configure"), "CC=" + cc, "CXX=" + cxx,
                   "CFLAGS=" + flags, "CXXFLAGS=" + flags], bd, log, env)
        if rc:
            raise BuildError("configure failed, see " + log)
        _write(cfgstamp, cfgwant)
    elif have and have[0] == want:
        built = have[1:]
    if os.path.exists(stamp):
        os.unlink(stamp)
    if not built:
        for base, dirs, fs in os.walk(os.path.join(bd, "src")):
            for f in fs:
                if f.endswith(".dep"):
                    os.unlink(os.path.join(base, f))
    i48 = os.path.join(bd, "src/sims/i8048.src")
    os.makedirs(i48, exist_ok=True)
    for h in ("genal.h", "decode.h", "gen.h"):
        p = os.path.join(i48, h)
        if not os.path.lexists(p) and os.path.exists(os.path.join(src, "src/sims/i8048.src", h)):
            os.symlink(os.path.join(src, "src/sims/i8048.src", h), p)
    dep = "MAKEDEP=%s -E -MM -MP" % cxx
    j = "-j%d" % max(2, os.cpu_count() or 2)
    for lib in ("utils", "cmd", "sim", "gui", "motorola"):
        pass
    procs = []
    rc = _run(["make", j, "-C", os.path.join(bd, "src"), "libs", dep], bd, log, env)
    if rc:
        raise BuildError("building the libraries failed, see " + log)
    # one make over the wanted simulators, so -j is shared
    mk = os.path.join(bd, "sims.mk")
    _write(mk, "all: %s\n" % " ".join("S_" + s for s in sims) +
           "".join("S_%s:\n\t$(MAKE) -C %s/src/sims/%s.src simulator\n" % (s, bd, s) for s in sims) +
           ".PHONY: all %s\n" % " ".join("S_" + s for s in sims))
    rc = _run(["make", j, "-f", mk, "all", dep], bd, log, env)
    if rc:
        raise BuildError("building %s failed, see %s" % (sims, log))
    for s in sims:
        if not os.access(binary(s, variant), os.X_OK):
            raise BuildError("no binary for " + s)
    _write(stamp, "\n".join([want] + sorted(set(built) | set(sims))))
    return time.time() - t0


if __name__ == "__main__":
    v = "opt"
    a = sys.argv[1:]
    if a and a[0] in VARIANTS:
        v = a.pop(0)
    print("built in %.1fs" % build(a or ALL_SIMS, v))

"""python3 -m pbt.survey <id> [n] [steps]: every distinct failure signature, with one example"""
import sys, os, multiprocessing as mp
from . import engine, build
from .__main__ import load


def work(a):
    pid, seed, w, n = a
    c = load(pid)
    if STEPS:
        c.steps_max = STEPS
    c.known = {}
    c.tier = "quick"; c.seed = seed
    c.setup()
    out = {}
    labels = {}
    for i in range(w, n, 8):
        case, _ = engine.gen_case(c, seed, i)
        o = c.run(case)
        for l in o.labels:
            labels[l] = labels.get(l, 0) + 1
        for f in o.fails:
            k = f.sig
            if k in out:
                out[k][0] += 1
                if len(f.msg) < len(out[k][1]):
                    out[k][1] = f.msg
            else:
                out[k] = [1, f.msg]
    c.cleanup()
    return out, labels


if __name__ == "__main__":
    pid = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 800
    STEPS = int(sys.argv[3]) if len(sys.argv) > 3 and sys.argv[3].isdigit() else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = load(pid)
    build.build(c.sims, c.variant)
    tot = {}
    lab = {}
    with mp.get_context("fork").Pool(8) as p:
        for r, l in p.map(work, [(pid, seed, w, n) for w in range(8)]):
            for k, v in l.items():
                lab[k] = lab.get(k, 0) + v
            for k, v in r.items():
                if k in tot:
                    tot[k][0] += v[0]
                    if len(v[1]) < len(tot[k][1]):
                        tot[k][1] = v[1]
                else:
                    tot[k] = v
    for k in sorted(tot):
        print("%5d %-16s %s" % (tot[k][0], k, tot[k][1][:400]))
    if "-l" in sys.argv:
        print(dict(sorted(lab.items())))
    print(len(tot), "signatures;", len(lab), "labels; skipped", lab.get("skipped", 0), "of", sum(lab.values()))

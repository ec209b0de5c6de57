"""runs one history of harness/stool.cpp and records what it counted and complained about"""
from run import *


def history(tool, mode):
    def f(i, rng, r, d):
        seed = rng.getrandbits(48)
        o = execute([tool, mode, str(seed)], cwd=d, timeout=120)
        text = o.out
        for l in text.splitlines():
            if l.startswith("COUNT "):
                _, n, name = l.split(" ", 2)
                r.count(name, int(n))
            elif l.startswith("FAIL "):
                _, key, what = (l + " ").split(" ", 2)
                r.violation(key, "%s (history %s %d)" % (what.strip(), mode, seed), {"cmd.txt": "stool %s %d\n" % (mode, seed), "out.txt": text[-4000:]})
        r.count("histories")
        r.distinct("%s-%d" % (mode, seed))
        if not text.rstrip().endswith("END"):
            if o.timeout:
                r.violation(mode + "-hang", "the history %s %d does not end" % (mode, seed), {"cmd.txt": "stool %s %d\n" % (mode, seed)})
            else:
                r.violation(mode + "-crash", "the history %s %d ends with %s: %s" % (mode, seed, o.rc, o.err[-300:]), {"cmd.txt": "stool %s %d\n" % (mode, seed), "err.txt": o.err[-4000:]})
        if i == 0:
            r.sample({"mode": mode, "seed": seed, "output": text[:400]})
    return f

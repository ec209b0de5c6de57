"""Structural net reductions do not change answers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C02", rule="random bounded P/T nets decorated with reducible structure (sequences, parallel places and transitions, sinks, sources, dead parts, "
          "loops, implicit places, inhibitors) x one to three reachability/CTL/LTL queries, run with every reduction mode and random user rule sequences; "
          "non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 500 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim",
                       "rule K in user sequences is left out: the code declares it unproven"])
exe = c.exe("plain")
RULES = [x for x in range(19) if x != 10]


def seq(rng):
    k = rng.randint(1, 6)
    return ",".join(str(x) for x in rng.sample(RULES, k))


def count_rules(r, outs):
    for label, o in outs:
        for m in re.finditer(r"^Applications of rule (\w): (\d+)", o.out, re.M):
            if m.group(2) != "0":
                r.count("rule %s applied" % m.group(1), int(m.group(2)))


def case(kind):
    def f(i, rng, r, d):
        net, space = gen_net(rng, limit=500, decor=0.9 if i % 2 else 0.4, minstates=4, batch=0.25)
        ch = Checker(space)
        n = rng.choice([1, 1, 1, 2, 3])
        kw = dict(deadlock=rng.choice([0, 0, 0.3]), fire=rng.choice([0, 0.2, 0.5]))
        if kind == "reach":
            fs = [gen_reach(rng, net, space, depth=rng.randint(0, 2), **kw) for _ in range(n)]
            eng = []
        elif kind == "ctl":
            fs = [gen_ctl_top(rng, net, space, depth=rng.randint(1, 3), **kw) for _ in range(n)]
            eng = []
        else:
            kw["deadlock"] = 0
            fs = [gen_ltl(rng, net, space, depth=rng.randint(1, 3), **kw) for _ in range(n)]
            eng = ["-ltl"]
        try:
            exp = [ch.top(x) for x in fs]
        except TooBig:
            raise Skip()
        note_net(r, net, space, fs)
        r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
        por = rng.choice([["-p"], []])
        cfg = [("r1", eng + ["-q", "0", "-r", "1"] + por),
               ("r2", eng + ["-q", "0", "-r", "2"] + por),
               ("r3", eng + ["-q", "0", "-r", "3", seq(rng)] + por)]
        count_rules(r, pt_case(exe, r, d, rng, net, space, fs, exp, cfg))
    return f


c.part("reachability", case("reach"), 3000, 100000)
c.part("ctl", case("ctl"), 1500, 50000)
c.part("ltl", case("ltl"), 1500, 50000)
c.finish()

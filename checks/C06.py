"""CTL answers are right with both fixpoint engines and all strategies."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C06", rule="random bounded nets (deadlocking and live) x nested CTL formulas over all operators, answered by the czero and local engines with every "
          "supported search order; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 500 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def case(i, rng, r, d):
    net, space = gen_net(rng, limit=rng.choice([60, 150, 300]), decor=0.2, minstates=4)
    ch = Checker(space)
    kw = dict(deadlock=rng.choice([0, 0.1, 0.2]), fire=rng.choice([0.1, 0.4]))
    fs = [gen_ctl_top(rng, net, space, depth=rng.choice([1, 2, 3, 3, 4]), **kw) for _ in range(4)]
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    cfg = []
    for alg in ("czero", "local"):
        for s in rng.sample(["DFS", "BFS", "RDFS", "BestFS"], 2):
            cfg.append((alg + "-" + s, ["-r", "0", "-q", "0", "-p", "--noreach", "-ctl", alg, "-s", s]))
    pt_case(exe, r, d, rng, net, space, fs, exp, cfg)


def default(i, rng, r, d):
    """the tool's defaults: every reduction on, mixed with reachability fragments the tool special-cases"""
    net, space = gen_net(rng, limit=300, decor=0.5, minstates=4)
    ch = Checker(space)
    fs = [gen_ctl_top(rng, net, space, depth=rng.choice([1, 2, 3])) for _ in range(3)]
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    pt_case(exe, r, d, rng, net, space, fs, exp, [("default", []), ("default-local", ["-ctl", "local", "-q", "0"])])


c.part("engines", case, 900, 60000)
c.part("defaults", default, 500, 15000)
c.finish()

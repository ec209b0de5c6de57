"""LTL answers are right with both product algorithms, every heuristic and partial-order method."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C07", rule="random bounded nets (deadlocking and live) x LTL formulas (A and E; X, F, G, U), answered with nested DFS and Tarjan under every heuristic, "
          "weak/non-weak treatment, proposition compression and partial-order method; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 300 reachable markings", "the automaton translation of spot is replaced by the stand-in of /verif/shim, judged together with the engine by the reference",
                       "ptrie and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def case(i, rng, r, d):
    net, space = gen_net(rng, limit=300, decor=0.2, minstates=4)
    ch = Checker(space)
    kw = dict(deadlock=0, fire=rng.choice([0, 0.2, 0.5]))
    fs = [gen_ltl(rng, net, space, depth=rng.choice([1, 2, 3, 3]), **kw) for _ in range(3)]
    try:
        exp = [ch.top(f) for f in fs]
    except TooBig:
        raise Skip()
    note_net(r, net, space, fs)
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    cfg = []
    for alg in ("ndfs", "tarjan"):
        for k in range(2):
            a = ["-r", "0", "-q", "0", "-ltl", alg]
            a += rng.choice([["-p"], ["--ltl-por", "none"], ["--ltl-por", "automaton"], []])
            h = rng.choice([None, "aut", "dist", "fire-count"])
            s = rng.choice([None, "DFS", "RDFS", "BestFS", "BestFS"])
            if s:
                a += ["-s", s]
            if s == "BestFS" and h:
                a += ["--ltl-heur", h]
            a += rng.choice([[], ["--noweak"]])
            a += rng.choice([[], ["--noreach"]])
            cfg.append((alg, a))
    pt_case(exe, r, d, rng, net, space, fs, exp, cfg)




def default(i, rng, r, d):
    net, space = gen_net(rng, limit=200, decor=0.5, minstates=4)
    ch = Checker(space)
    fs = [gen_ltl(rng, net, space, depth=rng.choice([1, 2, 3]), deadlock=0) for _ in range(3)]
    try:
        exp = [ch.top(f) for f in fs]
    except TooBig:
        raise Skip()
    note_net(r, net, space, fs)
    pt_case(exe, r, d, rng, net, space, fs, exp, [("default", ["-ltl"]), ("default-ndfs", ["-ltl", "ndfs", "--spot-optimization", rng.choice(["1", "2", "3"])])])


c.part("engines", case, 900, 50000)
c.part("defaults", default, 300, 10000)
c.finish()

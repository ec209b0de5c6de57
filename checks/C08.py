"""Unfolding a coloured net preserves answers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from cpt import *

c = Check("C08", rule="random coloured nets (enumerations, integer ranges, products, dot; successor/predecessor, all, sums, differences, guards, inhibitor arcs) x reachability/CTL/LTL queries, "
          "unfolded with every combination of colour fixpoint, partitioning and variable symmetry; the answers are compared with a direct enumeration of bindings; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 400 reachable markings and 600 bindings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")

UNF = [[], ["--disable-cfp"], ["--disable-partitioning"], ["--disable-symmetry-vars"], ["--disable-cfp", "--disable-partitioning", "--disable-symmetry-vars"],
       ["--disable-cfp", "--disable-partitioning"], ["--max-intervals", "1", "1"], ["--max-intervals", "2", "1", "--interval-timeout", "0"],
       ["--max-intervals", "3", "2", "--disable-partitioning"], ["--disable-partitioning", "--disable-symmetry-vars"], ["--disable-cfp", "--disable-symmetry-vars"]]


def gen(kind, rng, net, space):
    kw = dict(deadlock=rng.choice([0, 0.1]), fire=rng.choice([0, 0.3, 0.6]))
    if kind == "reach":
        return gen_reach(rng, net, space, depth=rng.randint(1, 2), **kw)
    if kind == "ctl":
        return gen_ctl_top(rng, net, space, depth=rng.randint(1, 3), **kw)
    kw["deadlock"] = 0
    return gen_ltl(rng, net, space, depth=rng.randint(1, 3), **kw)


def case(i, rng, r, d):
    kind = rng.choice(["reach", "reach", "ctl", "ltl"])
    cn, space = mixed_cnet(rng)
    net = space.net
    ch = Checker(space)
    fs = [gen(kind, rng, net, space) for _ in range(rng.choice([2, 4]))]
    if kind == "reach":
        fs += [gen_pinned(rng, net, space) for _ in range(2)]
    exp = [ch.top(x) for x in fs]
    note_cnet(r, cn, space, fs)
    r.sample({"places": len(cn.places), "transitions": len(cn.trans), "bindings": len(space.tm), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    lg = ["-ltl"] if kind == "ltl" else []
    cfg = []
    pok = partition_ok(cn)
    guards = any(t[1] for t in cn.trans)

    def usable(u):
        if "--disable-partitioning" in u:
            return True
        return pok and ("--disable-cfp" not in u or not guards)
    unf = [u for u in UNF if usable(u)]
    if pok:
        r.count("partitionable nets")
    for u in unf[:1] + rng.sample(unf[1:], min(3, len(unf) - 1)):
        cfg.append(("unfold" + "".join(x.replace("--disable-", "-no").replace("--", "-") for x in u), lg + ["-R", "0", "-r", "0", "-q", "0", "-p"] + u))
    if rng.random() < 0.3:
        cfg.append(("defaults", lg + ["-R", "0"] + rng.choice(unf)))
    outs = cpn_case(exe, r, d, rng, cn, space, fs, exp, cfg)


c.part("answers", case, 1100, 60000)
c.finish()

"""Stubborn-set reduction does not change answers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C03", rule="random bounded nets biased to independent components and inhibitor arcs x reachability/CTL/LTL queries, run with stubborn sets on, "
          "every engine and LTL partial-order method; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 800 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def saved(r, net, space, outs):
    for l, o in outs:
        m = re.search(r"explored states:\s+(\d+)", o.out)
        if m and int(m.group(1)) < len(space.marks):
            r.count("runs that explored fewer markings than reachable")


def mk(rng):
    return gen_net(rng, limit=800, decor=0.25, minstates=5, kind=rng.choice([None, gen_small, gen_components, gen_components]))


def reach(i, rng, r, d):
    net, space = mk(rng)
    ch = Checker(space)
    kw = dict(deadlock=rng.choice([0, 0.1, 0.3]), fire=rng.choice([0, 0.2, 0.6]))
    fs = [gen_reach(rng, net, space, depth=rng.choice([0, 1, 2]), **kw) for _ in range(rng.choice([1, 1, 2, 4]))]
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    s = rng.choice(["BFS", "DFS", "RDFS", "BestFS", "RPFS"])
    outs = pt_case(exe, r, d, rng, net, space, fs, exp, [(s, ["-r", "0", "-q", "0", "-s", s])])
    # one query at a time: the reduction is then at its strongest
    for k in range(len(fs)):
        if len(fs) > 1:
            outs += pt_case(exe, r, d, rng, net, space, fs[k:k + 1], exp[k:k + 1], [("single", ["-r", "0", "-q", "0", "-s", rng.choice(["BFS", "DFS"])])])
    saved(r, net, space, outs)


def ctl(i, rng, r, d):
    net, space = mk(rng)
    ch = Checker(space)
    fs = [gen_ctl_top(rng, net, space, depth=rng.choice([1, 2, 2, 3]), fire=rng.choice([0.1, 0.4])) for _ in range(2)]
    if rng.random() < 0.5:
        # EF/AG nested below booleans: the fragment the CTL engine reduces with stubborn sets
        def g(dp):
            x = rng.random()
            if dp == 0 or x < 0.3:
                return (rng.choice(["EF", "AG"]), gen_state(rng, net, space, 1))
            if x < 0.5:
                return ("not", g(dp - 1))
            if x < 0.8:
                return (rng.choice(["and", "or"]), [g(dp - 1), g(dp - 1)])
            return (rng.choice(["EF", "AG"]), g(dp - 1))
        fs = [g(2) for _ in range(2)]
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    pt_case(exe, r, d, rng, net, space, fs, exp, [("ctl", ["-r", "0", "-q", "0", "-ctl", rng.choice(["czero", "local"]), "--noreach"])])


def ltl(i, rng, r, d):
    net, space = mk(rng)
    ch = Checker(space)
    fs = [gen_ltl(rng, net, space, depth=rng.choice([1, 2, 2, 3]), deadlock=0, fire=rng.choice([0, 0.2, 0.5])) for _ in range(2)]
    try:
        exp = [ch.top(f) for f in fs]
    except TooBig:
        raise Skip()
    note_net(r, net, space, fs)
    cfg = []
    for por in ("automaton", "classic", "liebke"):
        alg = rng.choice(["ndfs", "tarjan", "tarjan"])
        e = []
        if rng.random() < 0.4:
            e += ["-s", rng.choice(["DFS", "BestFS", "RDFS"])]
        cfg.append(("ltl-" + por, ["-r", "0", "-q", "0", "-ltl", alg, "--ltl-por", por] + e))
    pt_case(exe, r, d, rng, net, space, fs, exp, cfg)


c.part("reachability", reach, 4000, 100000)
c.part("ctl", ctl, 1200, 30000)
c.part("ltl", ltl, 800, 30000)
c.finish()

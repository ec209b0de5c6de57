"""Trace abstraction refinement agrees with explicit search."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C05", rule="random bounded inhibitor-free nets x reachability queries answered with -tar (with and without net and query reductions); "
          "non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 150 reachable markings", "runs that do not end in time are inconclusive", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def negated_deadlock(f, pos):
    """whether a deadlock atom ends up negated below the EF the query is turned into"""
    k = f[0]
    if k == "deadlock":
        return not pos
    if k in ("EF", "AG"):
        return negated_deadlock(f[1], k == "EF")
    if k == "not":
        return negated_deadlock(f[1], not pos) if f[1][0] not in ("EF", "AG") else negated_deadlock(f[1], True)
    if k == "imp":
        return negated_deadlock(f[1], not pos) or negated_deadlock(f[2], pos)
    if k in ("xor", "iff"):
        return any(negated_deadlock(x, b) for x in kids(f) for b in (True, False))
    return any(negated_deadlock(x, pos) for x in kids(f))


def case(i, rng, r, d):
    net, space = gen_net(rng, limit=150, decor=0.2, minstates=3)
    for t in range(len(net.trans)):
        net.inh[t] = {}
    try:
        space = Space(net, 150)
    except TooBig:
        raise Skip()
    ch = Checker(space)
    n = 1 if rng.random() < 0.6 else 2
    fs = []
    dl = rng.choice([0, 0, 0.3])
    while len(fs) < n:
        f = gen_reach(rng, net, space, depth=rng.choice([0, 0, 1, 2]), deadlock=dl, fire=rng.choice([0, 0.2]))
        if not negated_deadlock(f, True):      # refused by the tool: "Unsupported query type for TAR"
            fs.append(f)
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    cfg = [("tar", ["-tar", "-r", "0", "-q", "0"])]
    if rng.random() < 0.3:
        cfg.append(("tar-r", ["-tar", "-r", rng.choice(["1", "2"]), "-q", rng.choice(["0", "2"])]))
    files = net_files(net, fs, rng, d)
    for label, a in cfg:
        args = ["m.pnml", "q.xml", "-x", sel(len(fs))] + a
        o = execute([exe] + args, timeout=2, cwd=d)
        r.count("runs")
        if o.timeout:
            r.inconclusive["timeout"] += 1
            # what it printed before it was stopped still has to be right
        elif o.crashed():
            r.violation("crash:" + o.crash_key(), "killed (%d): %s\n%s" % (o.rc, " ".join(args), o.err[-500:]), files)
            continue
        judge(r, o, ["Q%d" % k for k in range(len(fs))], exp, label, args, files, allow_missing=o.timeout,
              descr={"Q%d" % k: tf(fs[k], net) for k in range(len(fs))})


c.part("tar", case, 500, 30000)
c.finish()

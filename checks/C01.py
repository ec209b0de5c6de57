"""Reachability answers are right for every search strategy."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C01", rule="random bounded P/T nets (weights, inhibitor arcs, orphan transitions, permuted declarations) x reachability, deadlock, fireability "
          "and cardinality queries whose thresholds are taken from reachable markings; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 600 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
STR = ["BFS", "DFS", "RDFS", "BestFS", "RPFS"]


def case(i, rng, r, d):
    net, space = gen_net(rng, limit=600, decor=0.3, minstates=4)
    ch = Checker(space)
    fs = [gen_reach(rng, net, space, deadlock=rng.choice([0.06, 0.3])) for _ in range(8)]
    exp = [ch.top(f) for f in fs]
    cfg = []
    for s in STR:
        a = ["-r", "0", "-q", "0", "-p", "-s", s]
        if s in ("RDFS", "RPFS"):
            a += ["--seed-offset", str(rng.randrange(1000))]
        if s == "RPFS" and rng.random() < 0.5:
            a += ["--init-potency-timeout", "0"]
        cfg.append((s, a))
    note_net(r, net, space, fs)
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    pt_case(exe, r, d, rng, net, space, fs, exp, cfg)


def walk(i, rng, r, d):
    """random walk only ever answers when it found the marking; run it on reachable goals"""
    net, space = gen_net(rng, limit=200, decor=0.2, minstates=4)
    ch = Checker(space)
    fs = [f for f in (gen_reach(rng, net, space, deadlock=0.02) for _ in range(60)) if (f[0] == "EF") == ch.top(f) and f[0] in ("EF", "AG")][:4]
    if not fs:
        raise Skip()
    note_net(r, net, space, fs)
    pt_case(exe, r, d, rng, net, space, fs, [ch.top(f) for f in fs], [("RandomWalk", ["-r", "0", "-q", "0", "-p", "-s", "RandomWalk", "--seed-offset", str(i)])], must_end=False)


def single(i, rng, r, d):
    """one query per run, textual syntax, default options of the tool"""
    net, space = gen_net(rng, limit=600, decor=0.5, minstates=4)
    ch = Checker(space)
    put(d, "m.pnml", net.to_pnml(rng))
    for k in range(3):
        f = gen_reach(rng, net, space)
        q = tf(f, net)
        put(d, "q.q", q)
        note_net(r, net, space, [f])
        a = rng.choice([[], ["-s", rng.choice(STR)], ["-r", "0"], ["-q", "0"], ["-p"], ["-n"]])
        fl = {"model.pnml": net.to_pnml(), "query.q": q, "cmd.txt": " ".join(a)}
        o = launch(exe, ["m.pnml", "q.q"] + a, r, "text", d, files=fl)
        if o is None:
            continue
        sat = re.findall(r"^Query is (NOT )?satisfied", o.out, re.M)
        r.count("answers")
        if len(sat) != 1:
            r.violation("missing:text", "%d answers for %s %s" % (len(sat), q, a), fl)
        elif (sat[0] == "") != ch.top(f):
            r.violation("wrong:text", "%s answered %s, the reference says %s with %s" % (q, sat[0] == "", ch.top(f), a), fl)


def bignum(i, rng, r, d):
    """token counts far above one byte or two: encodings of markings must not wrap"""
    net = Net()
    base = rng.choice([200, 255, 256, 60000, 65535, 65536, 1000000, 2000000000])
    k = rng.randint(2, 3)
    ps = [net.place(base + rng.randint(-1, 2) if j == 0 else rng.choice([0, 0, base, 1])) for j in range(k)]
    for t in range(rng.randint(1, 3)):
        a, b = rng.randrange(k), rng.randrange(k)
        w = max(1, base // rng.randint(1, 4) + rng.randint(-1, 1))
        net.tr({a: w}, {b: w} if rng.random() < 0.8 else {})
    try:
        space = Space(net, 200, maxtok=4000000000)
    except TooBig:
        raise Skip()
    ch = Checker(space)
    fs = []
    for _ in range(6):
        m = rng.choice(space.marks)
        p = rng.randrange(k)
        fs.append((rng.choice(["EF", "AG"]), ("cmp", rng.choice(["eq", "ne", "le", "ge", "lt", "gt"]), ("tok", [p]), ("const", min(2147483647, max(0, m[p] + rng.choice([0, 0, 1, -1])))))))
    exp = [ch.top(f) for f in fs]
    note_net(r, net, space, fs)
    pt_case(exe, r, d, rng, net, space, fs, exp, [(s, ["-r", "0", "-q", "0", "-p", "-s", s]) for s in ("BFS", "DFS", "BestFS")])


c.part("strategies", case, 1500, 30000)
c.part("random-walk", walk, 60, 3000)
c.part("single-text", single, 300, 8000)
c.part("big-numbers", bignum, 150, 5000)
c.finish()

"""Upper bounds are the largest reachable sums of tokens."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *
import cpt
from cpt import cpn_case, note_cnet, mixed_cnet

c = Check("C14", rule="random bounded P/T nets (decorated with reducible structure, parallel components, weights, inhibitor arcs) and coloured nets x sets of places, "
          "several bounds and other queries per run, under every strategy, reduction level, simplification, stubborn sets, token limits that suffice; the bound printed is compared with the maximum over the reference's reachability graph; "
          "non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 600 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
STR = ["BFS", "DFS", "RDFS", "BestFS", "RPFS"]


def bound(ps, names):
    return "<place-bound>%s</place-bound>" % "".join("<place>%s</place>" % names[p] for p in ps)


def config(rng, space):
    a = ["-r", rng.choice(["0", "1", "1"])]
    if rng.random() < 0.15:
        a = ["-r", "3", ",".join(str(rng.randrange(19)) for _ in range(rng.randint(1, 5)))]
    n = "r" + a[1]
    a += rng.choice([["-q", "0"], ["-q", "0"], ["-q", "10"], []])
    if rng.random() < 0.4:
        a += ["-p"]
        n += "-nopor"
    s = rng.choice(STR + [None])
    if s:
        a += ["-s", s]
        if s in ("RDFS", "RPFS"):
            a += ["--seed-offset", str(rng.randrange(1000))]
    if rng.random() < 0.15 and space is not None:
        a += ["-k", str(max(1, max(sum(m) for m in space.marks)) + rng.choice([0, 1, 7]))]
        a[a.index("-r") + 1] = "0"
        del a[2:2 + (1 if n.startswith("r3") else 0)]
        n = "k"
    return n, a


def places(rng, np, busy):
    k = rng.choice([1, 1, 1, 2, 2, 3, 4])
    pool = busy if busy and rng.random() < 0.7 else list(range(np))
    return rng.sample(pool, min(k, len(pool)))


def case(i, rng, r, d):
    net, space = gen_net(rng, limit=600, decor=0.6, minstates=3, batch=rng.random() < 0.3)
    np = len(net.places)
    busy = [p for p in range(np) if len({m[p] for m in space.marks}) > 1]
    ch = Checker(space)
    fs, exp = [], []
    for _ in range(rng.choice([1, 1, 2, 4, 6])):
        if rng.random() < 0.2:
            f = gen_reach(rng, net, space)
            fs.append(f)
            exp.append(ch.top(f))
        else:
            ps = places(rng, np, busy)
            fs.append(bound(ps, net.places))
            exp.append(str(max(sum(m[p] for p in ps) for m in space.marks)))
            r.count("bounds")
    note_net(r, net, space, fs)
    r.sample({"places": np, "markings": len(space.marks), "query": fs[0] if isinstance(fs[0], str) else tf(fs[0], net), "answer": exp[0]})
    pt_case(exe, r, d, rng, net, space, fs, exp, [config(rng, space) for _ in range(4)])


def coloured(i, rng, r, d):
    cn, space = mixed_cnet(rng, limit=300)
    sh = cn.shadow()
    net = space.net
    fs, exp = [], []
    for _ in range(rng.choice([1, 2, 3])):
        ps = rng.sample(range(len(cn.places)), min(len(cn.places), rng.choice([1, 1, 2])))
        fs.append(bound(ps, [p[0] for p in cn.places]))
        exp.append(str(max(sum(m[q] for q in ps) for m in space.marks)))
        r.count("bounds")
    note_cnet(r, cn, space, fs)
    cfg = []
    for _ in range(3):
        n, a = config(rng, None)
        cfg.append(("col-" + n, a + ["--disable-partitioning"] + rng.choice([[], ["--disable-cfp"], ["-R", "1"]])))
    cpn_case(exe, r, d, rng, cn, space, fs, exp, cfg)


c.part("bounds", case, 3500, 120000)
c.part("coloured", coloured, 600, 20000)
c.finish()

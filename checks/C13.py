"""Games: the controller synthesis answers and strategies are right."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C13", rule="random bounded two-player nets (weights, inhibitor arcs, transitions of the controller and of the environment) x safety (AG) and reachability (AF) control queries, with and without "
          "game stubborn sets, search orders, simplification, net reduction, several queries per run; the answer is compared with the winning region computed on the reference's reachability graph, and the printed strategy "
          "is followed through the graph: it must offer enabled moves of the controller that stay in the winning region, wherever the controller has a move; non-trivial: both players have transitions and at least 3 markings",
          assumptions=["nets with at most 600 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def region(net, space, ch, f):
    """winning markings: the controller picks one of its enabled moves (it has to, if there is one), the environment may take any of its own instead"""
    sat = ch.sat(f[1])
    n = len(space.marks)
    env = [[j for t, j in space.succ[i] if net.players[t]] for i in range(n)]
    con = [[j for t, j in space.succ[i] if not net.players[t]] for i in range(n)]
    safe = f[0] == "AG"
    w = [(i in sat) for i in range(n)] if isinstance(sat, (set, frozenset)) else [bool(x) for x in sat]
    goal = list(w)
    while True:
        ch_ = False
        for i in range(n):
            ok = all(w[j] for j in env[i]) and (not con[i] or any(w[j] for j in con[i]))
            if safe and w[i] and not ok:
                w[i] = False
                ch_ = True
            elif not safe and not w[i] and ok and (env[i] or con[i]):
                w[i] = True
                ch_ = True
        if not ch_:
            return w, goal


def follow(net, space, f, w, goal, text):
    """None, or what is wrong with the printed strategy"""
    try:
        st = json.loads(text)
    except ValueError as e:
        return "the strategy is not JSON: %s" % e
    name = {n: i for i, n in enumerate(net.places)}
    tn = {n: i for i, n in enumerate(net.trans)}
    table = {}
    for k, v in st.items():
        m = [0] * len(net.places)
        for x in filter(None, k.split(",")):
            p, _, q = x.rpartition(":")
            if p not in name:
                return "unknown place in %r" % k
            m[name[p]] = int(q)
        if any(t not in tn for t in v):
            return "unknown transition in %r" % v
        table[tuple(m)] = [tn[t] for t in v]
    todo, seen = [0], {0}
    while todo:
        i = todo.pop()
        if f[0] == "AF" and goal[i]:
            continue
        if not w[i]:
            return "the strategy can be led to %s, which the controller loses" % (space.marks[i],)
        move = table.get(tuple(space.marks[i]), [])
        con = {t: j for t, j in space.succ[i] if not net.players[t]}
        if con and not move:
            return "no move given in %s, where the controller has one" % (space.marks[i],)
        for t in move:
            if t not in con:
                return "the move %s is not an enabled transition of the controller in %s" % (net.trans[t], space.marks[i])
        nxt = [con[t] for t in move] + [j for t, j in space.succ[i] if net.players[t]]
        for j in nxt:
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return None


def game(rng):
    net, space = gen_net(rng, limit=500, decor=0.3, minstates=4)
    k = rng.choice([0.2, 0.5, 0.5, 0.8])
    net.players = [1 if rng.random() < k else 0 for _ in net.trans]
    return net, space


def query(rng, net, space):
    f = gen_reach(rng, net, space, deadlock=rng.choice([0, 0, 0.1]), depth=rng.randint(0, 2))
    while f[0] not in ("EF", "AG"):
        f = gen_reach(rng, net, space, deadlock=0, depth=rng.randint(0, 2))
    return (rng.choice(["AG", "AF"]), f[1])


def case(i, rng, r, d):
    net, space = game(rng)
    ch = Checker(space)
    fs, reg = [], []
    for _ in range(40):
        f = query(rng, net, space)
        w, goal = region(net, space, ch, f)
        # mostly games that are not decided by the initial marking alone
        if (goal[0] == (f[0] == "AG") and not all(goal) and any(goal)) or rng.random() < 0.1:
            fs.append(f)
            reg.append((w, goal))
        if len(fs) == 4:
            break
    if not fs:
        raise Skip()
    n = rng.choice([1, 1, 1, 2, 3])
    fs, reg = fs[:n], reg[:n]
    exp = [w[0] for w, g in reg]
    note_net(r, net, space, fs)
    r.count("games won by the controller", sum(exp))
    r.count("games won by the environment", len(exp) - sum(exp))
    r.sample({"places": len(net.places), "players": net.players, "markings": len(space.marks), "query": "control: " + tf(fs[0], net), "answer": exp[0]})
    cfg = []
    for _ in range(3):
        a = ["-s", rng.choice(["DFS", "BFS", "RDFS"])]
        a += rng.choice([["-p"], []]) + rng.choice([["-q", "0"], ["-q", "0"], []]) + ["-r", "0"]
        cfg.append((fs[0][0] + "-" + "".join(a), a))
    pt_case(exe, r, d, rng, net, space, [("control", f) for f in fs], exp, [("game-" + ("nopor" if "-p" in a else "por"), a) for n, a in cfg])
    # the strategy
    if exp[0]:
        m, q = net.to_pnml(rng), queries_xml([("control", fs[0])], net)
        put(d, "m.pnml", m)
        put(d, "q.xml", q)
        for por in (["-p"], []):
            a = ["m.pnml", "q.xml", "-x", "1", "-r", "0", "-q", "0", "-s", rng.choice(["DFS", "BFS", "RDFS"]), "--strategy-output", "s.json"] + por
            fl = {"model.pnml": m, "query.xml": q, "cmd.txt": " ".join(a)}
            try:
                os.unlink(os.path.join(d, "s.json"))
            except OSError:
                pass
            o = launch(exe, a, r, "strategy", d, files=fl)
            if o is None:
                continue
            p = os.path.join(d, "s.json")
            if not os.path.exists(p):
                r.violation("nostrategy", "no strategy written: " + " ".join(a), fl)
                continue
            s = open(p).read()
            r.count("strategies")
            x = follow(net, space, fs[0], reg[0][0], reg[0][1], s)
            if x:
                fl["strategy.json"] = s
                r.violation("strategy:" + ("nopor" if por else "por"), "%s: %s (%s)" % (tf(fs[0], net), x, " ".join(a)), fl)


c.part("games", case, 6000, 120000)
c.finish()

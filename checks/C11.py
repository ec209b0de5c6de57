"""Printed traces are genuine runs of the input net that justify the verdict."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *
from trace import *

c = Check("C11", rule="random bounded nets x reachability (EF true / AG false) and LTL (A false / E true) queries run with -t under every strategy, reduction level and engine; "
          "every printed trace is replayed step by step on the reference net, and its end (reachability) or infinite word (LTL) is evaluated; "
          "non-trivial: a replayed trace of at least one transition",
          assumptions=["nets with at most 400 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def reach(i, rng, r, d):
    net, space = gen_net(rng, limit=400, decor=0.5, minstates=4)
    ch = Checker(space)
    f = None
    for _ in range(40):
        f = gen_reach(rng, net, space)
        if f[0] in ("EF", "AG") and (f[0] == "EF") == ch.top(f):
            break
    else:
        raise Skip()
    goal = f[1] if f[0] == "EF" else ("not", f[1])
    files = net_files(net, [f], rng, d)
    for k in range(2):
        s = rng.choice(["BFS", "DFS", "RDFS", "BestFS", "RPFS", None, None])
        a = ["-t"] + (["-s", s] if s else []) + rng.choice([["-r", "0"], [], [], ["-r", "2"]]) + rng.choice([["-q", "0"], []]) + rng.choice([["-p"], []])
        if k == 1 and rng.random() < 0.5:
            rules = list(range(17))
            rng.shuffle(rules)
            rules = [x for x in rules if x not in (7, 9, 10, 16)][:rng.randint(1, 8)]
            a = ["-t", "-r", "3", ",".join(map(str, rules)), "-q", "0"]
        fl = dict(files)
        fl["cmd.txt"] = " ".join(a)
        o = launch(exe, ["m.pnml", "q.xml", "-x", "1"] + a, r, "reach", d, files=fl)
        if o is None:
            continue
        fl["stderr.txt"] = o.err
        judge(r, o, ["Q0"], [ch.top(f)], "reach", a, fl)
        ts = traces(o.err)
        if len(ts) != 1:
            r.violation("notrace:reach", "%d traces for a justified answer (%s) with %s" % (len(ts), tf(f, net), a), fl)
            continue
        t = ts[0]
        if t and t[0] == "bad":
            r.violation("xml:reach", "the trace is not XML: %s" % t[1], fl)
            continue
        ms, loop, dead, err = replay(net, t)
        r.count("steps replayed", len(ms) - 1)
        r.count("traces replayed")
        if err:
            r.violation("replay:reach", "%s: %s with %s" % (tf(f, net), err, a), fl)
        elif not holds(goal, ms[-1], en(net, ms[-1])):
            r.violation("end:reach", "%s: the trace ends in %s, which is no witness, with %s" % (tf(f, net), dict(zip(net.places, ms[-1])), a), fl)
        if len(ms) > 1:
            r.distinct(net.pre, net.post, net.m0, f, a)
            r.sample({"query": tf(f, net), "args": " ".join(a), "trace": [x[1] for x in t if x[0] == "t"]})


def ltl(i, rng, r, d):
    net, space = gen_net(rng, limit=200, decor=0.3, minstates=4)
    ch = Checker(space)
    f = None
    try:
        for _ in range(60):
            f = gen_ltl(rng, net, space, depth=rng.choice([1, 2, 3]), deadlock=0)
            if f[0] in ("A", "E") and (f[0] == "E") == ch.top(f):
                break
        else:
            raise Skip()
    except TooBig:
        raise Skip()
    goal = f[1] if f[0] == "E" else ("not", f[1])
    files = net_files(net, [f], rng, d)
    for k in range(2):
        a = ["-t", "-ltl", rng.choice(["ndfs", "tarjan"])] + rng.choice([["-r", "0"], ["-r", "0"], []]) + rng.choice([["-q", "0"], []])
        a += rng.choice([["-p"], [], ["--ltl-por", rng.choice(["classic", "liebke", "automaton"])]]) + rng.choice([[], ["-s", rng.choice(["DFS", "RDFS", "BestFS"])]])
        a += rng.choice([[], ["--noweak"]])
        fl = dict(files)
        fl["cmd.txt"] = " ".join(a)
        o = launch(exe, ["m.pnml", "q.xml", "-x", "1"] + a, r, "ltl", d, files=fl)
        if o is None:
            continue
        fl["stderr.txt"] = o.err
        judge(r, o, ["Q0"], [ch.top(f)], "ltl", a, fl)
        ts = traces(o.err)
        r.count("runs without a trace", len(ts) == 0)
        for t in ts:
            if t and t[0] == "bad":
                r.violation("xml:ltl", "the trace is not XML: %s" % t[1], fl)
                continue
            ms, loop, dead, err = replay(net, t, reduced="-r" not in a)
            r.count("steps replayed", len(ms) - 1)
            r.count("traces replayed")
            if err:
                r.violation("replay:ltl", "%s: %s with %s" % (tf(f, net), err, a), fl)
                continue
            if loop is None and not dead:
                # the search stopped where every continuation is a witness: try some
                r.count("finite traces")
                for _ in range(4):
                    m2 = list(ms)
                    at = {}
                    lp = None
                    while True:
                        if m2[-1] in at:
                            lp = at[m2[-1]]
                            break
                        at[m2[-1]] = len(m2) - 1
                        e = sorted(en(net, m2[-1]))
                        if not e:
                            break
                        m2.append(net.fire(m2[-1], rng.choice(e)))
                    if not word_holds(net, m2, lp, lp is None, goal):
                        r.violation("prefix:ltl", "%s: a continuation of the printed run is no witness with %s" % (tf(f, net), a), fl)
                        break
                r.distinct(net.pre, net.post, net.m0, f, a)
                continue
            if loop is not None and not dead and (loop >= len(ms) - 1 or ms[-1] != ms[loop]):
                r.violation("loop:ltl", "%s: the loop does not close: %s is not %s with %s" % (tf(f, net), ms[-1], ms[loop], a), fl)
                continue
            if not word_holds(net, ms, loop, dead, goal):
                r.violation("word:ltl", "%s: the printed run is no witness with %s" % (tf(f, net), a), fl)
            r.distinct(net.pre, net.post, net.m0, f, a)
            r.sample({"query": tf(f, net), "args": " ".join(a), "trace": [x[1] if x[0] == "t" else x[0] for x in t]})


c.part("reachability", reach, 1200, 40000)
c.part("ltl", ltl, 700, 20000)
c.finish()

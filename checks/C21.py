"""Successors are exactly those of the firing rule."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *
from blocks import blocks

c = Check("C21", rule="random nets with weights, inhibitor arcs and players x markings (reachable, arbitrary and near 2^32 tokens); every generator of the tool (plain, after a reset, suspended and resumed after every successor, "
          "resuming, game in both orders), fireable() and deadlocked() are recorded per marking and compared with the firing rule; non-trivial: a marking with at least 2 enabled transitions",
          assumptions=["nets with at most 12 places and 14 transitions", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
tool = c.exe("plain", "ntool", ["harness/ntool.cpp"], with_main=False, optional=True)
exe = c.exe("plain")
LIM = 1 << 32


def markings(rng, net, space):
    out = [rng.choice(space.marks) for _ in range(12)] if space else []
    for _ in range(12):
        hi = rng.choice([1, 2, 4, 9])
        m = [rng.randint(0, hi) if rng.random() < 0.8 else 0 for _ in net.places]
        if rng.random() < 0.3:
            p = rng.randrange(len(m))
            m[p] = rng.choice([255, 256, 65535, 65536, 1 << 31, (1 << 31) + 1, LIM - 1, LIM - 2, LIM - rng.randint(1, 6)])
        out.append(tuple(m))
    # markings that just enable or just miss a transition
    for _ in range(8):
        t = rng.randrange(len(net.trans))
        m = [rng.randint(0, 2) for _ in net.places]
        for p, w in net.pre[t].items():
            m[p] = w
        for p, w in net.inh[t].items():
            m[p] = w - 1
        k = list(net.pre[t]) + list(net.inh[t])
        if k and rng.random() < 0.6:
            p = rng.choice(k)
            if p in net.inh[t]:
                m[p] += 1
            else:
                m[p] -= 1
        out.append(tuple(m))
    return out


def case(i, rng, r, d):
    if tool is None:
        return
    if rng.random() < 0.6:
        net, space = gen_net(rng, limit=300, decor=0.4, minstates=1)
    else:
        net, space = gen_random(rng, rng.randint(1, 12), rng.randint(1, 14)), None
    for t in range(len(net.trans)):
        net.players[t] = rng.choice([0, 0, 1])
    for t in range(len(net.trans)):        # weights of all sizes
        for dd in (net.pre[t], net.post[t], net.inh[t]):
            for p in dd:
                if rng.random() < 0.03:
                    dd[p] = rng.choice([255, 256, 65536, (1 << 31) - 1])
    marks = markings(rng, net, space)
    m = net.to_pnml(rng)
    put(d, "m.pnml", m)
    mk = " ".join(net.places) + "\n" + "".join(" ".join(map(str, x)) + "\n" for x in marks)
    put(d, "marks", mk)
    files = {"model.pnml": m, "marks": mk}
    o = execute([tool, "m.pnml", "marks"], cwd=d, timeout=60)
    if o.timeout:
        r.inconclusive["timeout"] += 1
        return
    bl, rest = blocks(o.out)
    if o.rc != 0 or rest.strip() != "END":
        r.violation("run", "successors not computed (exit %s): %s %s" % (o.rc, rest[-300:], o.err[-300:]), files)
        return
    bl = {l: x for _, l, x in bl}
    col = bl["columns"].split()
    perm = [col.index(p) for p in net.places]
    at = {n: t for t, n in enumerate(net.trans)}
    ev = {}
    cur = None
    for line in bl["succ"].split("\n"):
        w = line.split()
        if not w:
            continue
        if w[0] == "M":
            cur = ev.setdefault(int(w[1]), {})
        elif w[0] == "d":
            cur["d"] = w[1]
        elif w[1:] == ["limit"]:
            cur.setdefault("limit", set()).add(w[0])
        elif w[0] == "f":
            cur.setdefault("f", []).append(at[w[1]])
        else:
            v = tuple(int(w[2 + k]) for k in perm)
            cur.setdefault(w[0], []).append((at[w[1]], v))
    r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(marks)})
    nt = range(len(net.trans))
    for k, mm in enumerate(marks):
        e = ev.get(k, {})
        en = [t for t in nt if net.enabled(mm, t)]
        want = sorted((t, net.fire(mm, t)) for t in en)
        over = any(max(v) >= LIM for _, v in want)
        near = any(max(v) >= LIM - 1 for _, v in want)     # the last value may be refused
        if len(en) >= 2:
            r.distinct(net.pre, net.inh, net.post, net.players, mm)
        r.count("markings")
        who = "marking " + " ".join("%s=%d" % x for x in zip(net.places, mm))

        def cmp(tag, what, got, exp):
            r.count(what, len(exp))
            if sorted(got) != exp:
                r.violation("succ:" + tag, "%s: %s are %s, the firing rule gives %s" % (
                    who, what, [(net.trans[a], b) for a, b in sorted(got)], [(net.trans[a], b) for a, b in exp]), files)
        cmp_f = sorted(e.get("f", []))
        if cmp_f != en:
            r.violation("fireable", "%s: fireable() holds for %s, enabled are %s" % (who, [net.trans[t] for t in cmp_f], [net.trans[t] for t in en]), files)
        if e.get("d") != ("0" if en else "1"):
            r.violation("deadlocked", "%s: deadlocked() says %s, enabled are %s" % (who, e.get("d"), [net.trans[t] for t in en]), files)
        if over:
            # a token count beyond 2^32-1 must be refused, never wrapped around
            r.count("markings beyond the token limit")
            for tag in ("s", "r", "c", "l", "gc", "ge", "Gc", "Ge"):
                bad = [x for x in e.get(tag, []) if x not in want]
                if bad:
                    r.violation("overflow:" + tag, "%s: successor %s %s is none of the firing rule" % (who, net.trans[bad[0][0]], bad[0][1]), files)
            if not e.get("limit"):
                r.violation("overflow", "%s: a successor exceeds the token limit and no generator says so" % who, files)
            continue
        if near:
            continue
        if e.get("limit"):
            r.violation("limit", "%s: the token limit is reported, no successor exceeds it (%s)" % (who, e["limit"]), files)
            continue
        cmp("s", "successors", e.get("s", []), want)
        cmp("r", "successors after reset", e.get("r", []), want)
        cmp("c", "resumed successors", e.get("c", []), want)
        cmp("l", "LTL successors", e.get("l", []), want)
        wc = [x for x in want if net.players[x[0]] == 0]
        we = [x for x in want if net.players[x[0]] != 0]
        for tag, exp in (("gc", wc), ("ge", we), ("Gc", wc), ("Ge", we)):
            cmp(tag, "controller successors" if tag[1] == "c" else "environment successors", e.get(tag, []), exp)


def explore(i, rng, r, d):
    """the whole state space as counted by the tool"""
    net, space = gen_net(rng, limit=2000, decor=0.3, minstates=rng.choice([2, 20, 100]))
    m = net.to_pnml(rng)
    put(d, "m.pnml", m)
    put(d, "q", "EF false\n")
    args = ["m.pnml", "-e"] + ["-s", rng.choice(["BFS", "DFS", "RDFS", "BestFS", "RPFS"])]
    files = {"model.pnml": m, "cmd.txt": "verifypn " + " ".join(args)}
    o = launch(exe, args, r, "explore", d, files=files)
    if o is None:
        return
    import re
    st = dict((a, int(b)) for a, b in re.findall(r"STATE_SPACE (\w+) (-?\d+)", o.out))
    n = len(space.marks)
    want = {"STATES": n, "MAX_TOKEN_PER_MARKING": max(sum(x) for x in space.marks), "MAX_TOKEN_IN_PLACE": max(max(x) for x in space.marks)}
    if n >= 3:
        r.distinct(net.pre, net.inh, net.post, net.m0)
    r.count("explored states", n)
    for k, v in want.items():
        if k in st and st[k] != v:
            r.violation("explore:" + k, "%s is %d, exploring says %d: %s" % (k, v, st[k], " ".join(args)), files)
    if "STATES" not in st:
        r.violation("explore:none", "no state space size: %s" % " ".join(args), files)


c.part("generators", case, 2500, 100000)
c.part("explore", explore, 600, 30000)
c.finish()

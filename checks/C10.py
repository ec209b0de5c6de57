"""Coloured reductions and over-approximation preserve answers."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from cpt import *

c = Check("C10", rule="random coloured nets, decorated with structures the rules look for, x reachability/CTL/LTL queries about few places, answered after coloured reduction (all rules; every rule alone; random sequences of rules), by "
          "unfolding and by the explicit coloured engine, and by the colour over-approximation; the answers are compared with a direct enumeration of bindings; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 400 reachable markings and 600 bindings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
RULES = ["relevance", "preagg", "partrans", "parplaces", "dead", "redundant", "preempt"]


def decorate_c(rng, cn):
    """adds structures the coloured rules apply to"""
    base = len(cn.places)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["twinplace", "twintrans", "dead", "redundant", "chain", "chain", "loop", "sink"])
        np, nt = len(cn.places), len(cn.trans)
        if nt == 0:
            return
        if k == "twinplace":
            p = rng.randrange(np)
            cn.places.append(("P%d" % np, cn.places[p][1], dict(cn.places[p][2]) if rng.random() < 0.7 else {c: n + 1 for c, n in cn.places[p][2].items()}))
            for t in range(nt):
                if p in cn.ins[t]:
                    cn.ins[t][np] = cn.ins[t][p]
                if p in cn.outs[t]:
                    cn.outs[t][np] = cn.outs[t][p]
        elif k == "twintrans":
            t = rng.randrange(nt)
            cn.trans.append(("T%d" % nt, cn.trans[t][1], cn.trans[t][2]))
            cn.ins.append(dict(cn.ins[t]))
            cn.outs.append(dict(cn.outs[t]))
            cn.inh.append(dict(cn.inh[t]))
        elif k == "dead":
            ty = rng.randrange(len(cn.types))
            cn.places.append(("P%d" % np, ty, {}))
            t = rng.randrange(nt)
            vs = [v for v in range(len(cn.vars)) if cn.vars[v][1] == ty]
            if not vs:
                cn.places.pop()
                continue
            e = ("num", 1, ("var", vs[0])) if False else gen_term(rng, cn, ty, vs[:1], 1, False)
            cn.ins[t][np] = e
            if rng.random() < 0.5:
                cn.outs[t][np] = e
        elif k == "redundant":
            ty = rng.randrange(len(cn.types))
            cs = cn.colours(ty)
            cn.places.append(("P%d" % np, ty, {x: rng.choice([1, 2]) for x in cs}))
            t = rng.randrange(nt)
            e = gen_term(rng, cn, ty, list(range(len(cn.vars))), 1, False)
            cn.ins[t][np] = e
            cn.outs[t][np] = e
            if rng.random() < 0.3:
                del cn.ins[t][np]
        elif k == "sink":
            ty = rng.randrange(len(cn.types))
            cn.places.append(("P%d" % np, ty, {}))
            t = rng.randrange(nt)
            cn.outs[t][np] = gen_term(rng, cn, ty, cn.tvars(t) or list(range(len(cn.vars))), 1, False)
        elif k == "chain":
            # t -> new place -> new transition -> what t produced
            t = rng.randrange(nt)
            if not cn.outs[t]:
                continue
            q = rng.choice(list(cn.outs[t]))
            e = cn.outs[t].pop(q)
            ty = cn.places[q][1]
            cn.places.append(("P%d" % np, ty, {}))
            cn.outs[t][np] = e
            vs = [v for v in range(len(cn.vars)) if cn.vars[v][1] == ty]
            d = cn.types[ty][1]
            if d[0] == "prod" and rng.random() < 0.8:
                comp = []
                for tt in d[1]:
                    w = [v for v in range(len(cn.vars)) if cn.vars[v][1] == tt]
                    comp.append(("var", rng.choice(w)) if w else None)
                if None in comp:
                    term = e
                else:
                    term = ("tup", 1, comp)
            elif vs and rng.random() < 0.8:
                term = gen_term(rng, cn, ty, [rng.choice(vs)], 1, False)
            else:
                term = e
            cn.trans.append(("T%d" % nt, None, 0))
            cn.ins.append({np: term})
            cn.outs.append({q: term})
            cn.inh.append({})
            if rng.random() < 0.3:
                cn.outs[-1] = {}
        elif k == "loop":
            p = rng.randrange(np)
            ty = cn.places[p][1]
            vs = [v for v in range(len(cn.vars)) if cn.vars[v][1] == ty]
            e = gen_term(rng, cn, ty, vs or [0], 1, False)
            cn.trans.append(("T%d" % nt, None, 0))
            cn.ins.append({p: e})
            cn.outs.append({p: e})
            cn.inh.append({})


    # what was added may be watched by inhibitor arcs, or be used by only part of the transitions
    np, nt = len(cn.places), len(cn.trans)
    if rng.random() < 0.35:
        p = rng.randrange(base, np) if base < np and rng.random() < 0.8 else rng.randrange(np)
        free = [t for t in range(nt) if p not in cn.ins[t]]
        if free:
            cn.inh[rng.choice(free)][p] = rng.choice([1, 1, 2, 3])
    if base < np and rng.random() < 0.25:
        p = rng.randrange(base, np)
        for side in (cn.ins, cn.outs):
            for t in range(nt):
                if p in side[t] and rng.random() < 0.3:
                    del side[t][p]


def vnet(rng):
    """nets whose arcs move (tuples of) variables only, built around the structures of the rules that need them"""
    for _ in range(200):
        cn = CNet()
        simple = gen_types(rng, cn)
        for i in range(rng.randint(1, 3)):
            cn.vars.append(("x%d" % i, rng.choice(simple)))
        flow = [t for t in range(len(cn.types)) if (all(any(v[1] == q for v in cn.vars) for q in cn.types[t][1][1]) if cn.types[t][1][0] == "prod"
                                                    else any(v[1] == t for v in cn.vars))]
        if not flow:
            continue
        flow = rng.sample(flow, min(len(flow), rng.choice([1, 1, 2])))

        def expr(t, k=None):
            k = k or rng.choice([1, 1, 1, 2])
            d = cn.types[t][1]
            pick = lambda q: ("var", rng.choice([v for v in range(len(cn.vars)) if cn.vars[v][1] == q]))
            return ("tup", k, [pick(q) for q in d[1]]) if d[0] == "prod" else ("num", k, pick(t))

        def times(e, k):
            return (e[0], e[1] * k) + tuple(e[2:])

        def place(t, marked):
            cs = cn.colours(t)
            m = {}
            if marked:
                for c in rng.sample(cs, min(len(cs), rng.choice([1, 1, 2, 3]))):
                    m[c] = rng.choice([1, 1, 2])
            cn.places.append(("P%d" % len(cn.places), t, m))
            return len(cn.places) - 1

        def trans(ins, outs, guard=0.15):
            cn.trans.append(("T%d" % len(cn.trans), None, 0))
            cn.ins.append(ins)
            cn.outs.append(outs)
            cn.inh.append({})
            if rng.random() < guard:
                gv = cn.tvars(len(cn.trans) - 1)
                if gv:
                    cn.trans[-1] = (cn.trans[-1][0], gen_guard(rng, cn, gv, rng.choice([0, 1]), None), 0)
            return len(cn.trans) - 1
        for _ in range(rng.randint(2, 4)):
            place(rng.choice(flow), rng.random() < 0.6)
        core = len(cn.places)
        for _ in range(rng.randint(1, 3)):
            p = rng.randrange(core)
            e = expr(cn.places[p][1])
            ins, outs = {p: e}, {}
            for q in rng.sample(range(core), min(core, rng.choice([0, 1, 1, 2]))):
                outs[q] = e if cn.places[q][1] == cn.places[p][1] and rng.random() < 0.7 else expr(cn.places[q][1])
            if rng.random() < 0.3:
                q = rng.randrange(core)
                if q not in ins:
                    ins[q] = expr(cn.places[q][1])
            trans(ins, outs)
        for _ in range(rng.choice([1, 1, 2, 2])):
            k = rng.choice(["twin", "twin", "buffer", "buffer", "preempt"])
            np, nt = len(cn.places), len(cn.trans)
            if k == "twin":
                cand = [p for p in range(np) if any(p in o for o in cn.outs)]
                if not cand:
                    continue
                p = rng.choice(cand)
                w = rng.choice([1, 1, 1, 2])
                m = {c: n * w for c, n in cn.places[p][2].items()}
                if m and rng.random() < 0.3:
                    c = rng.choice(sorted(m))
                    m[c] = max(1, m[c] + rng.choice([-1, 1]))
                elif rng.random() < 0.1:
                    m = {}
                cn.places.append(("P%d" % np, cn.places[p][1], m))
                for t in range(nt):
                    if p in cn.outs[t]:
                        cn.outs[t][np] = times(cn.outs[t][p], w if rng.random() < 0.8 else rng.choice([1, 2]))
                    elif rng.random() < 0.1:
                        cn.outs[t][np] = expr(cn.places[p][1])
                    if p in cn.ins[t] and rng.random() < 0.8:
                        cn.ins[t][np] = times(cn.ins[t][p], w if rng.random() < 0.8 else rng.choice([1, 2]))
                if rng.random() < 0.5:
                    free = [t for t in range(nt) if np not in cn.ins[t]]
                    if not free or rng.random() < 0.4:
                        a = rng.randrange(core)
                        trans({a: expr(cn.places[a][1])}, {})
                        free = [len(cn.trans) - 1]
                    cn.inh[rng.choice(free)][np] = rng.choice([1, 1, 2, 3])
            elif k == "buffer":
                ty = rng.choice(flow)
                b = place(ty, False)
                kk = rng.choice([1, 1, 2]) if rng.random() < 0.8 else None
                for _ in range(rng.choice([1, 1, 1, 2])):
                    a = place(rng.choice(flow), True) if rng.random() < 0.6 else rng.randrange(core)
                    e = expr(ty, kk)
                    outs = {b: e}
                    if rng.random() < 0.15:
                        q = rng.randrange(core)
                        outs[q] = expr(cn.places[q][1])
                    trans({a: times(e, 1) if cn.places[a][1] == ty and rng.random() < 0.7 else expr(cn.places[a][1])}, outs)
                for _ in range(rng.choice([1, 1, 1, 2])):
                    e = expr(ty, kk)
                    q = rng.randrange(core)
                    ins = {b: e}
                    if rng.random() < 0.3:
                        a = rng.randrange(core)
                        ins[a] = expr(cn.places[a][1])
                    trans(ins, {q: e if cn.places[q][1] == ty and rng.random() < 0.7 else expr(cn.places[q][1])})
                if rng.random() < 0.15:
                    cn.inh[rng.randrange(nt)][b] = rng.choice([1, 2])
            else:
                ty = rng.choice(flow)
                m = place(ty, True)
                e = expr(ty, rng.choice([1, 1, 2]))
                q = rng.choice([p for p in range(len(cn.places))])
                outs = {q: e} if cn.places[q][1] == ty else {q: expr(cn.places[q][1])}
                if rng.random() < 0.4:
                    outs[place(ty, rng.random() < 0.3)] = e
                trans({m: e}, outs, guard=0.1)
                if rng.random() < 0.3:
                    cn.outs[rng.randrange(nt)][m] = expr(ty)
                if rng.random() < 0.15:
                    t = rng.randrange(len(cn.trans))
                    for q in outs:
                        if q not in cn.ins[t]:
                            cn.inh[t][q] = rng.choice([1, 2])
        if rng.random() < 0.2:
            t = rng.randrange(len(cn.trans))
            free = [p for p in range(len(cn.places)) if p not in cn.ins[t]]
            if free:
                cn.inh[t][rng.choice(free)] = rng.choice([1, 2])
        # the order of the transitions decides which rule instance is found first
        o = list(range(len(cn.trans)))
        rng.shuffle(o)
        cn.trans = [("T%d" % i,) + tuple(cn.trans[j][1:]) for i, j in enumerate(o)]
        cn.ins, cn.outs, cn.inh = ([x[j] for j in o] for x in (cn.ins, cn.outs, cn.inh))
        try:
            s = CSpace(cn, limit=250, maxtok=20)
        except (TooBig, ValueError):
            continue
        if len(s.marks) >= 3:
            return cn, s
    raise TooBig()


def dnet(rng):
    if rng.random() < 0.5:
        return vnet(rng)
    for _ in range(200):
        try:
            cn, s = mixed_cnet(rng, limit=200)
        except TooBig:
            continue
        if rng.random() < 0.25:
            return cn, s
        try:
            decorate_c(rng, cn)
            s = CSpace(cn, limit=400, maxtok=20)
        except (TooBig, ValueError, IndexError, KeyError):
            continue
        return cn, s
    raise TooBig()


def gen(kind, rng, net, space):
    kw = dict(deadlock=rng.choice([0, 0, 0.1]), fire=rng.choice([0, 0, 0.3, 0.6]))
    if kind == "reach":
        return gen_reach(rng, net, space, depth=rng.randint(0, 2), **kw)
    if kind == "ctl":
        return gen_ctl_top(rng, net, space, depth=rng.randint(1, 3), **kw)
    kw["deadlock"] = 0
    return gen_ltl(rng, net, space, depth=rng.randint(1, 3), **kw)


def rules(rng):
    r = rng.random()
    if r < 0.35:
        return "all", ["-R", "1"]
    if r < 0.75:
        k = rng.randrange(7)
        return RULES[k], ["-R", "2", str(k)]
    s = [rng.randrange(7) for _ in range(rng.randint(2, 5))]
    return "seq", ["-R", "2", ",".join(map(str, s))]


def applied(r, o):
    for a, b in re.findall(r"Applications of rule ([A-Z][A-Za-z]+): (\d+)", o.out):
        if int(b):
            r.count("applications of " + a, int(b))


def case(i, rng, r, d):
    kind = rng.choice(["reach", "reach", "reach", "ctl", "ltl"])
    cn, space = dnet(rng)
    net = space.net
    ch = Checker(space)
    fs = [gen(kind, rng, net, space) for _ in range(rng.choice([1, 1, 2]))]
    if kind == "reach" and rng.random() < 0.3:
        fs = [gen_pinned(rng, net, space)]
    exp = [ch.top(x) for x in fs]
    note_cnet(r, cn, space, fs)
    r.sample({"places": len(cn.places), "transitions": len(cn.trans), "bindings": len(space.tm), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
    lg = ["-ltl"] if kind == "ltl" else []
    cfg = []
    for _ in range(3):
        n, a = rules(rng)
        cfg.append(("%s-%s" % (kind, n), lg + a + ["--disable-partitioning"] + rng.choice([["-r", "0", "-q", "0", "-p"], ["-r", "0", "-q", "0", "-p"], []])))
    for label, o in cpn_case(exe, r, d, rng, cn, space, fs, exp, cfg):
        applied(r, o)


def plain(f):
    if f[0] == "cmp":
        return all(x[0] == "const" or x[0] == "tok" and len(x[1]) == 1 for x in f[2:4])
    if f[0] in ("true", "false"):
        return False
    return all(plain(x) for y in f[1:] for x in (y if isinstance(y, list) else [y]) if isinstance(x, tuple))


def explicit(i, rng, r, d):
    cn, space = dnet(rng)
    net = space.net
    ch = Checker(space)
    m = cn.to_pnml(rng)
    put(d, "m.pnml", m)
    for k in range(3):
        for _ in range(100):
            f = gen_reach(rng, net, space, depth=rng.randint(1, 2), deadlock=rng.choice([0, 0.1]), fire=rng.choice([0, 0.3])) if rng.random() < 0.6 else gen_pinned(rng, net, space)
            if plain(f) and f[0] != "not":
                break
        else:
            return
        note_cnet(r, cn, space, [f])
        e = ch.top(f)
        q = queries_xml([f], net)
        put(d, "q.xml", q)
        n, a = rules(rng)
        args = ["m.pnml", "q.xml", "-x", "1", "-C", "-q", "0", "-s", rng.choice(["DFS", "BFS", "RDFS"])] + a
        files = {"model.pnml": m, "query.xml": q, "cmd.txt": "verifypn model.pnml query.xml " + " ".join(args[2:]) + "\n"}
        o = launch(exe, args, r, "explicit-" + n, d, files=files, ok_rc=(0, 1, 3, 255))
        if o is None:
            continue
        if o.rc in (3, 255):
            if "FORMULA" not in o.out and re.search("UNSUPPORTED|unexpected expression", o.out + o.err):
                r.inconclusive["refused"] += 1
            else:
                r.violation("exit:explicit", "exit code %d: %s\n%s" % (o.rc, " ".join(args), (o.out + o.err)[-400:]), files)
            continue
        applied(r, o)
        judge(r, o, ["Q0"], [e], "explicit-" + n, args, files, descr={"Q0": tf(f, net)})


def approx(i, rng, r, d):
    """-c: an answer of the over-approximation is the answer; often there is none"""
    cn, space = mixed_cnet(rng)
    net = space.net
    ch = Checker(space)
    fs = [gen("reach", rng, net, space) for _ in range(3)] + [gen_pinned(rng, net, space)]
    exp = [ch.top(x) for x in fs]
    note_cnet(r, cn, space, fs)
    cfg = [("approx" + x, ["-c", "-R", rng.choice(["0", "0", "1"])] + y) for x, y in (("", []), ("-plain", ["-r", "0", "-q", "0"]))]
    for label, o in cpn_case(exe, r, d, rng, cn, space, fs, exp, cfg, allow_missing=("approx", "approx-plain"), must_end=False, timeout=2):
        v = verdicts(o.out)
        r.count("approximate answers", len(v))


c.part("unfolded", case, 1500, 60000)
c.part("explicit", explicit, 600, 30000)
c.part("approximation", approx, 500, 30000)
c.finish()

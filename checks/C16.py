"""A net means the same in every notation."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from cpt import *
from blocks import blocks
import pnmlread, qxml

c = Check("C16", rule="random nets in random PNML spellings (nested pages, attributes or children, text or value, typed, input, output, inhibitor and transport arcs, parallel arcs, any order); what the parser reports, "
          "what the compiled net holds and what is written back are compared with the net; nets and queries written by --write-reduced, --write-unfolded-net and --write-col-reduced are read by an independent "
          "reader (or given back to the tool) and must give the answers of the original; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 300 reachable markings", "identifiers are XML names", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
tool = c.exe("plain", "ntool", ["harness/ntool.cpp"], with_main=False, optional=True)


def rename(rng, net):
    """names of many shapes"""
    if rng.random() < 0.5:
        return
    def name(k, i):
        return rng.choice(["%s%d", "%s_%d", "%s.%d", "%s-%d", "%s__%d_x", "x%s%d", "%s %d" if False else "%s:%d"]) % (k, i)
    net.places = [name("p", i) for i in range(len(net.places))]
    net.trans = [name("t", i) for i in range(len(net.trans))]


def parse(i, rng, r, d):
    if tool is None:
        return
    if rng.random() < 0.5:
        net, space = gen_net(rng, limit=300, decor=0.4, minstates=1)
        net = net.copy()
    else:
        net = gen_random(rng, rng.randint(1, 10), rng.randint(1, 10))
    rename(rng, net)
    for t in range(len(net.trans)):
        net.players[t] = rng.choice([0, 0, 1])
        for dd in (net.pre[t], net.inh[t], net.post[t]):
            for p in dd:
                if rng.random() < 0.05:
                    dd[p] = rng.choice([9, 10, 255, 256, 65535, 65536, (1 << 31) - 1])
    for p in range(len(net.places)):
        if rng.random() < 0.05:
            net.m0[p] = rng.choice([10, 255, 256, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1])
    m, pos = pnmlread.styled(net, rng)
    put(d, "m.pnml", m)
    files = {"model.pnml": m}
    r.sample({"places": len(net.places), "transitions": len(net.trans), "bytes": len(m)})
    o = execute([tool, "m.pnml"], cwd=d, timeout=60)
    if o.timeout:
        r.inconclusive["timeout"] += 1
        return
    bl, rest = blocks(o.out)
    if o.rc != 0 or rest.strip() != "END":
        r.violation("read", "net not read (exit %s): %s %s" % (o.rc, rest[-300:], o.err[-300:]), files)
        return
    bl = {l: x for _, l, x in bl}
    want = pnmlread.canon(net)
    r.distinct(m)

    def listing(what, text, position, final):
        n, at, ids = Net(), {}, {}
        inv = {}
        for line in text.split("\n"):
            w = line.split()
            if not w:
                continue
            r.count("facts about nets")
            if w[0] == "P":
                ids[w[1]] = n.place(int(w[2]), w[1])
                if position and pos[w[1]] != (float(w[3]), float(w[4])):
                    r.violation(what + ":pos", "%s: place %s is at %s" % (what, w[1], w[3:]), files)
            elif w[0] == "T":
                at[w[1]] = n.tr(name=w[1], player=int(w[2]))
                if position and pos[w[1]] != (float(w[3]), float(w[4])):
                    r.violation(what + ":pos", "%s: transition %s is at %s" % (what, w[1], w[3:]), files)
            elif w[0] == "I":
                dd = (n.inh if w[3] == "1" else n.pre)[at[w[2]]]
                if final and ids[w[1]] in dd:
                    r.violation(what + ":dup", "%s: two arcs from %s to %s" % (what, w[1], w[2]), files)
                dd[ids[w[1]]] = dd.get(ids[w[1]], 0) + int(w[4])
            elif w[0] == "O":
                dd = n.post[at[w[1]]]
                if final and ids[w[2]] in dd:
                    r.violation(what + ":dup", "%s: two arcs from %s to %s" % (what, w[1], w[2]), files)
                dd[ids[w[2]]] = dd.get(ids[w[2]], 0) + int(w[3])
            else:
                inv[w[0], w[1], w[2]] = int(w[3])
        if pnmlread.canon(n) != want:
            r.violation(what, "%s differs: %s\nexpected %s" % (what, pnmlread.canon(n), want), files)
        if final:
            exp = {}
            for t, nm in enumerate(net.trans):
                for p, w in net.pre[t].items():
                    exp["i", net.places[p], nm] = w
                for p, w in net.post[t].items():
                    exp["o", nm, net.places[p]] = w
            if inv != exp:
                r.violation(what + ":arcs", "%s: inArc/outArc give %s, the arcs are %s" % (what, sorted(set(inv.items()) - set(exp.items())), sorted(set(exp.items()) - set(inv.items()))), files)

    listing("parsed net", bl["record"], True, False)
    listing("compiled net", bl["net"], False, True)
    try:
        n, p2 = pnmlread.read(bl["xml"])
    except pnmlread.Bad as e:
        r.violation("written", "the written net is malformed: %s" % e, dict(files, written=bl["xml"]))
        return
    r.count("nets written back")
    if pnmlread.canon(n) != want:
        r.violation("written", "the written net differs: %s\nexpected %s" % (pnmlread.canon(n), want), dict(files, written=bl["xml"]))
    if p2 != pos:
        r.violation("written:pos", "positions differ in the written net", dict(files, written=bl["xml"]))


def out(d, f):
    p = os.path.join(d, f)
    return open(p).read() if os.path.exists(p) else ""


def written(i, rng, r, d):
    """P/T nets written by the command line"""
    net, space = gen_net(rng, limit=300, decor=0.4, minstates=rng.choice([2, 8]))
    ch = Checker(space)
    m = net.to_pnml(rng)
    put(d, "m.pnml", m)
    kind = rng.choice(["reach", "reach", "ctl", "ltl"])
    g = {"reach": gen_reach, "ctl": gen_ctl_top, "ltl": gen_ltl}[kind]
    fs = [g(rng, net, space, depth=rng.randint(1, 2), deadlock=0 if kind == "ltl" else rng.choice([0, 0.1]), fire=rng.choice([0, 0.3])) for _ in range(rng.choice([1, 3]))]
    if kind == "reach" and rng.random() < 0.5:
        fs = [gen_pinned(rng, net, space)]
    exp = {"Q%d" % k: ch.top(f) for k, f in enumerate(fs)}
    q = queries_xml(fs, net)
    put(d, "q.xml", q)
    note_net(r, net, space, fs)
    lg = ["-ltl"] if kind == "ltl" else []
    args = ["m.pnml", "q.xml", "-x", sel(len(fs))] + lg + rng.choice([[], [], ["-q", "0"]])
    args += ["--write-unfolded-net", "u.pnml", "--write-unfolded-queries", "u.xml", "--keep-solved"]
    red = rng.random() < 0.8
    if red:
        args += ["--write-reduced", "r.pnml", "--write-simplified", "s.xml"] + rng.choice([[], ["-r", "1"], ["-r", "2"]])
    files = {"model.pnml": m, "query.xml": q, "cmd.txt": "verifypn " + " ".join(args)}
    o = launch(exe, args, r, kind, d, files=files)
    if o is None:
        return
    judge(r, o, sorted(exp), [exp[k] for k in sorted(exp)], kind, args, files)
    pairs = [("u.pnml", "u.xml")] + ([("r.pnml", "s.xml")] if red else [])
    for a, b in pairs:
        dn, dq = out(d, a), out(d, b)
        if not dn and "r.pnml" == a:
            r.count("nothing left to write")
            continue
        f2 = dict(files, **{a: dn, b: dq})
        try:
            n2, _ = pnmlread.read(dn)
            gs = qxml.read(dq, n2, kind == "ltl") if a == "u.pnml" or True else []
        except (pnmlread.Bad, qxml.Bad) as e:
            r.violation("form:" + a, "%s: malformed output: %s" % (" ".join(args), e), f2)
            continue
        r.count("written nets")
        if a == "u.pnml" and pnmlread.canon(n2, False) != pnmlread.canon(net, False):
            r.violation("unfolded", "the net written by %s differs" % " ".join(args), f2)
        try:
            ch2 = Checker(Space(n2, limit=3000))
        except TooBig:
            r.inconclusive["written net too big"] += 1
            continue
        for k, g2 in gs:
            if k not in exp:
                r.violation("name:" + a, "written query %s is none of the input" % k, f2)
                continue
            if a == "r.pnml" and kind != "ltl" and len(gs) > 1 and False:
                continue
            r.count("written queries judged")
            if ch2.top(g2) != exp[k]:
                r.violation("answer:" + a, "%s: %s in the net of %s, the answer is %s: %s" % (" ".join(args), ch2.top(g2), a, exp[k], tf(g2, n2)), f2)
        if len(gs) != len(fs) and a == "u.pnml":
            r.violation("lost:" + a, "%d of %d queries written" % (len(gs), len(fs)), f2)


def coloured(i, rng, r, d):
    cn, space = mixed_cnet(rng, limit=200)
    net = space.net
    ch = Checker(space)
    kind = rng.choice(["reach", "ctl", "ltl"])
    g = {"reach": gen_reach, "ctl": gen_ctl_top, "ltl": gen_ltl}[kind]
    fs = [g(rng, net, space, depth=rng.randint(1, 2), deadlock=0 if kind == "ltl" else rng.choice([0, 0.1]), fire=rng.choice([0, 0.3])) for _ in range(rng.choice([1, 3]))]
    exp = {"Q%d" % k: ch.top(f) for k, f in enumerate(fs)}
    m = cn.to_pnml(rng)
    q = queries_xml(fs, net)
    put(d, "m.pnml", m)
    put(d, "q.xml", q)
    note_cnet(r, cn, space, fs)
    lg = ["-ltl"] if kind == "ltl" else []
    args = ["m.pnml", "q.xml", "-x", sel(len(fs)), "-R", "0"] + lg + rng.choice([["--disable-partitioning"], ["--disable-partitioning", "--disable-cfp"], ["--disable-partitioning", "--disable-symmetry-vars"]])
    args += ["--write-unfolded-net", "u.pnml", "--write-unfolded-queries", "u.xml", "--keep-solved"]
    if cn_writable(cn) and rng.random() < 0.6:
        args += ["--write-col-reduced", "c.pnml"]
        if rng.random() < 0.7:
            args[args.index("-R") + 1] = "1"
    files = {"model.pnml": m, "query.xml": q, "cmd.txt": "verifypn " + " ".join(args)}
    o = launch(exe, args, r, kind, d, files=files)
    if o is None:
        return
    judge(r, o, sorted(exp), [exp[k] for k in sorted(exp)], kind, args, files)
    dn, dq = out(d, "u.pnml"), out(d, "u.xml")
    f2 = dict(files, **{"u.pnml": dn, "u.xml": dq})
    try:
        n2, _ = pnmlread.read(dn)
        gs = qxml.read(dq, n2, kind == "ltl")
    except (pnmlread.Bad, qxml.Bad) as e:
        r.violation("form:unfolded", "%s: malformed output: %s" % (" ".join(args), e), f2)
        return
    try:
        ch2 = Checker(Space(n2, limit=3000))
        r.count("unfolded nets")
        for k, g2 in gs:
            r.count("written queries judged")
            if k not in exp or ch2.top(g2) != exp[k]:
                r.violation("answer:unfolded", "%s: %s in the unfolded net, the answer is %s: %s" % (" ".join(args), k, exp.get(k), tf(g2, n2)), f2)
        if len(gs) != len(fs):
            r.violation("lost:unfolded", "%d of %d queries written" % (len(gs), len(fs)), f2)
    except TooBig:
        r.inconclusive["written net too big"] += 1
    if "c.pnml" in args:
        dc = out(d, "c.pnml")
        a2 = ["c.pnml", "q.xml", "-x", sel(len(fs)), "-R", "0", "-r", "0", "-q", "0", "-p", "--disable-partitioning"] + lg
        f3 = dict(f2, **{"c.pnml": dc})
        o = launch(exe, a2, r, kind + "-reread", d, files=f3)
        if o is None:
            return
        r.count("coloured nets written")
        judge(r, o, sorted(exp), [exp[k] for k in sorted(exp)], kind + "-reread", a2, f3)


def cn_writable(cn):
    return True


c.part("spelling", parse, 3000, 100000)
c.part("written", written, 800, 40000)
c.part("coloured", coloured, 500, 20000)
c.finish()

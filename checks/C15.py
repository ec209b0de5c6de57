"""A query means the same in every notation."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *
import qxml

c = Check("C15", rule="random nets x CTL/LTL queries in XML and textual notation; every query is read, printed as XML, compact XML, text and binary, read back and printed again, copied and rewritten; "
          "each printed form is read by an independent reader and must hold in exactly the same markings of the whole state space as the query that was written (LTL: same answer); "
          "state formulas are also evaluated by the tool in the markings of the space; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 200 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
tool = c.exe("plain", "qtool", ["harness/qtool.cpp"], with_main=False, optional=True)


def meaning(ch, f, ltl):
    if f[0] == "bound":
        return ("bound", tuple(sorted(f[1])))
    if ltl:
        return ch.top(f)
    return tuple(ch.sat(f))


# ------------------------------------------------------------ textual notation with all its freedom
def wtext(rng, f, net):
    def name(n):
        if re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", n) and n not in RESERVED and rng.random() < 0.5:
            return n
        return '"%s"' % n

    def sp():
        return rng.choice(["", " ", " ", "  "])

    def e(x):
        k = x[0]
        if k == "const":
            return str(x[1]) if x[1] >= 0 else "(-%d)" % -x[1]
        if k == "tok":
            if rng.random() < 0.3:
                return "%s(%s)" % (rng.choice(["tokens-count", "#tokens"]), ("," + sp()).join(name(net.places[p]) for p in x[1]))
            if len(x[1]) == 1:
                return name(net.places[x[1][0]])
            return "(" + " + ".join(name(net.places[p]) for p in x[1]) + ")"
        if k == "diff" and len(x[1]) == 1:
            return "(-%s)" % e(x[1][0])
        op = {"sum": "+", "prod": "*", "diff": "-"}[k]
        xs = [e(y) for y in x[1]]
        s = xs[0]
        for y in xs[1:]:
            s += sp() + op + " " + y
        return "(%s)" % s

    def par(s):
        return "(%s)" % s

    def w(f):
        k = f[0]
        if k in ("true", "false", "deadlock"):
            return k
        if k == "fire":
            if rng.random() < 0.5:
                return "is-fireable(%s)" % ",".join(name(net.trans[t]) for t in f[1])
            return par(" or ".join(name(net.trans[t]) + "?" for t in f[1]))
        if k == "cmp":
            op = rng.choice({"eq": ["==", "="], "ne": ["!="], "lt": ["<"], "le": ["<="], "gt": [">"], "ge": [">="]}[f[1]])
            return par("%s%s%s%s%s" % (e(f[2]), sp(), op, sp(), e(f[3])))
        if k == "not":
            return par(rng.choice(["not ", "!", "NOT "]) + par(w(f[1])))
        if k in ("and", "or"):
            ops = {"and": ["and", "AND", "&", "&&"], "or": ["or", "OR", "|", "||"]}[k]
            s = w(f[1][0])
            for x in f[1][1:]:
                s += " %s %s" % (rng.choice(ops), w(x))
            return par(s)
        if k == "imp":
            return w(("or", [("not", f[1]), f[2]]))
        if k == "iff":
            return w(("or", [("and", [f[1], f[2]]), ("and", [("not", f[1]), ("not", f[2])])]))
        if k == "xor":
            return w(("or", [("and", [f[1], ("not", f[2])]), ("and", [("not", f[1]), f[2]])]))
        if k in ("EX", "AX", "EF", "AF", "EG", "AG", "X", "F", "G", "A", "E"):
            if len(k) == 2 and rng.random() < 0.3:
                return par("%s %s" % (k[0], par("%s %s" % (k[1], par(w(f[1]))))))
            return par("%s %s" % (k, par(w(f[1]))))
        if k in ("EU", "AU"):
            return par("%s (%s U %s)" % (k[0], par(w(f[1])), par(w(f[2]))))
        if k == "U":
            return par("%s U %s" % (par(w(f[1])), par(w(f[2]))))
        raise ValueError(k)
    return w(f)


RESERVED = {"true", "false", "deadlock", "and", "AND", "or", "OR", "not", "NOT", "EF", "EG", "AF", "AG", "EX", "AX", "A", "E", "X", "F", "G", "U", "control", "exists", "forall"}


def wxml(rng, f, net):
    """synonyms of the XML notation"""
    s = xf(f, net)
    if rng.random() < 0.3:
        for a, b in (("negation", "not"), ("conjunction", "and"), ("disjunction", "or")):
            if rng.random() < 0.5:
                s = s.replace("<%s>" % a, "<%s>" % b).replace("</%s>" % a, "</%s>" % b)
    if rng.random() < 0.3:
        s = re.sub("><", lambda m: ">" + rng.choice(["", " ", "\n  "]) + "<", s)
        s = re.sub("(<place>|<transition>|<integer-constant>)\\s+|\\s+(</place>|</transition>)", lambda m: m.group(1) or m.group(2), s)
    return s


def gen(kind, rng, net, space):
    kw = dict(deadlock=rng.choice([0, 0.1]), fire=rng.choice([0, 0.2, 0.5]), const=rng.choice([0.02, 0.1]))
    if kind == "state":
        return gen_state(rng, net, space, depth=rng.randint(0, 3), **kw)
    if kind == "ctl":
        return gen_ctl_top(rng, net, space, depth=rng.randint(1, 3), **kw)
    return gen_ltl(rng, net, space, depth=rng.randint(1, 3), **dict(kw, deadlock=0))


def blocks(data):
    pos = 0
    out = []
    while True:
        j = data.find("\n", pos)
        line = data[pos:j] if j >= 0 else data[pos:]
        m = re.match(r"BLOCK (\d+) (\S+) (\d+)$", line)
        if not m:
            if line.startswith("ERROR: ") and j >= 0:     # the textual parser complaining
                pos = j + 1
                continue
            return out, data[pos:]
        n = int(m.group(3))
        out.append((int(m.group(1)), m.group(2), data[j + 1:j + 1 + n]))
        pos = j + 1 + n + 1


def notations(i, rng, r, d):
    if tool is None:
        return
    net, space = gen_net(rng, limit=200, decor=0.2, minstates=rng.choice([1, 3, 8]))
    ch = Checker(space)
    kind = rng.choice(["state", "ctl", "ctl", "ltl"])
    ltl = kind == "ltl"
    fs = [gen(kind, rng, net, space) for _ in range(8)]
    exp = [meaning(ch, f, ltl) for f in fs]
    note_net(r, net, space, fs)
    m = net.to_pnml(rng)
    fmt = rng.choice(["xml", "text"])
    q = "".join(wtext(rng, f, net) + "\n" for f in fs) if fmt == "text" else queries_xml([wxml(rng, f, net) for f in fs], net)
    marks = rng.sample(space.marks, min(len(space.marks), 40))
    idx = [space.index[x] for x in marks]
    put(d, "m.pnml", m)
    put(d, "q", q)
    put(d, "marks", " ".join(net.places) + "\n" + "".join(" ".join(map(str, x)) + "\n" for x in marks))
    files = {"model.pnml": m, "query." + fmt: q}
    r.sample({"places": len(net.places), "markings": len(space.marks), "query": tf(fs[0], net), "notation": fmt})
    o = execute([tool, "m.pnml", "q", str(len(fs)), "ltl" if ltl else "ctl", fmt, "marks"], cwd=d, timeout=60)
    if o.timeout:
        r.inconclusive["timeout"] += 1
        return
    bl, rest = blocks(o.out)
    if o.rc != 0 or rest.strip() != "END":
        r.violation("read", "queries not read or printed (exit %s): %s %s" % (o.rc, rest[-300:], o.err[-300:]), files)
        return
    for k, label, data in bl:
        f = fs[k]
        who = "%s of %s" % (label, tf(f, net))
        if label.endswith(".eval"):
            sat = ch.sat(f)
            want = "".join("1" if sat[j] else "0" for j in idx)
            r.count("evaluations", len(marks))
            if data != want:
                r.violation("eval:" + label, "%s evaluates to %s, it is %s" % (who, data, want), files)
        elif label.endswith("-fail"):
            r.violation("fail:" + label, "%s is not accepted back: %s" % (who, data[:600]), files)
        elif label.endswith("xml") or label.endswith(".compact"):
            r.count("notations judged")
            try:
                g = qxml.read(data, net, ltl)
            except qxml.Bad as e:
                r.violation("form:" + label, "%s is malformed (%s): %s" % (who, e, data[:600]), files)
                continue
            if len(g) != 1 or g[0][0] != "Q" or meaning(ch, g[0][1], ltl) != exp[k]:
                r.violation("meaning:" + label, "%s means something else: %s" % (who, tf(g[0][1], net) if g else ""), dict(files, **{"printed.txt": data}))


# ------------------------------------------------------------ the command line
def globals_of(rng, net, space, ch):
    """queries about the whole net and their answers"""
    nt, np = range(len(net.trans)), range(len(net.places))
    k = max(max(m) for m in space.marks) + rng.choice([-1, 0, 0, 1])
    out = []
    if k >= 0:
        out.append(("<k-safe><integer-constant>%d</integer-constant></k-safe>" % k, all(max(m) <= k for m in space.marks)))
    out.append(("<quasi-liveness/>", all(any(t in e for e in ch.en) for t in nt)))
    out.append(("<liveness/>", ch.top(("AG", ("and", [("EF", ("fire", [t])) for t in nt])))))
    out.append(("<stable-marking/>", any(len({m[p] for m in space.marks}) == 1 for p in np)))
    f = gen_state(rng, net, space, depth=1)
    out.append(("<invariant>%s</invariant>" % xf(f, net), ch.top(("AG", f))))
    out.append(("<possibility>%s</possibility>" % xf(f, net), ch.top(("EF", f))))
    out.append(("<impossibility>%s</impossibility>" % xf(f, net), not ch.top(("EF", f))))
    rng.shuffle(out)
    return out


def surface(i, rng, r, d):
    net, space = gen_net(rng, limit=200, decor=0.2, minstates=rng.choice([1, 3, 8]))
    ch = Checker(space)
    m = net.to_pnml(rng)
    put(d, "m.pnml", m)
    kind = rng.choice(["global", "text", "xml"])
    opt = rng.choice([[], ["-q", "0"], ["-r", "0"], ["-q", "0", "-r", "0", "-p"]])
    if kind == "global":
        gs = globals_of(rng, net, space, ch)
        fs, exp, ltl = [g[0] for g in gs], [g[1] for g in gs], False
        q = queries_xml(fs, net)
        opt = rng.choice([["-q", "0", "-r", "0", "-p"], []])
    else:
        ltl = rng.random() < 0.3
        fs = [gen("ltl" if ltl else "ctl", rng, net, space) for _ in range(1 if kind == "text" else 4)]
        exp = [ch.top(f) for f in fs]
        q = wtext(rng, fs[0], net) if kind == "text" else queries_xml([wxml(rng, f, net) for f in fs], net)
    if ltl:
        opt = opt + ["-ltl"]
    put(d, "q", q)
    names = ["q"] if kind == "text" else ["Q%d" % k for k in range(len(fs))]
    args = ["m.pnml", "q"] + ([] if kind == "text" else ["-x", sel(len(fs))]) + opt
    files = {"model.pnml": m, "query": q, "cmd.txt": "verifypn " + " ".join(args)}
    note_net(r, net, space, fs)
    o = launch(exe, args, r, kind, d, files=files)
    if o is not None:
        r.count("%s notation" % kind, len(fs))
        judge(r, o, names, exp, kind, args, files)


def written(i, rng, r, d):
    net, space = gen_net(rng, limit=200, decor=0.2, minstates=rng.choice([1, 3, 8]))
    ch = Checker(space)
    m = net.to_pnml(rng)
    put(d, "m.pnml", m)
    ltl = rng.random() < 0.25
    fs = [gen("ltl" if ltl else "ctl", rng, net, space) for _ in range(5)]
    exp = {"Q%d" % k: ch.top(f) for k, f in enumerate(fs)}
    q = queries_xml(fs, net)
    put(d, "q", q)
    note_net(r, net, space, fs)
    binary = rng.random() < 0.5
    mode = rng.choice(["--write-simplified", "--write-simplified", "--write-unfolded-queries"])
    if mode != "--write-simplified":
        binary = False
    keep = rng.random() < 0.5 and not (ltl and binary)    # a bare constant is no LTL query to the tool
    lg = ["-ltl"] if ltl else []
    args = ["m.pnml", "q", "-x", sel(5), mode, "out"] + lg + (["-q", "0"] if rng.random() < 0.5 else []) + (["--binary-query-io", "2"] if binary else []) + (["--keep-solved"] if keep else [])
    label = mode[8:] + ("-binary" if binary else "")
    files = {"model.pnml": m, "query.xml": q, "cmd.txt": "verifypn " + " ".join(args)}
    o = launch(exe, args, r, label, d, files=files)
    if o is None:
        return
    judge(r, o, sorted(exp), [exp[k] for k in sorted(exp)], label, args, files)
    p = os.path.join(d, "out")
    data = open(p, "rb").read() if os.path.exists(p) else b""
    solved = set()
    if binary:
        import struct
        n = struct.unpack("<I", data[:4])[0]
        if n == 0:
            return
        a2 = ["m.pnml", "out", "-x", sel(n), "--binary-query-io", "1", "-q", "0", "-r", "0", "-p"] + lg
        o = launch(exe, a2, r, label, d, files=dict(files, out=data))
        if o is None:
            return
        v = verdicts(o.out)
        got = {k: x for k, x in v.items()}
        for k, x in got.items():
            r.count("written queries read back")
            if k not in exp or [str(exp.get(k)).upper()] != x:
                r.violation("written:" + label, "%s written by %s answers %s, the answer is %s" % (k, " ".join(args), x, exp.get(k)), dict(files, out=data))
        if len(got) != n:
            r.violation("lost:" + label, "%d of %d written queries answered: %s" % (len(got), n, " ".join(args)), dict(files, out=data))
    else:
        try:
            g = qxml.read(data.decode(), net, ltl)
        except qxml.Bad as e:
            r.violation("form:" + label, "%s wrote malformed queries (%s)" % (" ".join(args), e), dict(files, out=data))
            return
        got = dict(g)
        if len(got) != len(g):
            r.violation("twice:" + label, "a query is written twice: %s" % " ".join(args), dict(files, out=data))
        for k, f in g:
            r.count("written queries read back")
            if k not in exp:
                r.violation("name:" + label, "written query %s is none of the input: %s" % (k, " ".join(args)), dict(files, out=data))
            elif ch.top(f) != exp[k]:
                r.violation("written:" + label, "%s written by %s is %s, the answer is %s" % (k, " ".join(args), tf(f, net), exp[k]), dict(files, out=data))
    if keep and len(got) != len(fs):
        r.violation("lost:" + label, "%d of %d queries written with --keep-solved: %s" % (len(got), len(fs), " ".join(args)), dict(files, out=data))


c.part("notations", notations, 3000, 60000)
c.part("surface", surface, 1500, 40000)
c.part("written", written, 800, 40000)
c.finish()

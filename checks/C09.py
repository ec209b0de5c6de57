"""The explicit coloured engine answers like the coloured semantics, and its traces are runs."""
import os, sys, re
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from cpt import *

c = Check("C09", rule="random coloured nets x reachability queries, answered by the explicit coloured engine under every search strategy, both successor generators, with and without the colour ignorant linear program; "
          "verdict and exit code are compared with a direct enumeration of bindings and every printed trace is replayed binding by binding; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 400 reachable markings and 600 bindings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")
STRAT = ["DFS", "BFS", "RDFS", "BestFS"]


def colour(cn, t, name):
    d = cn.types[t][1]
    if d[0] == "dot":
        return (0,) if name in ("dot", "DOT") else None
    if d[0] == "enum":
        return (d[1].index(name),) if name in d[1] else None
    if d[0] == "range":
        return (int(name) - d[1],) if name.isdigit() and d[1] <= int(name) <= d[2] else None
    return None


def tokens(cn, p, e):
    """multiset of the <structure> below a place of a printed marking -> {colour: n}"""
    acc = {}

    def strip(x):
        return x.tag.split("}")[-1]

    def col(x, t):
        k = strip(x)
        if k == "subterm":
            return col(x[0], t)
        d = cn.types[t][1]
        if k == "tuple":
            return tuple(col(y, tt) for y, tt in zip(x, d[1]))
        if k == "dotconstant":
            return 0
        if k == "useroperator" and d[0] == "dot":
            if x.get("declaration") != "dot":
                raise ValueError(x.get("declaration"))
            return 0
        if k == "useroperator":
            return d[1].index(x.get("declaration"))
        if k == "finiteintrangeconstant":
            return int(x.get("value")) - d[1]
        raise ValueError(k)

    def ms(x):
        k = strip(x)
        if k in ("structure", "hlinitialMarking", "subterm", "add"):
            for y in x:
                if strip(y) != "text":
                    ms(y)
        elif k == "numberof":
            n = int(x[0][0].get("value"))
            cc = col(x[1], cn.places[p][1])
            acc[cc] = acc.get(cc, 0) + n
        else:
            raise ValueError(k)
    for y in e:
        ms(y)
    return acc


def check_trace(cn, space, text):
    """-> (error or None, last marking)"""
    m = re.search(r"<trace>.*?</trace>", text, re.S)
    if not m:
        return "no trace was printed", None
    try:
        e = ET.fromstring(m.group(0))
    except ET.ParseError as x:
        return "the trace is not XML: %s" % x, None
    u = space.u
    cur = tuple(u.m0)
    tn = {t[0]: i for i, t in enumerate(cn.trans)}
    vn = {v[0]: i for i, v in enumerate(cn.vars)}
    pl = {p[0]: i for i, p in enumerate(cn.places)}
    step = 0
    for x in e:
        if x.tag == "transition":
            step += 1
            t = tn.get(x.get("id"))
            if t is None:
                return "unknown transition %s" % x.get("id"), None
            b = {}
            for v in x.iter("variable"):
                vi = vn.get(v.get("id"))
                if vi is None:
                    return "unknown variable %s" % v.get("id"), None
                cc = colour(cn, cn.vars[vi][1], v.find("color").text.strip())
                if cc is None:
                    return "variable %s bound to %s, no colour of its type" % (v.get("id"), v.find("color").text), None
                b[vi] = cc[0]
            hit = None
            need = set(cn.tvars(t))
            for k, (tt, bb) in enumerate(space.tm):
                if tt == t and all(bb[v] == b.get(v) for v in need):
                    hit = k
                    break
            if hit is None:
                return "step %d: %s has no binding %s that meets the guard" % (step, x.get("id"), b), None
            if not u.enabled(cur, hit):
                return "step %d: %s is not enabled with %s" % (step, x.get("id"), b), None
            cur = u.fire(cur, hit)
        elif x.tag == "marking":
            got = {}
            for q in x:
                p = pl.get(q.get("id"))
                if p is None:
                    return "unknown place %s" % q.get("id"), None
                try:
                    got[p] = tokens(cn, p, q)
                except (ValueError, IndexError) as err:
                    return "step %d: the tokens of %s cannot be read: %r" % (step, cn.places[p][0], err), None
            for p in range(len(cn.places)):
                want = {cc: cur[i] for cc, i in space.pm[p].items() if cur[i]}
                have = {cc: n for cc, n in got.get(p, {}).items() if n}
                if want != have:
                    return "step %d: the trace says %s holds %s, it holds %s" % (step, cn.places[p][0], have, want), None
    return None, cur


def plain(f):
    """atoms the engine accepts: counts and constants compared, fireability of transitions, deadlock"""
    if f[0] == "cmp":
        return all(x[0] == "const" or x[0] == "tok" and len(x[1]) == 1 for x in f[2:4])
    if f[0] in ("true", "false"):
        return False
    return all(plain(x) for y in f[1:] for x in (y if isinstance(y, list) else [y]) if isinstance(x, tuple))


def case(i, rng, r, d):
    cn, space = mixed_cnet(rng)
    net = space.net
    ch = Checker(space)
    kw = dict(deadlock=rng.choice([0, 0.1]), fire=rng.choice([0, 0.3, 0.6]))
    m = cn.to_pnml(rng)
    put(d, "m.pnml", m)
    for k in range(3):
        while True:
            f = gen_reach(rng, net, space, depth=rng.randint(1, 2), **kw) if rng.random() < 0.5 else gen_pinned(rng, net, space)
            if plain(f) and f[0] != "not":
                break
        note_cnet(r, cn, space, [f])
        e = ch.top(f)
        neg = f[0] == "not"
        ef, body = ((f[1] if neg else f)[0] == "EF"), (f[1] if neg else f)[1]
        q = queries_xml([f], net)
        put(d, "q.xml", q)
        files = {"model.pnml": m, "query.xml": q}
        if k == 0:
            r.sample({"places": len(cn.places), "bindings": len(space.tm), "markings": len(space.marks), "query": tf(f, net), "answer": e})
        for _ in range(2):
            a = ["-C", "-s", rng.choice(STRAT), "--seed-offset", str(rng.randrange(1000)), "-R", "0"]
            lp = rng.random() < 0.3
            a += ["-q", "1" if lp else "0"]
            gen = rng.choice([None, "fixed", "even"])
            if gen:
                a += ["--colored-successor-generator", gen]
            tr = rng.random() < 0.4
            if tr:
                a.append("-t")
            label = "%s%s%s%s" % (a[2], "-" + gen if gen else "", "-lp" if lp else "", "-t" if tr else "")
            args = ["m.pnml", "q.xml", "-x", "1"] + a
            files["cmd.txt"] = "verifypn model.pnml query.xml " + " ".join(args[2:]) + "\n"
            o = launch(exe, args, r, label, d, files=files, ok_rc=(0, 1, 3, 255))
            if o is None:
                continue
            if o.rc in (3, 255):
                if "FORMULA" not in o.out and re.search("UNSUPPORTED|unexpected expression", o.out + o.err):
                    r.inconclusive["refused"] += 1
                else:
                    r.violation("exit:%s" % label, "exit code %d: %s\n%s" % (o.rc, " ".join(args), (o.out + o.err)[-400:]), files)
                continue
            judge(r, o, ["Q0"], [e], label, args, files, descr={"Q0": tf(f, net)})
            if "Q0" in verdicts(o.out) and o.rc != (0 if e else 1) and verdicts(o.out)["Q0"] == [str(e).upper()]:
                r.violation("code:%s" % label, "exit code %d for %s: %s" % (o.rc, e, " ".join(args)), files)
            if tr and "Trace:" in o.out + o.err:
                err, last = check_trace(cn, space, o.out + o.err)
                r.count("traces")
                if err:
                    r.violation("trace:%s" % label, "%s: %s" % (err, " ".join(args)), dict(files, **{"stderr.txt": o.err, "stdout.txt": o.out}))
                else:
                    s = space.us.index[last]
                    if ch.sat(body)[s] != ef:
                        r.violation("traceend:%s" % label, "the trace does not end in a marking deciding the query: %s" % " ".join(args), dict(files, **{"stderr.txt": o.err}))
            elif tr and not lp and e == (ef != neg):
                r.violation("notrace:%s" % label, "no trace although a marking decides the query: %s" % " ".join(args), dict(files, **{"stdout.txt": o.out, "stderr.txt": o.err}))


c.part("answers", case, 4000, 60000)
c.finish()

"""Query simplification (rewriting, initial-marking evaluation, linear programming) preserves truth."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
from run import *
from pt import *

c = Check("C04", rule="random bounded nets x reachability/CTL/LTL queries, simplified with and without linear programming and trivial-state-equation reasoning, "
          "then answered without other reductions; the simplified queries written to a file are evaluated by the reference too; non-trivial: at least 3 reachable markings",
          assumptions=["nets with at most 500 reachable markings", "ptrie, spot and bdd replaced by stand-ins of /verif/shim"])
exe = c.exe("plain")


def gen(kind, rng, net, space, **kw):
    if kind == "reach":
        return gen_reach(rng, net, space, depth=rng.randint(1, 3), **kw)
    if kind == "ctl":
        return gen_ctl_top(rng, net, space, depth=rng.randint(1, 4), **kw)
    kw["deadlock"] = 0
    return gen_ltl(rng, net, space, depth=rng.randint(1, 3), **kw)


def case(kind):
    def f(i, rng, r, d):
        net, space = gen_net(rng, limit=500, decor=0.4, minstates=3)
        ch = Checker(space)
        kw = dict(deadlock=rng.choice([0, 0.1]), fire=rng.choice([0, 0.2, 0.5]), const=rng.choice([0.03, 0.15]))
        n = rng.choice([1, 2, 4])
        fs = [gen(kind, rng, net, space, **kw) for _ in range(n)]
        try:
            exp = [ch.top(x) for x in fs]
        except TooBig:
            raise Skip()
        note_net(r, net, space, fs)
        r.sample({"places": len(net.places), "transitions": len(net.trans), "markings": len(space.marks), "query": tf(fs[0], net), "answer": exp[0]})
        lg = ["-ltl"] if kind == "ltl" else []
        cfg = [("q", lg + ["-r", "0", "-p"]),
               ("q+lp1", lg + ["-r", "0", "-p", "-l", "1", "-q", "5"])]
        if kind == "ltl":
            cfg[1] = ("q+aps", lg + ["-r", "0", "-p", "--compress-aps"])
        outs = pt_case(exe, r, d, rng, net, space, fs, exp, cfg)
        for _, o in outs:
            r.count("queries decided by simplification", o.out.count("solved by Query Simplification"))
    return f


def written(i, rng, r, d):
    """the simplified query file must mean the same as the original one"""
    kind = rng.choice(["reach", "ctl", "ctl"])
    net, space = gen_net(rng, limit=300, decor=0.4, minstates=3)
    ch = Checker(space)
    fs = [gen(kind, rng, net, space, fire=0.3, const=0.1) for _ in range(3)]
    exp = [ch.top(x) for x in fs]
    files = net_files(net, fs, rng, d)
    note_net(r, net, space, fs)
    a = ["m.pnml", "q.xml", "-x", sel(3), "-r", "0", "--write-simplified", "s.xml", "--keep-solved", "--noverify"]
    o = launch(exe, a, r, "write-simplified", d, files=files)
    if o is None:
        return
    s = read(os.path.join(d, "s.xml"))
    if not s:
        r.violation("nofile:write-simplified", "no simplified query file\n" + o.err[-300:], files)
        return
    files["simplified.xml"] = s
    names = re.findall(r"<id>(.*?)</id>", s)
    r.count("simplified queries written", len(names))
    if sorted(names) != ["Q0", "Q1", "Q2"]:
        r.violation("names:write-simplified", "the written file holds %s" % names, files)
        return
    o = launch(exe, ["m.pnml", "s.xml", "-x", sel(3), "-r", "0", "-q", "0", "-p"], r, "reread", d, files=files)
    if o is not None:
        names = ["Q0", "Q1", "Q2"]
        judge(r, o, names, exp, "simplified", a, files, descr={names[k]: tf(fs[k], net) for k in range(3)})


c.part("reachability", case("reach"), 700, 30000)
c.part("ctl", case("ctl"), 700, 30000)
c.part("ltl", case("ltl"), 400, 15000)
c.part("written", written, 400, 15000)
c.finish()

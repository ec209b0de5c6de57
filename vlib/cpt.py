"""Differential monitoring of the command line on coloured nets."""
from pt import *
from cpn import *


def cpn_case(exe, r, d, rng, cn, space, fs, expected, configs, allow_missing=(), rc_ok=(0,), must_end=True, timeout=HANG):
    m = cn.to_pnml(rng)
    q = queries_xml(fs, space.net)
    put(d, "m.pnml", m)
    put(d, "q.xml", q)
    files = {"model.pnml": m, "query.xml": q}
    names = ["Q%d" % i for i in range(len(fs))]
    descr = {names[i]: tf(fs[i], space.net) for i in range(len(fs)) if not isinstance(fs[i], str) and fs[i][0] != "control"}
    outs = []
    for label, extra in configs:
        args = ["m.pnml", "q.xml", "-x", sel(len(fs))] + extra
        f = dict(files)
        f["cmd.txt"] = "verifypn model.pnml query.xml " + " ".join(args[2:]) + "\n"
        o = launch(exe, args, r, label, d, must_end=must_end, timeout=timeout, files=f, ok_rc=rc_ok)
        if o is None:
            continue
        judge(r, o, names, expected, label, args, f, allow_missing=(label in allow_missing), descr=descr)
        outs.append((label, o))
    return outs


def note_cnet(r, cn, space, fs):
    r.count("markings", len(space.marks))
    r.count("firings", sum(len(x) for x in space.us.succ))
    r.count("bindings", len(space.tm))
    if len(space.marks) >= 3:
        for f in fs:
            r.distinct(cn.types, cn.vars, cn.places, cn.trans, cn.ins, cn.outs, cn.inh, f)


def mixed_cnet(rng, limit=400, **kw):
    return gen_cnet(rng, limit=limit, minstates=rng.choice([2, 4, 8, 16]), **kw)

"""Differential monitoring of the command line on P/T nets against the reference evaluation."""
import os
from pn import *
from run import execute, verdicts, put, R, Skip

HANG = int(os.environ.get("VERIF_HANG","20"))


def launch(exe, args, r, label, d=None, must_end=True, files=None, timeout=HANG, ok_rc=(0,), stdin=None):
    """Runs once; returns Out or None when there is no verdict to judge (after recording why)."""
    o = execute([exe] + args, timeout=timeout, cwd=d, stdin=stdin)
    if o.timeout and must_end:
        o = execute([exe] + args, timeout=timeout * 3, cwd=d, stdin=stdin)
    r.count("runs")
    if o.timeout:
        if must_end:
            r.violation("hang:%s" % label, "no answer within %ds twice: %s" % (timeout * 3, " ".join(args)), dict(files or {}))
        else:
            r.inconclusive["timeout:" + label] += 1
        return None
    if o.crashed():
        f = dict(files or {})
        f["stderr.txt"] = o.err[-20000:]
        r.violation("crash:%s" % o.crash_key(), "the run was killed (%d): %s\n%s" % (o.rc, " ".join(args), o.err[-600:]), f)
        return None
    if o.rc not in ok_rc:
        r.violation("exit:%s" % label, "exit code %d: %s\n%s" % (o.rc, " ".join(args), (o.err + o.out)[-600:]), dict(files or {}))
        return None
    return o


def judge(r, o, names, expected, label, args, files, allow_missing=False, descr=None):
    """compares FORMULA lines against expected truth values (None: unknown)"""
    v = verdicts(o.out)
    for k, e in zip(names, expected):
        if e is None:
            continue
        got = v.get(k, [])
        want = e if isinstance(e, str) else ("TRUE" if e else "FALSE")
        if not got:
            if allow_missing:
                r.count("undecided")
                continue
            r.violation("missing:%s" % label, "no answer for %s: %s\n%s" % (k, " ".join(args), (o.out + o.err)[-500:]), dict(files))
            continue
        r.count("answers")
        if len(got) > 1:
            r.violation("twice:%s" % label, "%s answered %s: %s" % (k, got, " ".join(args)), dict(files))
        if any(g != want for g in got):
            r.violation("wrong:%s" % label, "%s: answered %s, the reference says %s (%s): %s" %
                        (k, got, want, (descr or {}).get(k, ""), " ".join(args)), dict(files))


def sel(n):
    return ",".join(str(i + 1) for i in range(n))


def net_files(net, fs, rng, d):
    m = net.to_pnml(rng)
    q = queries_xml(fs, net)
    put(d, "m.pnml", m)
    put(d, "q.xml", q)
    return {"model.pnml": m, "query.xml": q}


def pt_case(exe, r, d, rng, net, space, fs, expected, configs, allow_missing=(), must_end=True, count=None):
    """configs: list of (label, extra args)"""
    files = net_files(net, fs, rng, d)
    names = ["Q%d" % i for i in range(len(fs))]
    descr = {names[i]: tf(fs[i], net) for i in range(len(fs)) if not isinstance(fs[i], str) and fs[i][0] != "control"}
    outs = []
    for label, extra in configs:
        args = ["m.pnml", "q.xml", "-x", sel(len(fs))] + extra
        f = dict(files)
        f["cmd.txt"] = "verifypn model.pnml query.xml " + " ".join(args[2:]) + "\n"
        o = launch(exe, args, r, label, d, must_end=must_end, files=f)
        if o is None:
            continue
        judge(r, o, names, expected, label, args, f, allow_missing=(label in allow_missing), descr=descr)
        outs.append((label, o))
    return outs


def note_net(r, net, space, fs):
    r.count("markings", len(space.marks))
    r.count("firings", sum(len(x) for x in space.succ))
    if len(space.marks) >= 3:
        for f in fs:
            r.distinct(net.m0, net.pre, net.post, net.inh, f)

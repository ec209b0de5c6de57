"""Replays printed traces on the reference net."""
import re, collections
import xml.etree.ElementTree as ET
from pn import *


def traces(text):
    """every <trace>...</trace> in the text, as lists of ('t', name, {place: n}) | ('loop',) | ('deadlock',)"""
    out = []
    for m in re.finditer(r"<trace(?: name=\"[^\"]*\")?>.*?</trace>", text, re.S):
        try:
            e = ET.fromstring(m.group(0))
        except ET.ParseError as x:
            out.append(("bad", str(x)))
            continue
        l = []
        for c in e:
            if c.tag == "transition":
                l.append(("t", c.get("id"), dict(collections.Counter(k.get("place") for k in c if k.tag == "token")), c))
            else:
                l.append((c.tag,))
        out.append(l)
    return out


def replay(net, tr, tokens=True, reduced=False):
    """-> (markings, loop index or None, deadlock?, error or None); reduced: the printed
    deadlock is one of the reduced net, where only what the query observes rests"""
    idx = {n: i for i, n in enumerate(net.trans)}
    ms = [tuple(net.m0)]
    loop = None
    dead = False
    for s in tr:
        if s[0] == "loop":
            loop = len(ms) - 1
            continue
        if s[0] == "deadlock":
            dead = True
            if not reduced and any(net.enabled(ms[-1], t) for t in range(len(net.trans))):
                return ms, loop, dead, "the trace says deadlock after %d steps, but a transition is enabled" % (len(ms) - 1)
            continue
        if s[0] != "t":
            return ms, loop, dead, "unknown element %s" % (s[0],)
        if dead:
            return ms, loop, dead, "a transition after the deadlock"
        t = idx.get(s[1])
        if t is None:
            return ms, loop, dead, "unknown transition %s" % s[1]
        if not net.enabled(ms[-1], t):
            return ms, loop, dead, "step %d: %s is not enabled in %s" % (len(ms), s[1], dict(zip(net.places, ms[-1])))
        want = {net.places[p]: w for p, w in net.pre[t].items()}
        if tokens and s[2] != want:
            return ms, loop, dead, "step %d: %s consumes %s, the trace lists %s" % (len(ms), s[1], want, s[2])
        ms.append(net.fire(ms[-1], t))
    return ms, loop, dead, None


def en(net, m):
    return frozenset(t for t in range(len(net.trans)) if net.enabled(m, t))


class _Word:
    pass


def word_holds(net, ms, loop, dead, f):
    """f: path formula; ms: markings; the word loops from the last marking to `loop` or stutters"""
    w = _Word()
    if dead or loop is None:
        w.marks = list(ms)
        nxt = [i + 1 for i in range(len(ms) - 1)] + [len(ms) - 1]
    else:
        w.marks = list(ms[:-1])
        nxt = [i + 1 for i in range(len(ms) - 2)] + [loop]
    w.succ = [[(0, j)] for j in nxt]
    w._p = None

    def pred():
        p = [[] for _ in w.marks]
        for i, j in enumerate(nxt):
            p[j].append(i)
        return p
    w.pred = pred
    ch = Checker(w)
    ch.en = [en(net, m) for m in w.marks]
    return ch._epath(f)[0]

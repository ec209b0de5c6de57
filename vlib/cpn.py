"""Coloured nets: representation, random generation, PNML, and the reference unfolding semantics.
Independent of the code under test.

Colour types: ('dot',) | ('enum', [names]) | ('range', lo, hi) | ('prod', [type ids of simple types])
A colour is an int (simple) or a tuple of ints (product): indexes into the type.
Colour expressions: ('var', v) ('con', type, i) ('suc', e) ('pre', e) ('all', type)  (all only inside arc terms)
Arc expressions: ('num', k, ce) ('tup', k, [ce]) ('add', [a]) ('sub', a, b) ('sca', k, a)
Guards: ('cmp', op, ce, ce) ('and', [g]) ('or', [g]) ('not', g)
"""
import itertools
import random
import pn
from pn import TooBig


class CNet:
    def __init__(self):
        self.types = []        # (name, def)
        self.vars = []         # (name, type)
        self.places = []       # (name, type, {colour: n})
        self.trans = []        # (name, guard or None, player)
        self.ins = []          # per transition {place: arc}
        self.outs = []
        self.inh = []          # per transition {place: weight}

    # -- types
    def size(self, t):
        d = self.types[t][1]
        if d[0] == "dot":
            return 1
        if d[0] == "enum":
            return len(d[1])
        if d[0] == "range":
            return d[2] - d[1] + 1
        n = 1
        for x in d[1]:
            n *= self.size(x)
        return n

    def colours(self, t):
        d = self.types[t][1]
        if d[0] == "prod":
            return list(itertools.product(*[range(self.size(x)) for x in d[1]]))
        return list(range(self.size(t)))

    # -- evaluation
    def ce(self, e, b):
        """list of colours ('all' yields several)"""
        k = e[0]
        if k == "var":
            return [b[e[1]]]
        if k == "con":
            return [e[2]]
        if k == "all":
            return self.colours(e[1])
        n = self.size(self.etype(e))
        if k == "suc":
            return [(c + 1) % n for c in self.ce(e[1], b)]
        if k == "pre":
            return [(c - 1) % n for c in self.ce(e[1], b)]
        raise ValueError(k)

    def etype(self, e):
        if e[0] == "var":
            return self.vars[e[1]][1]
        if e[0] in ("con", "all"):
            return e[1]
        return self.etype(e[1])

    def ae(self, a, b):
        """multiset as dict; None when a subtraction goes negative"""
        k = a[0]
        r = {}
        if k == "num":
            for c in self.ce(a[2], b):
                r[c] = r.get(c, 0) + a[1]
            return r
        if k == "tup":
            for c in itertools.product(*[self.ce(x, b) for x in a[2]]):
                r[c] = r.get(c, 0) + a[1]
            return r
        if k == "add":
            for x in a[1]:
                y = self.ae(x, b)
                if y is None:
                    return None
                for c, n in y.items():
                    r[c] = r.get(c, 0) + n
            return r
        if k == "sub":
            x, y = self.ae(a[1], b), self.ae(a[2], b)
            if x is None or y is None:
                return None
            for c, n in y.items():
                x[c] = x.get(c, 0) - n
                if x[c] < 0:
                    return None
            return {c: n for c, n in x.items() if n}
        if k == "sca":
            x = self.ae(a[2], b)
            return None if x is None else {c: n * a[1] for c, n in x.items()}
        raise ValueError(k)

    def ge(self, g, b):
        k = g[0]
        if k == "cmp":
            return pn._OPS[g[1]](self.ce(g[2], b)[0], self.ce(g[3], b)[0])
        if k == "and":
            return all(self.ge(x, b) for x in g[1])
        if k == "or":
            return any(self.ge(x, b) for x in g[1])
        return not self.ge(g[1], b)

    # -- variables of a transition
    def tvars(self, t):
        s = set()

        def c(e):
            if e[0] == "var":
                s.add(e[1])
            elif e[0] in ("suc", "pre"):
                c(e[1])

        def a(x):
            if x[0] == "num":
                c(x[2])
            elif x[0] == "tup":
                for y in x[2]:
                    c(y)
            elif x[0] == "add":
                for y in x[1]:
                    a(y)
            elif x[0] == "sub":
                a(x[1])
                a(x[2])
            else:
                a(x[2])

        def g(x):
            if x[0] == "cmp":
                c(x[2])
                c(x[3])
            elif x[0] == "not":
                g(x[1])
            else:
                for y in x[1]:
                    g(y)
        for d in (self.ins[t], self.outs[t]):
            for x in d.values():
                a(x)
        if self.trans[t][1]:
            g(self.trans[t][1])
        return sorted(s)

    def bindings(self, t):
        vs = self.tvars(t)
        for vals in itertools.product(*[self.colours(self.vars[v][1]) for v in vs]):
            b = dict(zip(vs, vals))
            if self.trans[t][1] is None or self.ge(self.trans[t][1], b):
                yield b

    # -- unfolding
    def unfold(self, maxb=600):
        """(P/T net, place -> unfolded places, unfolded transition -> (transition, binding)); places inhibited get a sum place"""
        n = pn.Net()
        pm = []
        for name, t, m in self.places:
            pm.append({c: n.place(m.get(c, 0), "%s_%s" % (name, str(c).replace(" ", ""))) for c in self.colours(t)})
        sums = {}
        for t in range(len(self.trans)):
            for p in self.inh[t]:
                if p not in sums:
                    sums[p] = n.place(sum(self.places[p][2].values()), self.places[p][0] + "_SUM")
        tm = []
        for t in range(len(self.trans)):
            for b in self.bindings(t):
                pre, post = {}, {}
                for src, dst in ((self.ins[t], pre), (self.outs[t], post)):
                    for p, a in src.items():
                        ms = self.ae(a, b)
                        if ms is None:
                            raise ValueError("negative arc")
                        tot = 0
                        for c, k in ms.items():
                            if k:
                                dst[pm[p][c]] = k
                                tot += k
                        if p in sums and tot:
                            dst[sums[p]] = tot
                n.tr(pre, post, {sums[p]: w for p, w in self.inh[t].items()}, player=self.trans[t][2])
                tm.append((t, b))
                if len(tm) > maxb:
                    raise TooBig()
        return n, pm, tm

    # -- PNML
    def xc(self, e, rng):
        k = e[0]
        if k == "var":
            return '<variable refvariable="%s"/>' % self.vars[e[1]][0]
        if k == "con":
            d = self.types[e[1]][1]
            if d[0] == "dot":
                return "<dotconstant/>"
            if d[0] == "enum":
                return '<useroperator declaration="%s"/>' % d[1][e[2]]
            return '<finiteintrangeconstant value="%d"><finiteintrange start="%d" end="%d"/></finiteintrangeconstant>' % (d[1] + e[2], d[1], d[2])
        if k == "all":
            return '<all><usersort declaration="%s"/></all>' % self.types[e[1]][0]
        tag = "successor" if k == "suc" else "predecessor"
        return "<%s><subterm>%s</subterm></%s>" % (tag, self.xc(e[1], rng), tag)

    def xa(self, a, rng):
        k = a[0]
        num = '<subterm><numberconstant value="%d"><positive/></numberconstant></subterm>'
        if k == "num":
            if a[1] == 1 and a[2][0] == "all" and rng.random() < 0.3:
                return self.xc(a[2], rng)
            if a[1] == 1 and rng.random() < 0.2:
                return "<numberof><subterm>%s</subterm></numberof>" % self.xc(a[2], rng)
            return "<numberof>%s<subterm>%s</subterm></numberof>" % (num % a[1], self.xc(a[2], rng))
        if k == "tup":
            t = "<tuple>%s</tuple>" % "".join("<subterm>%s</subterm>" % self.xc(x, rng) for x in a[2])
            if a[1] == 1 and rng.random() < 0.3:
                return t
            return "<numberof>%s<subterm>%s</subterm></numberof>" % (num % a[1], t)
        if k == "add":
            return "<add>%s</add>" % "".join("<subterm>%s</subterm>" % self.xa(x, rng) for x in a[1])
        if k == "sub":
            return "<subtract><subterm>%s</subterm><subterm>%s</subterm></subtract>" % (self.xa(a[1], rng), self.xa(a[2], rng))
        return "<scalarproduct>%s<subterm>%s</subterm></scalarproduct>" % (num % a[1], self.xa(a[2], rng))

    def xg(self, g, rng):
        k = g[0]
        if k == "cmp":
            tag = {"eq": "equality", "ne": "inequality", "lt": "lessthan", "le": "lessthanorequal", "gt": "greaterthan", "ge": "greaterthanorequal"}[g[1]]
            if rng.random() < 0.15:
                tag = {"eq": "eq", "ne": "neq", "lt": "lt", "le": "leq", "gt": "gt", "ge": "geq"}[g[1]]
            return "<%s><subterm>%s</subterm><subterm>%s</subterm></%s>" % (tag, self.xc(g[2], rng), self.xc(g[3], rng), tag)
        if k == "not":
            return "<not><subterm>%s</subterm></not>" % self.xg(g[1], rng)
        return "<%s>%s</%s>" % (k, "".join("<subterm>%s</subterm>" % self.xg(x, rng) for x in g[1]), k)

    def to_pnml(self, rng=None):
        rng = rng or random.Random(1)
        o = ['<?xml version="1.0" encoding="UTF-8"?>\n<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">\n'
             '<net id="n" type="http://www.pnml.org/version-2009/grammar/symmetricnet">\n<name><text>n</text></name>\n<declaration><structure><declarations>\n']
        for name, d in self.types:
            if d[0] == "dot":
                x = "<dot/>"
            elif d[0] == "enum":
                x = "<cyclicenumeration>%s</cyclicenumeration>" % "".join('<feconstant id="%s" name="%s"/>' % (c, c) for c in d[1])
            elif d[0] == "range":
                x = '<finiteintrange start="%d" end="%d"/>' % (d[1], d[2])
            else:
                x = "<productsort>%s</productsort>" % "".join('<usersort declaration="%s"/>' % self.types[t][0] for t in d[1])
            o.append('<namedsort id="%s" name="%s">%s</namedsort>\n' % (name, name, x))
        for name, t in self.vars:
            o.append('<variabledecl id="%s" name="%s"><usersort declaration="%s"/></variabledecl>\n' % (name, name, self.types[t][0]))
        o.append("</declarations></structure></declaration>\n<page id=\"page\">\n")
        for name, t, m in self.places:
            im = ""
            if m:
                terms = [self.term(t, c, k) for c, k in m.items()]
                if len(m) == self.size(t) and len(set(m.values())) == 1 and self.types[t][1][0] != "prod" and rng.random() < 0.5:
                    terms = [("num", list(m.values())[0], ("all", t))]
                x = self.xa(terms[0] if len(terms) == 1 else ("add", terms), rng)
                im = "<hlinitialMarking><text>m</text><structure>%s</structure></hlinitialMarking>" % x
            o.append('<place id="%s"><name><text>%s</text></name><type><text>t</text><structure><usersort declaration="%s"/></structure></type>%s</place>\n'
                     % (name, name, self.types[t][0], im))
        for t, (name, g, pl) in enumerate(self.trans):
            x = ""
            if g:
                x = "<condition><text>g</text><structure>%s</structure></condition>" % self.xg(g, rng)
            if pl:
                x += "<player><value>%d</value></player>" % pl
            o.append('<transition id="%s"><name><text>%s</text></name>%s</transition>\n' % (name, name, x))
        k = 0
        for t in range(len(self.trans)):
            tn = self.trans[t][0]
            for p, a in self.ins[t].items():
                o.append('<arc id="a%d" source="%s" target="%s"><hlinscription><text>i</text><structure>%s</structure></hlinscription></arc>\n' % (k, self.places[p][0], tn, self.xa(a, rng)))
                k += 1
            for p, w in self.inh[t].items():
                o.append('<inhibitorArc id="a%d" source="%s" target="%s"><inscription><text>%d</text></inscription></inhibitorArc>\n' % (k, self.places[p][0], tn, w))
                k += 1
            for p, a in self.outs[t].items():
                o.append('<arc id="a%d" source="%s" target="%s"><hlinscription><text>i</text><structure>%s</structure></hlinscription></arc>\n' % (k, tn, self.places[p][0], self.xa(a, rng)))
                k += 1
        o.append("</page></net></pnml>\n")
        return "".join(o)

    def term(self, t, c, k):
        """arc term for k tokens of colour c of type t"""
        d = self.types[t][1]
        if d[0] == "prod":
            return ("tup", k, [("con", ct, x) for ct, x in zip(d[1], c)])
        return ("num", k, ("con", t, c))

    def shadow(self):
        """P/T net with the coloured places and transitions, for query generation and printing only"""
        n = pn.Net()
        for name, t, m in self.places:
            n.place(sum(m.values()), name)
        for t, (name, g, pl) in enumerate(self.trans):
            n.tr({}, {}, {}, name=name)
        return n


class CSpace:
    """State space of a coloured net, projected to token counts per coloured place and coloured transition labels."""

    def __init__(self, cnet, limit=600, maxtok=40):
        self.cnet = cnet
        self.u, self.pm, self.tm = cnet.unfold()
        self.us = pn.Space(self.u, limit=limit, maxtok=maxtok)
        idx = [list(d.values()) for d in self.pm]
        self.marks = [tuple(sum(m[i] for i in l) for l in idx) for m in self.us.marks]
        self.succ = [sorted({(self.tm[t][0], j) for t, j in out}) for out in self.us.succ]
        self.net = cnet.shadow()
        self._pred = None

    pred = pn.Space.pred


# ---------------------------------------------------------------- generation
def gen_types(rng, net):
    nt = rng.choice([1, 1, 2, 2, 3])
    simple = []
    lo = 0
    for i in range(nt):
        if rng.random() < 0.4:
            lo = rng.randint(0, 3)
            hi = lo + rng.randint(0, 4)
            if any(d[0] == "range" and (d[1], d[2]) == (lo, hi) for _, d in net.types):
                continue
            net.types.append(("R%d" % i, ("range", lo, hi)))
        else:
            net.types.append(("E%d" % i, ("enum", ["c%d_%d" % (i, j) for j in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))])))
        simple.append(len(net.types) - 1)
    if rng.random() < 0.4:
        net.types.append(("dot", ("dot",)))
        simple.append(len(net.types) - 1)
    seen = set()
    for i in range(rng.choice([0, 1, 1, 2])):
        k = rng.choice([2, 2, 2, 3])
        comp = tuple(rng.choice(simple) for _ in range(k))
        sz = 1
        for x in comp:
            sz *= net.size(x)
        if comp in seen or sz > 30:
            continue
        seen.add(comp)
        net.types.append(("X%d" % i, ("prod", list(comp))))
    return simple


def gen_ce(rng, net, t, vs, allow_all=False, con=0.2, mod=0.25):
    """colour expression of simple type t over variables vs"""
    if allow_all and rng.random() < 0.12:
        return ("all", t)
    mine = [v for v in vs if net.vars[v][1] == t]
    if mine and rng.random() > con:
        e = ("var", rng.choice(mine))
        if net.types[t][1][0] != "dot":
            while rng.random() < mod:
                e = (rng.choice(["suc", "pre"]), e)
        return e
    return ("con", t, rng.randrange(net.size(t)))


def gen_term(rng, net, t, vs, k=None, allow_all=True):
    k = k or rng.choice([1, 1, 1, 1, 2, 3])
    d = net.types[t][1]
    if d[0] == "prod":
        return ("tup", k, [gen_ce(rng, net, x, vs, allow_all) for x in d[1]])
    return ("num", k, gen_ce(rng, net, t, vs, allow_all))


def gen_arc(rng, net, t, vs, feat):
    r = rng.random()
    if r < 0.14 and feat["add"]:
        return ("add", [gen_term(rng, net, t, vs, feat["w"] and None or 1, feat["all"]) for _ in range(rng.choice([2, 2, 3]))])
    if r < 0.22 and feat["sub"]:
        d = net.types[t][1]
        k = rng.choice([1, 1, 2])
        if d[0] == "prod":
            full = ("tup", k, [("all", x) for x in d[1]])
        else:
            full = ("num", k, ("all", t))
        return ("sub", full, gen_term(rng, net, t, vs, rng.randint(1, k), False))
    if r < 0.26 and feat["sca"]:
        return ("sca", rng.choice([1, 2, 3]), gen_term(rng, net, t, vs, 1, feat["all"]))
    return gen_term(rng, net, t, vs, None if feat["w"] else 1, feat["all"])


def arc_vars(a, acc):
    def ce(e):
        if e[0] == "var":
            acc.add(e[1])
        elif e[0] in ("suc", "pre"):
            ce(e[1])
    if a[0] == "num":
        ce(a[2])
    elif a[0] == "tup":
        for e in a[2]:
            ce(e)
    elif a[0] == "add":
        for x in a[1]:
            arc_vars(x, acc)
    elif a[0] == "sub":
        arc_vars(a[1], acc)
        arc_vars(a[2], acc)
    else:
        arc_vars(a[2], acc)
    return acc


def gen_guard(rng, net, vs, depth=2, feat=None):
    r = rng.random()
    if depth and r < 0.4:
        k = rng.choice(["and", "or", "and", "or", "not"])
        if k == "not":
            return ("not", gen_guard(rng, net, vs, depth - 1, feat))
        return (k, [gen_guard(rng, net, vs, depth - 1, feat) for _ in range(rng.choice([1, 2, 2, 2, 3]) if feat and feat["nary"] else 2)])
    cand = [v for v in vs if net.types[net.vars[v][1]][1][0] != "dot"] or list(vs)
    v = rng.choice(cand)
    t = net.vars[v][1]
    a = ("var", v)
    while rng.random() < 0.2 and net.types[t][1][0] != "dot":
        a = (rng.choice(["suc", "pre"]), a)
    b = gen_ce(rng, net, t, vs, con=0.45)
    if rng.random() < 0.5:
        a, b = b, a
    return ("cmp", rng.choice(["eq", "ne", "lt", "le", "gt", "ge", "eq", "ne"]), a, b)


def gen_cnet_raw(rng, inhib=0.0):
    net = CNet()
    simple = gen_types(rng, net)
    feat = {k: rng.random() < p for k, p in (("add", .6), ("sub", .3), ("sca", .2), ("w", .5), ("all", .4), ("nary", .4))}
    for i in range(rng.randint(1, 4)):
        net.vars.append(("x%d" % i, rng.choice(simple)))
    np = rng.randint(2, 6)
    for i in range(np):
        t = rng.randrange(len(net.types))
        m = {}
        cs = net.colours(t)
        r = rng.random()
        if r < 0.25 and len(cs) <= 6:
            k = rng.choice([1, 1, 2])
            m = {c: k for c in cs}
        elif r < 0.75:
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = rng.choice(cs)
                m[c] = m.get(c, 0) + rng.choice([1, 1, 1, 2])
        net.places.append(("P%d" % i, t, m))
    for j in range(rng.randint(1, 6)):
        k = rng.choice([0, 1, 1, 2, 2, 3])
        vs = list(range(len(net.vars)))
        rng.shuffle(vs)
        vs = vs[:max(1, k)]
        ins, outs, inh = {}, {}, {}
        for p in rng.sample(range(np), min(np, rng.choice([1, 1, 1, 2, 2, 3, 0]))):
            ins[p] = gen_arc(rng, net, net.places[p][1], vs, feat)
        for p in rng.sample(range(np), min(np, rng.choice([0, 1, 1, 1, 2, 2]))):
            outs[p] = gen_arc(rng, net, net.places[p][1], vs, feat)
        bound = set()
        for a in ins.values():
            arc_vars(a[1] if a[0] == "sub" else a, bound)
        for p, a in list(outs.items()):
            if a[0] == "sub":                  # what is subtracted is known from the input arcs
                k = a[2][1]
                outs[p] = ("sub", a[1], gen_term(rng, net, net.places[p][1], sorted(bound), k, False))
        if ins and rng.random() < 0.15:        # read arc
            p = rng.choice(list(ins))
            outs[p] = ins[p]
        if rng.random() < inhib:
            c = [p for p in range(np) if p not in ins]
            if c:
                inh[rng.choice(c)] = rng.choice([1, 1, 2, 3])
        if not ins and not outs:
            continue
        net.trans.append(["T%d" % len(net.trans), None, 0])
        net.ins.append(ins)
        net.outs.append(outs)
        net.inh.append(inh)
        used = net.tvars(len(net.trans) - 1)
        if rng.random() < 0.5:
            gv = used if (used and rng.random() < 0.85) else vs
            net.trans[-1][1] = gen_guard(rng, net, gv, rng.choice([0, 1, 2]), feat)
        net.trans[-1] = tuple(net.trans[-1])
    return net


def gen_cnet(rng, limit=400, minstates=2, tries=400, inhib=None, maxvars=None):
    for _ in range(tries):
        net = gen_cnet_raw(rng, inhib if inhib is not None else rng.choice([0, 0, 0.3]))
        if not net.trans:
            continue
        try:
            s = CSpace(net, limit=limit, maxtok=20)
        except (TooBig, ValueError):
            continue
        if len(s.marks) >= minstates:
            return net, s
    raise TooBig()


def partition_ok(net):
    """Colour partitioning is only exercised on these nets: no constants, or the same variable twice, inside
    tuples on input arcs, no differences on input arcs, every variable of an output arc bound by an input arc
    (see 'known limits' of C08 in DESIGN.md)."""
    def bad(a):
        if a[0] == "tup":
            vs = []
            for e in a[2]:
                while e[0] in ("suc", "pre"):
                    e = e[1]
                if e[0] == "con":
                    return True
                if e[0] == "var":
                    vs.append(e[1])
            return len(vs) != len(set(vs))
        if a[0] == "add":
            return any(bad(x) for x in a[1])
        if a[0] == "sca":
            return bad(a[2])
        return a[0] == "sub"
    for ins, outs in zip(net.ins, net.outs):
        bound, used = set(), set()
        for a in ins.values():
            if bad(a):
                return False
            arc_vars(a, bound)
        for a in outs.values():
            arc_vars(a, used)
        if used - bound:
            return False
    return True

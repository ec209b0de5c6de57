"""P/T nets with weights, inhibitor arcs and players: representation, random generation, PNML,
explicit state space, and reference evaluation of queries.  Independent of the code under test."""
import random


class Net:
    __slots__ = ("places", "m0", "trans", "players", "pre", "inh", "post")

    def __init__(self):
        self.places = []
        self.m0 = []
        self.trans = []
        self.players = []
        self.pre = []
        self.inh = []
        self.post = []

    def place(self, m=0, name=None):
        self.places.append(name or "P%d" % len(self.places))
        self.m0.append(m)
        return len(self.places) - 1

    def tr(self, pre=(), post=(), inh=(), player=0, name=None):
        self.trans.append(name or "T%d" % len(self.trans))
        self.players.append(player)
        self.pre.append(dict(pre))
        self.post.append(dict(post))
        self.inh.append(dict(inh))
        return len(self.trans) - 1

    def copy(self):
        n = Net()
        n.places = list(self.places)
        n.m0 = list(self.m0)
        n.trans = list(self.trans)
        n.players = list(self.players)
        n.pre = [dict(d) for d in self.pre]
        n.inh = [dict(d) for d in self.inh]
        n.post = [dict(d) for d in self.post]
        return n

    def enabled(self, m, t):
        for p, w in self.pre[t].items():
            if m[p] < w:
                return False
        for p, w in self.inh[t].items():
            if m[p] >= w:
                return False
        return True

    def fire(self, m, t):
        l = list(m)
        for p, w in self.pre[t].items():
            l[p] -= w
        for p, w in self.post[t].items():
            l[p] += w
        return tuple(l)

    def shuffled(self, rng):
        """Same net with places and transitions declared in another order."""
        n = Net()
        pi = list(range(len(self.places)))
        rng.shuffle(pi)
        pos = {old: new for new, old in enumerate(pi)}
        n.places = [self.places[i] for i in pi]
        n.m0 = [self.m0[i] for i in pi]
        ti = list(range(len(self.trans)))
        rng.shuffle(ti)
        for t in ti:
            n.trans.append(self.trans[t])
            n.players.append(self.players[t])
            for src, dst in ((self.pre, n.pre), (self.inh, n.inh), (self.post, n.post)):
                items = list(src[t].items())
                rng.shuffle(items)
                dst.append({pos[p]: w for p, w in items})
        return n

    def to_pnml(self, rng=None, style=None):
        """style: how weights/inhibitors/marking are spelled (several spellings are accepted)."""
        o = ['<?xml version="1.0" encoding="UTF-8"?>\n<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">\n'
             '<net id="n" type="http://www.pnml.org/version-2009/grammar/ptnet">\n<page id="page0">\n<name><text>n</text></name>\n']
        for i, p in enumerate(self.places):
            if rng and rng.random() < 0.2:
                o.append('<place id="%s" name="%s" initialMarking="%d"/>\n' % (p, p, self.m0[i]))
            elif self.m0[i] or (rng and rng.random() < 0.2):
                o.append('<place id="%s"><graphics><position x="%d" y="%d"/></graphics><name><text>%s</text></name><initialMarking><text>%d</text></initialMarking></place>\n'
                         % (p, 10 * i, 5 * i, p, self.m0[i]))
            else:
                o.append('<place id="%s"><name><text>%s</text></name></place>\n' % (p, p))
        for t, n in enumerate(self.trans):
            pl = ""
            if self.players[t]:
                pl = "<player><value>%d</value></player>" % self.players[t]
            o.append('<transition id="%s"><name><text>%s</text></name>%s</transition>\n' % (n, n, pl))
        k = 0
        arcs = []

        def ins(w):
            r = rng.random() if rng else 0.9
            if r < 0.3:
                return ' weight="%d"' % w, ""
            if w == 1 and r < 0.6:
                return "", ""
            return "", "<inscription><text>%d</text></inscription>" % w

        for t, n in enumerate(self.trans):
            for p, w in self.pre[t].items():
                # an arc may be split into parallel arcs whose weights add up
                parts = [w]
                if rng and w > 1 and rng.random() < 0.2:
                    a = rng.randint(1, w - 1)
                    parts = [a, w - a]
                for q in parts:
                    a, b = ins(q)
                    arcs.append('<arc id="A%%d" source="%s" target="%s"%s>%s</arc>\n' % (self.places[p], n, a, b))
            for p, w in self.inh[t].items():
                a, b = ins(w)
                if rng and rng.random() < 0.5:
                    arcs.append('<inhibitorArc id="A%%d" source="%s" target="%s"%s>%s</inhibitorArc>\n' % (self.places[p], n, a, b))
                else:
                    arcs.append('<arc id="A%%d" source="%s" target="%s" type="inhibitor"%s>%s</arc>\n' % (self.places[p], n, a, b))
            for p, w in self.post[t].items():
                parts = [w]
                if rng and w > 1 and rng.random() < 0.2:
                    a = rng.randint(1, w - 1)
                    parts = [a, w - a]
                for q in parts:
                    a, b = ins(q)
                    arcs.append('<arc id="A%%d" source="%s" target="%s"%s>%s</arc>\n' % (n, self.places[p], a, b))
        if rng and rng.random() < 0.5:
            rng.shuffle(arcs)
        for a in arcs:
            o.append(a % k)
            k += 1
        o.append("</page></net></pnml>\n")
        return "".join(o)


class TooBig(Exception):
    pass


class Space:
    """Explicit reachable state space."""

    def __init__(self, net, limit=2000, maxtok=60):
        self.net = net
        m0 = tuple(net.m0)
        self.index = {m0: 0}
        self.marks = [m0]
        self.succ = []       # list of lists of (t, j)
        nt = len(net.trans)
        pre = [(t, list(net.pre[t].items()), list(net.inh[t].items()),
                [(p, net.post[t].get(p, 0) - net.pre[t].get(p, 0)) for p in set(net.pre[t]) | set(net.post[t])]) for t in range(nt)]
        i = 0
        while i < len(self.marks):
            m = self.marks[i]
            out = []
            for t, ins, inh, eff in pre:
                ok = True
                for p, w in ins:
                    if m[p] < w:
                        ok = False
                        break
                if not ok:
                    continue
                for p, w in inh:
                    if m[p] >= w:
                        ok = False
                        break
                if not ok:
                    continue
                l = list(m)
                for p, d in eff:
                    l[p] += d
                    if l[p] > maxtok:
                        raise TooBig()
                n = tuple(l)
                j = self.index.get(n)
                if j is None:
                    j = len(self.marks)
                    if j >= limit:
                        raise TooBig()
                    self.index[n] = j
                    self.marks.append(n)
                out.append((t, j))
            self.succ.append(out)
            i += 1
        self._pred = None

    def pred(self):
        if self._pred is None:
            self._pred = [[] for _ in self.marks]
            for i, out in enumerate(self.succ):
                for j in {j for _, j in out}:
                    self._pred[j].append(i)
        return self._pred


# ---------------------------------------------------------------- queries
# state formulas: ('true',) ('false',) ('deadlock',) ('fire', [t]) ('cmp', op, e, e) ('not', f)
#   ('and', [f]) ('or', [f]) ('xor', f, f) ('imp', f, f) ('iff', f, f)
# expressions: ('const', n) ('tok', [p]) ('sum', [e]) ('prod', [e]) ('diff', [e])
# CTL: ('EX',f) ('AX',f) ('EF',f) ('AF',f) ('EG',f) ('AG',f) ('EU',f,g) ('AU',f,g)
# LTL (below A/E): ('X',f) ('F',f) ('G',f) ('U',f,g);  ('A',f) ('E',f)

def ev(e, m):
    k = e[0]
    if k == "const":
        return e[1]
    if k == "tok":
        s = 0
        for p in e[1]:
            s += m[p]
        return s
    if k == "sum":
        return sum(ev(x, m) for x in e[1])
    if k == "prod":
        r = 1
        for x in e[1]:
            r *= ev(x, m)
        return r
    if k == "diff":
        if len(e[1]) == 1:
            return -ev(e[1][0], m)
        r = ev(e[1][0], m)
        for x in e[1][1:]:
            r -= ev(x, m)
        return r
    raise ValueError(k)


_OPS = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b,
        "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def atom(f, m, enabled):
    """enabled: set of transition indexes enabled in m"""
    k = f[0]
    if k == "cmp":
        return _OPS[f[1]](ev(f[2], m), ev(f[3], m))
    if k == "fire":
        return any(t in enabled for t in f[1])
    if k == "deadlock":
        return not enabled
    if k == "true":
        return True
    if k == "false":
        return False
    return None


BOOL = {"not", "and", "or", "xor", "imp", "iff"}


def comb(f, vals):
    k = f[0]
    if k == "not":
        return not vals[0]
    if k == "and":
        return all(vals)
    if k == "or":
        return any(vals)
    if k == "xor":
        return vals[0] != vals[1]
    if k == "imp":
        return (not vals[0]) or vals[1]
    if k == "iff":
        return vals[0] == vals[1]


def kids(f):
    k = f[0]
    if k in ("and", "or"):
        return f[1]
    if k in ("true", "false", "deadlock", "fire", "cmp"):
        return []
    return list(f[1:])


def holds(f, m, enabled):
    """state formula in a single marking"""
    if f[0] in BOOL:
        return comb(f, [holds(x, m, enabled) for x in kids(f)])
    return atom(f, m, enabled)


class Checker:
    """Evaluates formulas on an explicit space (CTL with maximal paths; LTL with stuttering of the
    last state of a finite maximal run)."""

    def __init__(self, space):
        self.s = space
        self.n = len(space.marks)
        self.en = [frozenset(t for t, _ in out) for out in space.succ]
        self.nxt = [sorted({j for _, j in out}) for out in space.succ]
        self.memo = {}

    def sat(self, f):
        key = repr(f)
        r = self.memo.get(key)
        if r is None:
            r = self._sat(f)
            self.memo[key] = r
        return r

    def top(self, f):
        return self.sat(f)[0]

    def _sat(self, f):
        k = f[0]
        n = self.n
        if k in ("true", "false", "deadlock", "fire", "cmp"):
            mk = self.s.marks
            return [atom(f, mk[i], self.en[i]) for i in range(n)]
        if k in BOOL:
            vs = [self.sat(x) for x in kids(f)]
            return [comb(f, [v[i] for v in vs]) for i in range(n)]
        if k == "EX":
            a = self.sat(f[1])
            return [any(a[j] for j in self.nxt[i]) for i in range(n)]
        if k == "AX":
            a = self.sat(f[1])
            return [all(a[j] for j in self.nxt[i]) for i in range(n)]
        if k == "EF":
            return self._eu([True] * n, self.sat(f[1]))
        if k == "EU":
            return self._eu(self.sat(f[1]), self.sat(f[2]))
        if k == "AG":
            a = self.sat(f[1])
            return [not x for x in self._eu([True] * n, [not x for x in a])]
        if k == "AF":
            return self._au([True] * n, self.sat(f[1]))
        if k == "AU":
            return self._au(self.sat(f[1]), self.sat(f[2]))
        if k == "EG":
            a = self.sat(f[1])
            return [not x for x in self._au([True] * n, [not x for x in a])]
        if k == "A":
            v = [not x for x in self._epath(("not", f[1]))]
            return v
        if k == "E":
            return self._epath(f[1])
        raise ValueError(k)

    def _eu(self, a, b):
        pred = self.s.pred()
        r = list(b)
        st = [i for i in range(self.n) if r[i]]
        while st:
            j = st.pop()
            for i in pred[j]:
                if not r[i] and a[i]:
                    r[i] = True
                    st.append(i)
        return r

    def _au(self, a, b):
        pred = self.s.pred()
        r = list(b)
        cnt = [len(x) for x in self.nxt]
        st = [i for i in range(self.n) if r[i]]
        while st:
            j = st.pop()
            for i in pred[j]:
                cnt[i] -= 1
                if cnt[i] == 0 and not r[i] and a[i]:
                    r[i] = True
                    st.append(i)
        return r

    # exists a (maximal, stuttering at deadlock) path from each state satisfying the LTL formula
    def _epath(self, f):
        f = ltl_core(f)
        subs = []
        seen = {}

        def collect(g):
            key = repr(g)
            if key in seen:
                return seen[key]
            ids = []
            if g[0] == "prop":
                pass
            elif g[0] in ("and", "or"):
                ids = [collect(x) for x in g[1]]
            else:
                ids = [collect(x) for x in g[1:]]
            if key in seen:
                return seen[key]
            seen[key] = len(subs)
            subs.append((g, ids))
            return seen[key]

        top = collect(f)
        elem = [i for i, (g, _) in enumerate(subs) if g[0] in ("X", "U")]
        epos = {i: b for b, i in enumerate(elem)}
        ne = len(elem)
        if ne > 7:
            raise TooBig()
        props = {i: self.sat(g[1]) for i, (g, _) in enumerate(subs) if g[0] == "prop"}
        nb = 1 << ne
        if nb * self.n > 60000:
            raise TooBig()
        truth = {}

        def val(s, b):
            """truth of every subformula at node (s,b)"""
            v = [False] * len(subs)
            for i, (g, ids) in enumerate(subs):
                k = g[0]
                if k == "prop":
                    v[i] = props[i][s]
                elif k == "not":
                    v[i] = not v[ids[0]]
                elif k == "and":
                    v[i] = all(v[x] for x in ids)
                elif k == "or":
                    v[i] = any(v[x] for x in ids)
                elif k == "X":
                    v[i] = bool(b >> epos[i] & 1)
                elif k == "U":
                    v[i] = v[ids[1]] or (v[ids[0]] and bool(b >> epos[i] & 1))
            return v

        # node (s,b): id = s*nb+b.  b of the predecessor is determined by the successor.
        need = [0] * (self.n * nb)
        toptrue = [False] * (self.n * nb)
        fair = [0] * (self.n * nb)
        us = [i for i in elem if subs[i][0][0] == "U"]
        cache = {}
        for s in range(self.n):
            pk = tuple(props[i][s] for i in sorted(props))
            for b in range(nb):
                c = cache.get((pk, b))
                if c is None:
                    v = val(s, b)
                    req = 0
                    for i in elem:
                        g, ids = subs[i]
                        # X g: the bit says g holds next; U: the bit says the until holds next
                        x = v[ids[0]] if g[0] == "X" else v[i]
                        if x:
                            req |= 1 << epos[i]
                    fm = 0
                    for q, i in enumerate(us):
                        if (not v[i]) or v[subs[i][1][1]]:
                            fm |= 1 << q
                    c = (req, v[top], fm)
                    cache[(pk, b)] = c
                need[s * nb + b], toptrue[s * nb + b], fair[s * nb + b] = c
        full = (1 << len(us)) - 1
        pred = self.s.pred()
        # predecessors of (s',b') are (s, need(s',b')) for every s -> s'
        N = self.n * nb
        gpred = [None] * N
        for s2 in range(self.n):
            ps = pred[s2]
            if not self.nxt[s2]:
                ps = ps + [s2]
            for b2 in range(nb):
                nd = need[s2 * nb + b2]
                gpred[s2 * nb + b2] = [s * nb + nd for s in ps]
        # SCCs of the reversed graph are the same
        good = [False] * N
        comp = scc(gpred)
        for c in comp:
            if len(c) == 1 and c[0] not in gpred[c[0]]:
                continue
            m = 0
            for x in c:
                m |= fair[x]
            if m == full:
                for x in c:
                    good[x] = True
        st = [i for i in range(N) if good[i]]
        while st:
            j = st.pop()
            for i in gpred[j]:
                if not good[i]:
                    good[i] = True
                    st.append(i)
        return [any(good[s * nb + b] and toptrue[s * nb + b] for b in range(nb)) for s in range(self.n)]


TEMP = {"X", "F", "G", "U"}


def is_state(f):
    if f[0] in TEMP:
        return False
    if f[0] in ("A", "E"):
        return True
    return all(is_state(x) for x in kids(f))


def ltl_core(f):
    k = f[0]
    if is_state(f):
        return ("prop", f)
    if k == "not":
        return ("not", ltl_core(f[1]))
    if k in ("and", "or"):
        return (k, [ltl_core(x) for x in f[1]])
    if k == "imp":
        return ("or", [("not", ltl_core(f[1])), ltl_core(f[2])])
    if k == "iff":
        a, b = ltl_core(f[1]), ltl_core(f[2])
        return ("or", [("and", [a, b]), ("and", [("not", a), ("not", b)])])
    if k == "xor":
        a, b = ltl_core(f[1]), ltl_core(f[2])
        return ("or", [("and", [a, ("not", b)]), ("and", [("not", a), b])])
    if k == "X":
        return ("X", ltl_core(f[1]))
    if k == "F":
        return ("U", ("prop", ("true",)), ltl_core(f[1]))
    if k == "G":
        return ("not", ("U", ("prop", ("true",)), ("not", ltl_core(f[1]))))
    if k == "U":
        return ("U", ltl_core(f[1]), ltl_core(f[2]))
    raise ValueError(k)


def scc(adj):
    """Tarjan, iterative."""
    n = len(adj)
    idx = [0] * n
    low = [0] * n
    onst = [False] * n
    st = []
    out = []
    c = 1
    for r in range(n):
        if idx[r]:
            continue
        work = [(r, 0)]
        while work:
            v, i = work[-1]
            if i == 0:
                idx[v] = low[v] = c
                c += 1
                st.append(v)
                onst[v] = True
            a = adj[v]
            adv = False
            while i < len(a):
                w = a[i]
                i += 1
                if not idx[w]:
                    work[-1] = (v, i)
                    work.append((w, 0))
                    adv = True
                    break
                elif onst[w]:
                    if idx[w] < low[v]:
                        low[v] = idx[w]
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                if low[v] < low[u]:
                    low[u] = low[v]
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst[w] = False
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out


# ---------------------------------------------------------------- XML queries
def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def xe(e, net):
    k = e[0]
    if k == "const":
        return "<integer-constant>%d</integer-constant>" % e[1]
    if k == "tok":
        return "<tokens-count>%s</tokens-count>" % "".join("<place>%s</place>" % esc(net.places[p]) for p in e[1])
    tag = {"sum": "integer-sum", "prod": "integer-product", "diff": "integer-difference"}[k]
    return "<%s>%s</%s>" % (tag, "".join(xe(x, net) for x in e[1]), tag)


def xf(f, net):
    k = f[0]
    if k in ("true", "false", "deadlock"):
        return "<%s/>" % k
    if k == "fire":
        return "<is-fireable>%s</is-fireable>" % "".join("<transition>%s</transition>" % esc(net.trans[t]) for t in f[1])
    if k == "cmp":
        return "<integer-%s>%s%s</integer-%s>" % (f[1], xe(f[2], net), xe(f[3], net), f[1])
    if k == "not":
        return "<negation>%s</negation>" % xf(f[1], net)
    if k in ("and", "or", "xor", "imp", "iff"):
        tag = {"and": "conjunction", "or": "disjunction", "xor": "exclusive-disjunction", "imp": "implication", "iff": "equivalence"}[k]
        return "<%s>%s</%s>" % (tag, "".join(xf(x, net) for x in kids(f)), tag)
    if k in ("A", "E"):
        tag = "all-paths" if k == "A" else "exists-path"
        return "<%s>%s</%s>" % (tag, xf(f[1], net), tag)
    if k == "X":
        return "<next>%s</next>" % xf(f[1], net)
    if k == "F":
        return "<finally>%s</finally>" % xf(f[1], net)
    if k == "G":
        return "<globally>%s</globally>" % xf(f[1], net)
    if k == "U":
        return "<until><before>%s</before><reach>%s</reach></until>" % (xf(f[1], net), xf(f[2], net))
    if k in ("EX", "AX", "EF", "AF", "EG", "AG"):
        return xf((k[0], (k[1], f[1])), net)
    if k in ("EU", "AU"):
        return xf((k[0], ("U", f[1], f[2])), net)
    if k == "control":
        return "<control>%s</control>" % xf(f[1], net)
    raise ValueError(k)


def queries_xml(fs, net, names=None, raw=None):
    o = ['<?xml version="1.0"?>\n<property-set xmlns="http://mcc.lip6.fr/">\n']
    for i, f in enumerate(fs):
        body = f if isinstance(f, str) else xf(f, net)
        o.append("<property><id>%s</id><description>q</description><formula>%s</formula></property>\n" % (names[i] if names else "Q%d" % i, body))
    o.append("</property-set>\n")
    return "".join(o)


# ---------------------------------------------------------------- text queries
def te(e, net):
    k = e[0]
    if k == "const":
        return str(e[1]) if e[1] >= 0 else "(0 - %d)" % -e[1]
    if k == "tok":
        if len(e[1]) == 1:
            return '"%s"' % net.places[e[1][0]]
        return "(" + " + ".join('"%s"' % net.places[p] for p in e[1]) + ")"
    if k == "diff" and len(e[1]) == 1:
        return "(0 - %s)" % te(e[1][0], net)
    op = {"sum": " + ", "prod": " * ", "diff": " - "}[k]
    return "(" + op.join(te(x, net) for x in e[1]) + ")"


def tf(f, net):
    """fully parenthesised textual form"""
    k = f[0]
    if k in ("true", "false", "deadlock"):
        return k
    if k == "fire":
        return "(" + " or ".join('"%s"?' % net.trans[t] for t in f[1]) + ")"
    if k == "cmp":
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[f[1]]
        return "(%s %s %s)" % (te(f[2], net), op, te(f[3], net))
    if k == "not":
        return "(not %s)" % tf(f[1], net)
    if k in ("and", "or"):
        return "(" + (" %s " % k).join(tf(x, net) for x in f[1]) + ")"
    if k == "imp":
        return tf(("or", [("not", f[1]), f[2]]), net)
    if k == "iff":
        return tf(("or", [("and", [f[1], f[2]]), ("and", [("not", f[1]), ("not", f[2])])]), net)
    if k == "xor":
        return tf(("or", [("and", [f[1], ("not", f[2])]), ("and", [("not", f[1]), f[2]])]), net)
    if k in ("EX", "AX", "EF", "AF", "EG", "AG"):
        return "(%s %s)" % (k, tf(f[1], net))
    if k in ("EU", "AU"):
        return "(%s (%s U %s))" % (k[0], tf(f[1], net), tf(f[2], net))
    if k in ("A", "E"):
        return "(%s %s)" % (k, tf(f[1], net))
    if k in ("X", "F", "G"):
        return "(%s %s)" % (k, tf(f[1], net))
    if k == "U":
        return "(%s U %s)" % (tf(f[1], net), tf(f[2], net))
    raise ValueError(k)


# ---------------------------------------------------------------- generators
def rnd_weight(rng):
    r = rng.random()
    return 1 if r < 0.72 else (2 if r < 0.93 else 3)


def gen_random(rng, np=None, nt=None, inhib=None):
    n = Net()
    if inhib is None:
        inhib = rng.choice([0, 0.1, 0.1, 0.15, 0.5])
    np = np or rng.randint(2, 6)
    nt = nt or rng.randint(2, 6)
    for _ in range(np):
        n.place(rng.choice([0, 0, 0, 1, 1, 2, 3]))
    for _ in range(nt):
        pre, post, inh = {}, {}, {}
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]) if rng.random() < 0.9 else 0):
            pre[rng.randrange(np)] = rnd_weight(rng)
        if not pre and rng.random() < 0.8:
            pre[rng.randrange(np)] = 1
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2])):
            post[rng.randrange(np)] = rnd_weight(rng)
        if rng.random() < 0.15:          # read arc
            p = rng.randrange(np)
            w = rnd_weight(rng)
            pre[p] = w
            post[p] = w
        if rng.random() < inhib:
            p = rng.randrange(np)
            if p not in pre:
                inh[p] = rng.choice([1, 1, 2, 3])
        n.tr(pre, post, inh)
    return n


def gen_small(rng):
    """one to three transitions: marked sinks, sources, self loops and guards stay visible"""
    n = Net()
    np = rng.randint(1, 4)
    for _ in range(np):
        n.place(rng.choice([0, 1, 1, 2, 3]))
    for _ in range(rng.choice([1, 2, 2, 3, 3])):
        pre = {p: rng.choice([1, 1, 2]) for p in rng.sample(range(np), min(np, rng.choice([0, 1, 1, 1, 2])))}
        post = {p: rng.choice([1, 1, 2]) for p in rng.sample(range(np), min(np, rng.choice([0, 0, 1, 1, 2])))}
        if rng.random() < 0.2:
            p = rng.randrange(np)
            pre[p] = post[p] = rng.choice([1, 2])
        inh = {p: rng.choice([1, 2, 3, 4]) for p in range(np) if p not in pre and rng.random() < 0.2}
        n.tr(pre, post, inh)
    return n


def gen_conservative(rng):
    """token-preserving random net (state machine with synchronisations): always bounded"""
    n = Net()
    inhib = rng.choice([0, 0.1, 0.1, 0.15, 0.5])
    np = rng.randint(3, 8)
    for _ in range(np):
        n.place(rng.choice([0, 0, 1, 1, 2]))
    for _ in range(rng.randint(2, 8)):
        k = rng.choice([1, 1, 1, 2, 2, 3])
        pre, post, inh = {}, {}, {}
        for _ in range(k):
            p = rng.randrange(np)
            pre[p] = pre.get(p, 0) + 1
        for _ in range(k if rng.random() < 0.85 else max(0, k - 1)):
            p = rng.randrange(np)
            post[p] = post.get(p, 0) + 1
        if rng.random() < inhib:
            p = rng.randrange(np)
            if p not in pre:
                inh[p] = rng.randint(1, 3)
        n.tr(pre, post, inh)
    return n


def gen_components(rng):
    """parallel cycles sharing resources: concurrency for partial-order reduction"""
    n = Net()
    res = [n.place(rng.choice([1, 1, 2, 0])) for _ in range(rng.randint(0, 2))]
    for c in range(rng.randint(2, 4)):
        ln = rng.randint(1, 4)
        ps = [n.place(rng.choice([1, 2]) if i == 0 else 0) for i in range(ln)]
        cyc = rng.random() < 0.6
        for i in range(ln if cyc else ln - 1 if ln > 1 else 1):
            pre = {ps[i]: 1}
            post = {}
            if i + 1 < ln or cyc:
                post[ps[(i + 1) % ln]] = 1
            inh = {}
            if res and rng.random() < 0.5:
                r = rng.choice(res)
                x = rng.random()
                if x < 0.4:
                    pre[r] = pre.get(r, 0) + 1
                elif x < 0.8:
                    post[r] = post.get(r, 0) + 1
                elif x < 0.9:
                    pre[r] = pre.get(r, 0) + 1
                    post[r] = post.get(r, 0) + 1
                else:
                    if r not in pre:
                        inh[r] = 1
            if rng.random() < 0.1 and len(n.places) > 2:
                p = rng.randrange(len(n.places))
                if p not in pre and p not in inh:
                    inh[p] = 1
            n.tr(pre, post, inh)
        if rng.random() < 0.3:
            a, b = rng.choice(ps), rng.randrange(len(n.places))
            n.tr({a: 1}, {b: 1} if rng.random() < 0.8 else {})
    return n


def decorate(rng, n, k=None):
    """adds structure that net reductions look for, by reversing reduction rules"""
    k = rng.randint(1, 5) if k is None else k
    for _ in range(k):
        x = rng.randrange(14)
        np, nt = len(n.places), len(n.trans)
        if np == 0 or nt == 0:
            return n
        if x == 0:      # sequential transitions: split t by an intermediate place
            t = rng.randrange(nt)
            q = n.place(rng.choice([0, 0, 0, 1]))
            w = rng.choice([1, 1, 1, 2])
            n.tr({q: w}, n.post[t])
            n.post[t] = {q: w * rng.choice([1, 1, 1, 2])}
        elif x == 1:    # sequential places p -> t -> q
            p = rng.randrange(np)
            q = n.place(rng.choice([0, 0, 1]))
            cons = [t for t in range(nt) if p in n.pre[t]]
            for t in cons:
                if rng.random() < 0.8:
                    if q not in n.inh[t]:
                        n.pre[t][q] = n.pre[t].pop(p)
            n.tr({p: 1}, {q: 1})
        elif x == 2:    # parallel place
            p = rng.randrange(np)
            q = n.place(n.m0[p] if rng.random() < 0.7 else n.m0[p] + rng.randint(0, 2))
            f = rng.choice([1, 1, 1, 2])
            for t in range(nt):
                if p in n.pre[t]:
                    n.pre[t][q] = n.pre[t][p] * f
                if p in n.post[t]:
                    n.post[t][q] = n.post[t][p] * f
            n.m0[q] *= f
        elif x == 3:    # parallel transition (possibly a multiple)
            t = rng.randrange(nt)
            f = rng.choice([1, 1, 1, 2])
            n.tr({p: w * f for p, w in n.pre[t].items()}, {p: w * f for p, w in n.post[t].items()}, n.inh[t])
        elif x == 4:    # sink place
            q = n.place(rng.choice([0, 0, 1]))
            for t in rng.sample(range(nt), min(nt, rng.randint(1, 2))):
                if rng.random() < 0.5:
                    n.post[t][q] = 1
        elif x == 5:    # constant read place
            q = n.place(rng.randint(1, 2))
            t = rng.randrange(nt)
            n.pre[t][q] = 1
            n.post[t][q] = 1
        elif x == 6:    # dead transition / unmarked siphon
            q = n.place(0)
            r = n.place(0)
            n.tr({q: 1}, {r: 1})
            n.tr({r: 1}, {q: 1, rng.randrange(np): 1})
        elif x == 7:    # self-loop transition
            p = rng.randrange(np)
            n.tr({p: 1}, {p: 1})
        elif x == 8:    # never-relevant tail
            p = rng.randrange(np)
            q = n.place(0)
            n.tr({p: 1}, {q: 1})
            n.tr({q: 1}, {})
        elif x == 9:    # inhibitor that never/always blocks
            q = n.place(rng.choice([0, 0, 1]))
            t = rng.randrange(nt)
            if q not in n.pre[t]:
                n.inh[t][q] = rng.choice([1, 2])
        elif x == 10:   # place with enough tokens never to constrain
            q = n.place(rng.randint(2, 4))
            for t in rng.sample(range(nt), min(nt, 2)):
                n.pre[t][q] = 1
                if rng.random() < 0.8:
                    n.post[t][q] = 1
        elif x == 11:   # free-choice agglomeration: place with several producers and consumers
            q = n.place(rng.choice([0, 0, 0, 1]))
            prods = rng.sample(range(nt), min(nt, rng.randint(1, 2)))
            for t in prods:
                n.post[t][q] = 1
            for _ in range(rng.randint(1, 3)):
                n.tr({q: 1}, {rng.randrange(np): 1} if rng.random() < 0.8 else {})
        elif x == 12:   # cycle of 1-1 transitions
            p = rng.randrange(np)
            q = n.place(0)
            r = n.place(0)
            n.tr({p: 1}, {q: 1})
            n.tr({q: 1}, {r: 1})
            n.tr({r: 1}, {p: 1})
        elif x == 13:   # implicit place = sum of two
            a, b = rng.randrange(np), rng.randrange(np)
            if a != b:
                q = n.place(n.m0[a] + n.m0[b])
                for t in range(nt):
                    w = n.pre[t].get(a, 0) + n.pre[t].get(b, 0)
                    if w:
                        n.pre[t][q] = w
                    w = n.post[t].get(a, 0) + n.post[t].get(b, 0)
                    if w:
                        n.post[t][q] = w
    for t in range(len(n.trans)):
        for p in list(n.inh[t]):
            if p in n.pre[t]:
                del n.inh[t][p]
    return n


def add_batch(rng, n):
    """a place filled in batches by transitions that do nothing else, and emptied in smaller portions"""
    np = len(n.places)
    q = n.place(rng.choice([0, 0, 0, 0, 1]))
    w = rng.choice([1, 1, 1, 2])
    for _ in range(rng.choice([1, 1, 2])):
        a = n.place(rng.randint(1, 2)) if rng.random() < 0.4 else rng.randrange(np)
        n.tr({a: rng.choice([1, 1, 2])}, {q: w * rng.randint(1, 3)})
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        pre = {q: w if rng.random() < 0.8 else rng.randint(1, 3)}
        if rng.random() < 0.15:
            pre[rng.randrange(np)] = 1
        n.tr(pre, {rng.randrange(np): rng.randint(1, 2) for _ in range(rng.choice([0, 1, 1, 1, 2]))})
    return n


def gen_net(rng, limit=600, decor=0.5, minstates=2, tries=200, kind=None, batch=0):
    """a net with a reachable space of at most `limit` markings; returns (net, space)"""
    for i in range(tries):
        g = kind or rng.choice([gen_random, gen_conservative, gen_components, gen_small])
        n = g(rng)
        if rng.random() < decor:
            decorate(rng, n)
        if batch and rng.random() < batch:
            add_batch(rng, n)
        if rng.random() < 0.3:
            n = n.shuffled(rng)
        try:
            s = Space(n, limit)
        except TooBig:
            continue
        if len(s.marks) < (2 if g is gen_small else minstates) and rng.random() < 0.95:
            continue
        return n, s
    raise RuntimeError("no net")


def gen_expr(rng, net, depth=2, used=None):
    r = rng.random()
    np = len(net.places)
    if depth == 0 or r < 0.55:
        k = 1 if rng.random() < 0.7 else rng.randint(1, min(3, np))
        return ("tok", rng.sample(range(np), k))
    if r < 0.62:
        return ("const", rng.randint(0, 3))
    if r < 0.80:
        return ("sum", [gen_expr(rng, net, depth - 1) for _ in range(rng.randint(2, 3))])
    if r < 0.86:
        return ("prod", [("const", rng.randint(0 if rng.random() < 0.2 else 1, 3)), gen_expr(rng, net, depth - 1)])
    if r < 0.91:
        return ("prod", [gen_expr(rng, net, depth - 1) for _ in range(2)])
    return ("diff", [gen_expr(rng, net, depth - 1) for _ in range(2)])


def gen_cmp(rng, net, space=None, depth=1):
    e = gen_expr(rng, net, depth)
    op = rng.choice(["eq", "ne", "lt", "le", "gt", "ge"])
    r = rng.random()
    if r < 0.2:
        return ("cmp", op, e, gen_expr(rng, net, depth))
    if r < 0.26:
        # both sides mention the same subexpression
        o = rng.choice(["sum", "prod"])
        a, b = (gen_expr(rng, net, 0) if rng.random() < 0.6 else ("const", rng.randint(0, 3)) for _ in range(2))
        return ("cmp", op, (o, [e, a]), (o, [e, b]))
    if space is not None:
        c = ev(e, rng.choice(space.marks)) + rng.choice([0, 0, 0, 1, -1])
    else:
        c = rng.randint(0, 3)
    if c < 0:
        c = 0
    if rng.random() < 0.75:
        return ("cmp", op, e, ("const", c))
    return ("cmp", op, ("const", c), e)


def gen_state(rng, net, space=None, depth=2, deadlock=0.06, fire=0.2, const=0.03):
    r = rng.random()
    if depth == 0 or r < 0.35:
        r = rng.random()
        if r < fire and net.trans:
            return ("fire", rng.sample(range(len(net.trans)), 1 if rng.random() < 0.7 else min(2, len(net.trans))))
        if r < fire + deadlock:
            return ("deadlock",)
        if r < fire + deadlock + const:
            return (rng.choice(["true", "false"]),)
        return gen_cmp(rng, net, space)
    if r < 0.45 and space is not None:
        # a (part of a) reachable marking, possibly perturbed
        m = rng.choice(space.marks)
        ps = rng.sample(range(len(m)), rng.randint(1, min(3, len(m))))
        if rng.random() < 0.4:
            # ranges around it, the bounds of a place given apart
            l = []
            for p in ps[:2]:
                if rng.random() < 0.8:
                    l.append(("cmp", "ge", ("tok", [p]), ("const", max(0, m[p] - rng.choice([0, 0, 1, 2])))))
                if rng.random() < 0.8:
                    l.append(("cmp", "le", ("tok", [p]), ("const", m[p] + rng.choice([0, 0, 1, 2]))))
            if len(l) > 1:
                return ("and", l)
        return ("and", [("cmp", rng.choice(["eq", "eq", "ge", "le"]), ("tok", [p]), ("const", max(0, m[p] + rng.choice([0, 0, 0, 0, 1, -1])))) for p in ps])
    if r < 0.55:
        return ("not", gen_state(rng, net, space, depth - 1, deadlock, fire, const))
    if r < 0.75:
        return ("and", [gen_state(rng, net, space, depth - 1, deadlock, fire, const) for _ in range(rng.randint(2, 3))])
    if r < 0.93:
        return ("or", [gen_state(rng, net, space, depth - 1, deadlock, fire, const) for _ in range(rng.randint(2, 3))])
    return (rng.choice(["xor", "imp", "iff"]), gen_state(rng, net, space, depth - 1, deadlock, fire, const), gen_state(rng, net, space, depth - 1, deadlock, fire, const))


def pin(rng, m):
    """holds in marking m (and in few others)"""
    ps = list(range(len(m)))
    if rng.random() < 0.3 and len(ps) > 1:
        ps = rng.sample(ps, len(ps) - 1)
    return ("and", [("cmp", "eq", ("tok", [p]), ("const", m[p])) for p in ps]) if len(ps) > 1 else ("cmp", "eq", ("tok", [ps[0]]), ("const", m[ps[0]]))


def gen_pinned(rng, net, space):
    """what an atom says in one reachable marking"""
    m = rng.choice(space.marks)
    x = rng.random()
    if x < 0.4:
        a = ("deadlock",)
    elif x < 0.7 and net.trans:
        a = ("fire", rng.sample(range(len(net.trans)), 1 if rng.random() < 0.7 else min(2, len(net.trans))))
    else:
        a = gen_cmp(rng, net, space)
    if rng.random() < 0.5:
        a = ("not", a)
    if rng.random() < 0.5:
        return ("EF", ("and", [pin(rng, m), a]))
    return ("AG", ("or", [("not", pin(rng, m)), a]))


def gen_reach(rng, net, space=None, depth=2, **kw):
    if space is not None and rng.random() < 0.2:
        return gen_pinned(rng, net, space)
    f = gen_state(rng, net, space, depth, **kw)
    r = rng.random()
    if r < 0.45:
        return ("EF", f)
    if r < 0.85:
        return ("AG", f)
    if r < 0.93:
        return ("not", ("EF", f))
    return ("not", ("AG", f))


def gen_ctl(rng, net, space=None, depth=3, **kw):
    r = rng.random()
    if depth == 0 or r < 0.12:
        return gen_state(rng, net, space, 1, **kw)
    if r < 0.22:
        return ("not", gen_ctl(rng, net, space, depth - 1, **kw))
    if r < 0.38:
        return (rng.choice(["and", "or"]), [gen_ctl(rng, net, space, depth - 1, **kw) for _ in range(2)])
    if r < 0.85:
        return (rng.choice(["EX", "AX", "EF", "AF", "EG", "AG"]), gen_ctl(rng, net, space, depth - 1, **kw))
    return (rng.choice(["EU", "AU"]), gen_ctl(rng, net, space, depth - 1, **kw), gen_ctl(rng, net, space, depth - 1, **kw))


def gen_ctl_top(rng, net, space=None, depth=3, **kw):
    """a CTL formula whose top is temporal (or boolean over temporal)"""
    while True:
        f = gen_ctl(rng, net, space, depth, **kw)
        if has_temporal(f):
            return f


def has_temporal(f):
    if f[0] in ("EX", "AX", "EF", "AF", "EG", "AG", "EU", "AU", "X", "F", "G", "U", "A", "E"):
        return True
    return any(has_temporal(x) for x in kids(f))


def gen_path(rng, net, space=None, depth=3, nox=False, **kw):
    r = rng.random()
    if depth == 0 or r < 0.1:
        return gen_state(rng, net, space, 1, **kw)
    if r < 0.18:
        return ("not", gen_path(rng, net, space, depth - 1, nox, **kw))
    if r < 0.38:
        return (rng.choice(["and", "or"]), [gen_path(rng, net, space, depth - 1, nox, **kw) for _ in range(2)])
    if r < 0.80:
        return (rng.choice(["F", "G", "F", "G"] + ([] if nox else ["X"])), gen_path(rng, net, space, depth - 1, nox, **kw))
    return ("U", gen_path(rng, net, space, depth - 1, nox, **kw), gen_path(rng, net, space, depth - 1, nox, **kw))


def gen_ltl(rng, net, space=None, depth=3, **kw):
    nox = rng.random() < 0.5
    while True:
        f = gen_path(rng, net, space, depth, nox, **kw)
        if has_temporal(f):
            return (rng.choice(["A", "A", "E"]), f)

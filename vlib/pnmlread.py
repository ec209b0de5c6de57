"""An independent reader of P/T PNML documents (written by the tool)."""
import xml.etree.ElementTree as ET
from pn import Net


class Bad(Exception):
    pass


def tag(e):
    return e.tag.rsplit("}", 1)[-1]


def num(e, what):
    """the number in the text (or value) child of child `what` of e, or None"""
    for ch in e:
        if tag(ch) == what:
            for x in ch:
                if tag(x) in ("text", "value"):
                    return int(x.text.strip())
            raise Bad("empty " + what)
    return None


def read(data):
    """-> (Net, {name: (x, y)})"""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Bad("not XML: %s" % e)
    if tag(root) != "pnml":
        raise Bad("root is " + root.tag)
    n = Net()
    pos, place, trans, arcs = {}, {}, {}, []

    def position(e):
        for g in e:
            if tag(g) == "graphics":
                for q in g:
                    if tag(q) == "position":
                        return float(q.get("x")), float(q.get("y"))
        return 0.0, 0.0

    for e in root.iter():
        k = tag(e)
        if k == "place":
            i = e.get("id")
            if i in place or i in trans:
                raise Bad("id %s twice" % i)
            m = num(e, "initialMarking")
            place[i] = n.place(int(e.get("initialMarking") or 0) if m is None else m, i)
            pos[i] = position(e)
        elif k == "transition":
            i = e.get("id")
            if i in place or i in trans:
                raise Bad("id %s twice" % i)
            pl = num(e, "player")
            trans[i] = n.tr(name=i, player=int(e.get("player") or 0) if pl is None else pl)
            pos[i] = position(e)
        elif k in ("arc", "inhibitorArc", "inputArc", "outputArc"):
            arcs.append(e)
    for e in arcs:
        s, t = e.get("source"), e.get("target")
        w = num(e, "inscription")
        if w is None:
            w = int(e.get("weight") or 1)
        if w <= 0:
            raise Bad("weight %d" % w)
        inh = tag(e) == "inhibitorArc" or e.get("type") == "inhibitor"
        if s in place and t in trans:
            d = (n.inh if inh else n.pre)[trans[t]]
            d[place[s]] = min(d.get(place[s], w), w) if inh else d.get(place[s], 0) + w
        elif s in trans and t in place and not inh:
            d = n.post[trans[s]]
            d[place[t]] = d.get(place[t], 0) + w
        else:
            raise Bad("arc from %s to %s" % (s, t))
    return n, pos


def canon(n, players=True):
    """the net independent of the order of declaration"""
    def d(x):
        return tuple(sorted((n.places[p], w) for p, w in x.items()))
    return (tuple(sorted(zip(n.places, n.m0))),
            tuple(sorted((n.trans[t], n.players[t] if players else 0, d(n.pre[t]), d(n.inh[t]), d(n.post[t])) for t in range(len(n.trans)))))


def styled(net, rng):
    """The net in one of many spellings PNML allows -> (document, positions)."""
    pos = {}

    def gr(name, p=0.6):
        if rng.random() > p:
            pos[name] = (0.0, 0.0)
            return ""
        pos[name] = (float(rng.randint(-500, 999)), rng.choice([float(rng.randint(0, 500)), rng.randint(0, 999) / 4.0]))
        return "<graphics><position x=\"%g\" y=\"%g\"/></graphics>" % pos[name]

    def val(s, space=True):
        s = str(s)
        t = rng.choice(["text", "text", "value"])
        return "<%s>%s</%s>" % (t, s, t)

    def mix(parts):
        parts = [p for p in parts if p]
        rng.shuffle(parts)
        return rng.choice(["", "\n", " "]).join(parts)

    items = []
    for i, p in enumerate(net.places):
        a, kid = "", ""
        if net.m0[i] or rng.random() < 0.3:
            r = rng.random()
            if r < 0.3:
                a = ' initialMarking="%d"' % net.m0[i]
            else:
                kid = "<initialMarking>%s</initialMarking>" % mix([val(net.m0[i]), rng.choice(["", "<graphics><offset x=\"3\" y=\"4\"/></graphics>", "<toolspecific tool=\"x\" version=\"1\"/>"])])
        items.append("<place id=\"%s\"%s>%s</place>" % (p, a, mix([gr(p), kid, rng.choice(["", "<name>%s</name>" % val("name of " + p)])])))
    for t, n in enumerate(net.trans):
        a, kid = "", ""
        if net.players[t] or rng.random() < 0.3:
            if rng.random() < 0.4:
                a = ' player="%d"' % net.players[t]
            else:
                kid = "<player>%s</player>" % val(net.players[t])
        items.append("<transition id=\"%s\"%s>%s</transition>" % (n, a, mix([gr(n), kid, rng.choice(["", "<name>%s</name>" % val(n)])])))
    k = [0]

    def arc(tagname, s, t, w, extra=""):
        k[0] += 1
        if w == 1 and rng.random() < 0.5:
            a, b = "", ""
        elif rng.random() < 0.4:
            a, b = ' weight="%d"' % w, ""
        else:
            a, b = "", "<inscription>%s</inscription>" % mix([val(w), rng.choice(["", "<graphics><offset x=\"1\" y=\"0\"/></graphics>"])])
        if a and rng.random() < 0.3:
            b = "<name>%s</name>" % val("arc")
        return "<%s id=\"arc%d\" source=\"%s\" target=\"%s\"%s%s>%s</%s>" % (tagname, k[0], s, t, extra, a, b, tagname)

    def split(w):
        out = []
        while w > 1 and rng.random() < 0.3:
            x = rng.randint(1, w - 1)
            out.append(x)
            w -= x
        return out + [w]

    for t, n in enumerate(net.trans):
        pre, post = dict(net.pre[t]), dict(net.post[t])
        if rng.random() < 0.15:
            for p in list(pre):
                if post and rng.random() < 0.5:
                    q = rng.choice(list(post))
                    w = min(pre[p], post[q])
                    ins = "" if w == 1 and rng.random() < 0.5 else "<inscription>%s</inscription>" % val(w)
                    items.append("<transportArc id=\"tr%d\" source=\"%s\" transition=\"%s\" target=\"%s\">%s</transportArc>" % (k[0], net.places[p], n, net.places[q], ins))
                    k[0] += 1
                    for d, x in ((pre, p), (post, q)):
                        d[x] -= w
                        if not d[x]:
                            del d[x]
        for p, w in pre.items():
            for x in split(w):
                items.append(arc(rng.choice(["arc", "arc", "inputArc"]), net.places[p], n, x, rng.choice(["", "", ' type="normal"'])))
        for p, w in net.inh[t].items():
            if rng.random() < 0.5:
                items.append(arc("inhibitorArc", net.places[p], n, w))
            else:
                items.append(arc("arc", net.places[p], n, w, ' type="inhibitor"'))
        for p, w in post.items():
            for x in split(w):
                items.append(arc(rng.choice(["arc", "arc", "outputArc"]), n, net.places[p], x, rng.choice(["", "", ' type="normal"'])))
    if rng.random() < 0.6:
        rng.shuffle(items)
    # pages, possibly nested
    depth = rng.choice([0, 1, 1, 2, 3])
    body = items
    for j in range(depth):
        cut = rng.randint(0, len(body))
        inner = ["<page id=\"page%d\">%s" % (j, rng.choice(["", "<name><text>p</text></name>"]))] + body[cut:] + ["</page>"]
        body = body[:cut] + inner
        if rng.random() < 0.3:
            body = ["<page id=\"empty%d\"/>" % j] + body
    doc = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n', '<?xml version="1.0"?>', "", "<?xml version='1.0'?>\n<!-- a comment -->\n"])
    doc += rng.choice(['<pnml xmlns="http://www.pnml.org/version-2009/grammar/pnml">', "<pnml>"])
    doc += '<net id="n" type="http://www.pnml.org/version-2009/grammar/ptnet">' + rng.choice(["", "<name><text>the net</text></name>"])
    sep = rng.choice(["\n", "", " ", "\n<!-- x -->\n"])
    doc += sep.join(body) + "</net></pnml>" + rng.choice(["", "\n"])
    return doc, pos

"""Independent reader of XML queries (MCC notation) into the formulas of pn.py."""
import xml.etree.ElementTree as ET


class Bad(Exception):
    pass


def _tag(e):
    return e.tag.split("}")[-1]


def expr(e, P):
    k = _tag(e)
    if k == "integer-constant":
        return ("const", int(e.text))
    if k == "tokens-count":
        ps = [P[(x.text or "").strip()] for x in e]
        if not ps or any(_tag(x) != "place" for x in e):
            raise Bad("tokens-count")
        return ("tok", ps)
    if k in ("integer-sum", "integer-product", "integer-difference"):
        if not len(e):
            raise Bad("empty " + k)
        return ({"integer-sum": "sum", "integer-product": "prod", "integer-difference": "diff"}[k], [expr(x, P) for x in e])
    raise Bad(k)


def formula(e, P, T, ltl=False):
    k = _tag(e)
    kids = list(e)

    def rec(x):
        return formula(x, P, T, ltl)

    def one():
        if len(kids) != 1:
            raise Bad("%s with %d children" % (k, len(kids)))
        return kids[0]
    if k in ("true", "false", "deadlock"):
        return (k,)
    if k in ("negation", "not"):
        return ("not", rec(one()))
    if k in ("conjunction", "and", "disjunction", "or"):
        if not kids:
            raise Bad("empty " + k)
        return ("and" if k in ("conjunction", "and") else "or", [rec(x) for x in kids])
    if k in ("exclusive-disjunction", "implication", "equivalence"):
        if len(kids) != 2:
            raise Bad(k)
        return ({"exclusive-disjunction": "xor", "implication": "imp", "equivalence": "iff"}[k], rec(kids[0]), rec(kids[1]))
    if k.startswith("integer-") and k[8:] in ("eq", "ne", "lt", "le", "gt", "ge"):
        if len(kids) != 2:
            raise Bad(k)
        return ("cmp", k[8:], expr(kids[0], P), expr(kids[1], P))
    if k == "is-fireable":
        if not kids:
            raise Bad(k)
        return ("fire", [T[(x.text or "").strip()] for x in kids])
    if k in ("all-paths", "exists-path"):
        q = "A" if k == "all-paths" else "E"
        f = rec(one())
        if ltl:
            return (q, f)
        if f[0] == "U":
            return (q + "U", f[1], f[2])
        if f[0] in ("X", "F", "G"):
            return (q + f[0], f[1])
        raise Bad("quantifier over " + f[0])
    if k in ("next", "finally", "globally"):
        return ({"next": "X", "finally": "F", "globally": "G"}[k], rec(one()))
    if k == "until":
        if len(kids) != 2 or _tag(kids[0]) != "before" or _tag(kids[1]) != "reach" or len(kids[0]) != 1 or len(kids[1]) != 1:
            raise Bad(k)
        return ("U", rec(kids[0][0]), rec(kids[1][0]))
    if k == "place-bound":
        return ("bound", [P[(x.text or "").strip()] for x in kids])
    if k == "control":
        return ("control", rec(one()))
    raise Bad(k)


def read(text, net, ltl=False):
    """[(id, formula)]"""
    P = {p: i for i, p in enumerate(net.places)}
    T = {t: i for i, t in enumerate(net.trans)}
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        raise Bad("not XML: %s" % e)
    if _tag(root) != "property-set":
        raise Bad("root " + _tag(root))
    out = []
    try:
        for p in root:
            d = {_tag(x): x for x in p}
            if _tag(p) != "property" or len(d["formula"]) != 1:
                raise Bad("property")
            out.append(((d["id"].text or "").strip(), formula(d["formula"][0], P, T, ltl)))
    except (KeyError, ValueError, IndexError) as e:
        raise Bad("%s %s" % (type(e).__name__, e))
    return out

"""vCards: parse / write / re-parse. Octets travel as latin-1 text."""
import json
from pycalendar.vcard.card import Card


def b(t):
    return t.encode("latin-1")


def l1(s):
    if isinstance(s, unicode):
        s = s.encode("utf-8")
    return s.decode("latin-1")


def roundtrip(text, others):
    cards = Card.parseMultipleTextData(b(text))
    outs = [c.getText() for c in cards]
    cards2 = Card.parseMultipleTextData("".join(outs))
    single = [Card.parseText(o) for o in outs]
    res = {"outs": [l1(o) for o in outs], "eq": [a == x and x == a and not (a != x) and a == s for a, x, s in zip(cards, cards2, single)], "n2": len(cards2),
           "outs2": [l1(c.getText()) for c in cards2], "again": [l1(c.getText()) for c in cards], "others": []}
    for o in others:
        cs = Card.parseMultipleTextData(b(o))
        res["others"].append([len(cs) == len(cards) and all(x == y and y == x for x, y in zip(cs, cards)), [l1(c.getText()) for c in cs]])
    return res


def compare(a, c):
    x, y = Card.parseText(b(a)), Card.parseText(b(c))
    return {"eq": x == y, "eq2": y == x, "ne": x != y}


def default():
    c = Card()
    out = c.getText()
    d = Card.parseText(out)
    return {"out": out, "eq": c == d, "version": d.getPropertyString("VERSION"), "prodid": d.getPropertyString("PRODID")}


def jcard(text):
    cards = Card.parseMultipleTextData(b(text))
    js = []
    for c in cards:
        j = c.getText(Card.sFormatJSON)
        js.append(j if isinstance(j, str) else j.encode("utf-8"))
    single = [Card.parseJSONData(j) for j in js]
    many = Card.parseMultipleData("[" + ",".join(js) + "]", Card.sFormatJSON)
    return {"json": [l1(j) for j in js], "outs": [l1(c.getText()) for c in cards], "n": len(many), "eq": [a == x and x == a and not (a != x) and x == s for a, x, s in zip(cards, many, single)],
            "outs2": [l1(c.getText()) for c in many], "single": [l1(c.getText()) for c in single], "json2": [l1(c.getTextJSON()) for c in many],
            "valid": [[c.validate() == d.validate() for c, d in zip(cards, many)]]}

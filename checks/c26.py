"""C26: jCard carries the same card as the text."""
import json
import re

from hypothesis import strategies as st

from checks.c06 import interesting, u8
from harness import gen_vcard as V, icanon
from harness.core import Test, expect, fail

ID = "C26"
MODNAME = "checks.c26"
RULE = ("a case is a stream of cards, or one property of a card; the library's jCard is read by an independent RFC 7095 reader and compared with the input's meaning, then read back by the library. "
        "Non-trivial: some card has at least two properties beyond VERSION, one of them with a group, a parameter, an escape or a structured value.")
ASSUMPTIONS = ["fractions of seconds are not part of the library's date-times and are dropped", "a bare BASE64 parameter means ENCODING=b; other bare (vCard 2.1) parameters are removed on reading (the default setting)",
               "no backslash in URI values", "N and ADR have no more than their five and seven parts; missing parts are empty",
               "a parameter given several times is one with all the values in jCard, so equality of the objects is judged only where each parameter is given once",
               "BOOLEAN values may be carried as their text (the library has no class for them)", "GEO is an array of two floats, as in the library's jCal"]
STRUCT = {"N": 5, "ADR": 7}
MULTI = ("NICKNAME", "CATEGORIES")


def merged(c):
    """the meaning of a card with the values of each parameter in one"""
    out = []
    for name, group, t, ps, val in c[1]:
        d = {}
        for n, vs in ps:
            d.setdefault(n, []).extend(vs)
        out.append([name, group and group.lower(), t, sorted([n, sorted(vs)] for n, vs in d.items()), val])
    return [c[0], sorted(out, key=icanon.key)]


def need(ok, what, p):
    if not ok:
        raise icanon.Bad("%s: %r" % (what, p))


def value(name, t, vals, p):
    if name in MULTI and t == "TEXT":
        need(all(isinstance(v, str) for v in vals), "strings expected", p)
        return t, list(vals)
    need(len(vals) == 1, "one value expected", p)
    v = vals[0]
    if name in STRUCT and t == "TEXT":
        need(isinstance(v, list) and all(isinstance(e, str) or isinstance(e, list) and all(isinstance(x, str) for x in e) for e in v), "parts expected", p)
        return t, [e if isinstance(e, list) else [e] for e in v] + [[""]] * (STRUCT[name] - len(v))
    if name == "ORG" and t == "TEXT":
        need(isinstance(v, str) or isinstance(v, list) and all(isinstance(e, str) for e in v), "one or more strings expected", p)
        return t, v if isinstance(v, list) else [v]
    if name == "GEO" and t == "FLOAT":
        need(isinstance(v, list) and len(v) == 2 and all(isinstance(x, (int, float)) for x in v), "two floats expected", p)
        return t, [float(x) for x in v]
    if t == "INTEGER":
        need(isinstance(v, int) and not isinstance(v, bool), "an integer expected", p)
        return t, v
    if t == "FLOAT":
        need(isinstance(v, (int, float)) and not isinstance(v, bool), "a number expected", p)
        return t, float(v)
    need(isinstance(v, str), "a string expected", p)
    if t in ("DATE", "DATE-TIME"):
        need(re.fullmatch(r"\d{4}-\d\d-\d\d" + ("" if t == "DATE" else r"T\d\d:\d\d:\d\d(Z|[-+]\d\d:?\d\d)?"), v), "an extended date expected", p)
        return V.c_stamp(v)
    if t == "UTC-OFFSET":
        need(re.fullmatch(r"[-+]\d\d:\d\d(:\d\d)?", v), "an offset expected", p)
        return t, (-1 if v[0] == "-" else 1) * (int(v[1:3]) * 3600 + int(v[4:6]) * 60 + int(v[7:] or 0))
    return t, v


def from_jcard(j):
    need(isinstance(j, list) and len(j) in (2, 3) and j[0] == "vcard" and (len(j) == 2 or j[2] == []), "not a card", j)
    out = []
    for p in j[1]:
        need(isinstance(p, list) and len(p) >= 4 and isinstance(p[0], str) and isinstance(p[1], dict) and isinstance(p[2], str), "property", p)
        need(p[0] == p[0].lower() and p[2] == p[2].lower(), "names in lower case", p)
        ps, group = [], None
        for k, v in p[1].items():
            need(k == k.lower() and k != "value", "parameter", p)
            vs = v if isinstance(v, list) else [v]
            need(all(isinstance(x, str) for x in vs), "parameter values", p)
            if k == "group":
                need(len(vs) == 1, "one group", p)
                group = vs[0].lower()
            else:
                ps.append([k.upper(), [x.upper() for x in vs] if k == "encoding" else sorted(vs)])
        n = p[0].upper()
        t, v = value(n, p[2].upper(), p[3:], p)
        out.append([n, group, t, sorted(ps), v])
    return ["VCARD", sorted(out, key=icanon.key)]


def run(J, case, rec):
    cards = case["cards"]
    if not case["case"]:        # what the library itself writes for a type
        cards = [[[g, n, [[k, [v.upper() for v in vs] if k == "VALUE" else vs] for k, vs in ps], raw] for g, n, ps, raw in c] for c in cards]
    want = [merged(c) for c in V.from_cards(cards)]
    r = J.call("cards.jcard", V.render(cards, case=case["case"]))
    expect(len(r["json"]) == len(cards), "number of cards")
    js = []
    for i, o in enumerate(r["json"]):
        text = u8(o)
        try:
            js.append(json.loads(text))
        except ValueError as e:
            fail("not JSON: %s" % e, output=text)
        try:
            got = from_jcard(js[-1])
        except icanon.Bad as e:
            fail("not the shape of RFC 7095: %s" % e, output=text)
        d = icanon.diff(want[i], got)
        expect(d is None, "jCard differs in meaning: %s" % d, output=text)
    expect(r["n"] == len(cards), "number of cards read from jCard")
    for i, c in enumerate(cards):
        o, o2 = u8(r["outs"][i]), u8(r["outs2"][i])
        try:
            got = merged(V.from_text(o2)[0])
        except Exception as e:
            fail("text of the card read from jCard is not well-formed: %s" % e, output=o2)
        d = icanon.diff(want[i], got)
        expect(d is None, "the card read from jCard differs in meaning: %s" % d, json=r["json"][i], text=o2)
        expect(r["single"][i] == r["outs2"][i], "a card read alone and in a list differ", alone=r["single"][i], listed=o2)
        expect(json.loads(u8(r["json2"][i])) == js[i], "jCard of the card read from jCard differs", first=r["json"][i], second=r["json2"][i])
        once = all(len(set(n for n, _ in ps)) == len(ps) for _, _, ps, _ in c)
        if once and not case["case"] and not any(g and g != g.lower() for g, _, _, _ in c):
            expect(r["eq"][i], "the card read from jCard is not equal", text=o, via=o2)
            expect(o == o2, "the card read from jCard is written differently", text=o, via=o2)
            rec.label("equality judged")
        for g, n, ps, raw in c:
            rec.label("prop:" + n)
            if g:
                rec.label("group")
            if any(v is None for _, v in ps):
                rec.label("bare parameter")
            if len(set(x for x, _ in ps)) != len(ps):
                rec.label("repeated parameter")
    rec.nt(interesting(cards))


def run_prop(J, case, rec):
    run(J, {"cards": [[[None, "VERSION", [], "3.0"]] + case["props"]], "case": None}, rec)
    rec.nt()


CASE = st.sampled_from([None, None, "lower", "title"])
props = st.lists(st.sampled_from(sorted(V.SPEC)).flatmap(V.prop), min_size=1, max_size=2)
TESTS = [
    Test("streams", st.fixed_dictionaries({"cards": V.streams, "case": CASE}), run, quick=1200, thorough=20000, shards=4),
    Test("properties", st.fixed_dictionaries({"props": props}), run_prop, quick=2500, thorough=40000, shards=4),
]

"""C06: vCard text survives parse and generate."""
import copy

from hypothesis import strategies as st

from harness import gen_ical as T, gen_vcard as V, icanon
from harness.core import Test, expect, fail

ID = "C06"
MODNAME = "checks.c06"
RULE = ("a case is a stream of cards with a layout, or a card and one single edit of it; the library's output is read by an independent reader and compared with the input's meaning. "
        "Non-trivial: some card has at least two properties beyond VERSION, one of them with a group, a parameter, an escape or a structured value; edits are all non-trivial.")
ASSUMPTIONS = ["BEGIN/END in upper case; no nested cards", "fractions of seconds are not part of the library's date-times and are dropped", "a bare BASE64 parameter means ENCODING=B; other bare (vCard 2.1) parameters are kept",
               "no backslash in URI values", "N and ADR have no more than their five and seven parts; missing parts are empty"]


def u8(l1):
    return l1.encode("latin-1").decode("utf-8")


def interesting(cards):
    return any(len(c) >= 3 and any(g or ps or "\\" in raw or n in ("N", "ADR", "ORG") for g, n, ps, raw in c) for c in cards)


def run(J, case, rec):
    cards, lay = case["cards"], case["layout"]
    want = V.from_cards(cards)
    text = V.render(cards, blanks=case["blanks"], **lay)
    plain = V.render(cards)
    r = J.call("cards.roundtrip", text, [plain] if not lay["case"] else [V.render(cards, case=lay["case"])])
    expect(len(r["outs"]) == len(cards), "number of cards: %d read from %d" % (len(r["outs"]), len(cards)))
    for i, o in enumerate(r["outs"]):
        out = u8(o)
        try:
            got = V.from_text(out)
        except Exception as e:
            fail("output is not well-formed: %s: %s" % (type(e).__name__, e), output=out)
        expect(len(got) == 1, "one card expected", output=out)
        d = icanon.diff(want[i], got[0])
        expect(d is None, "card differs in meaning: %s" % d, output=out)
    expect(r["n2"] == len(cards) and all(r["eq"]), "cards read back are not equal", outs=[u8(o) for o in r["outs"]])
    expect(r["outs2"] == r["outs"], "written, read and written again differs", first=r["outs"], second=r["outs2"])
    expect(r["again"] == r["outs"], "writing twice differs", first=r["outs"], second=r["again"])
    for eq, outs in r["others"]:
        expect(eq, "the same cards laid out differently are not equal", outs=[u8(o) for o in r["outs"]])
        expect(outs == r["outs"], "the same cards laid out differently are written differently")
    for c in cards:
        for g, n, ps, raw in c:
            rec.label("prop:" + n)
            if g:
                rec.label("group")
            if any(v is None for _, v in ps):
                rec.label("bare parameter")
    rec.nt(interesting(cards))


# ------------------------------------------------------------------ single edits
@st.composite
def edits(draw):
    c = draw(V.card(5).filter(lambda c: len(c) > 1))
    i = draw(st.integers(1, len(c) - 1))
    kind = draw(st.sampled_from(["value", "group", "param", "param", "addparam", "drop", "dup", "name", "add"]))
    d = copy.deepcopy(c)
    p = d[i]
    if kind == "value":
        d[i] = draw(V.prop(p[1]))
        d[i][0], d[i][2] = p[0], p[2] if not any(q[0] in ("VALUE", "ENCODING", "BASE64") for q in p[2] + d[i][2]) else d[i][2]
    elif kind == "group":
        p[0] = draw(V.groups.filter(lambda g: g != p[0]))
    elif kind == "param":
        q = [x for x in p[2] if x[1] and x[0] not in ("VALUE", "ENCODING")]
        if not q:
            p[2].append(["X-NEW", ["1"]])
        else:
            x = q[draw(st.integers(0, len(q) - 1))]
            j = draw(st.integers(0, len(x[1]) - 1))
            x[1][j] = draw(T.ptext)
    elif kind == "addparam":
        p[2].append(["X-NEW", [draw(T.ptext)]])
    elif kind == "drop":
        del d[i]
    elif kind == "dup":
        d.append(copy.deepcopy(p))
    elif kind == "add":
        d.append(draw(V.prop(draw(st.sampled_from(["TEL", "X-FOO", "NOTE"])))))
    else:
        p[1] = "X-OTHER"
        p[2] = [x for x in p[2] if x[0] not in ("VALUE", "ENCODING", "BASE64")]
    return {"a": c, "b": d, "kind": kind}


def run_edit(J, case, rec):
    ma, mb = V.from_cards([case["a"]]), V.from_cards([case["b"]])
    r = J.call("cards.compare", V.render([case["a"]]), V.render([case["b"]]))
    expect(r["eq"] == r["eq2"] and r["eq"] != r["ne"], "equality is not symmetric, or disagrees with inequality", got=r)
    if ma != mb:
        expect(not r["eq"], "cards that differ compare equal", kind=case["kind"])
        rec.nt()
    rec.label("edit:" + case["kind"])


def run_default(J, case, rec):
    r = J.call("cards.default")
    got = V.from_text(r["out"])
    expect(sorted(p[0] for p in got[0][1]) == ["PRODID", "VERSION"] and all(p[1] is None for p in got[0][1]), "default card", output=r["out"])
    expect(r["eq"] and r["version"] == "3.0" and r["prodid"], "default card read back", got=r)


TESTS = [
    Test("streams", st.fixed_dictionaries({"cards": V.streams, "layout": T.layouts, "blanks": st.sampled_from([0, 0, 1, 2])}), run, quick=2200, thorough=50000, shards=5),
    Test("edits", edits(), run_edit, quick=1500, thorough=30000, shards=2),
    Test("default", st.just({}), run_default, quick=1, thorough=1),
]

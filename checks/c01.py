"""C01: parse -> generate loses nothing and is stable, judged by an independent reader."""
from hypothesis import strategies as st

from harness import gen_ical as T, icanon
from harness.core import Test, expect, fail

ID = "C01"
MODNAME = "checks.c01"
RULE = ("a case is a generated VCALENDAR tree, a layout (fold widths in octets, fold character, line ending, letter case of names, quoting); the library's output is read by an independent reader and compared with the input's meaning. "
        "Non-trivial: at least three properties beyond VERSION/PRODID, of which one has a parameter, several values, an escape, or a VALUE type.")
ASSUMPTIONS = ["component names and BEGIN/END in upper case", "no backslash in URI values (the reader's documented leniency removes it)", "one definition per TZID", "no control characters other than TAB and escaped newlines",
               "only extension parameters are repeated on one property (RFC 5545 forbids it for the others)", "floats compared as IEEE doubles"]


def u8(l1):
    return l1.encode("latin-1").decode("utf-8")


def interesting(tree):
    n = nt = 0
    def walk(t):
        nonlocal n, nt
        for name, params, raw in t[1]:
            if name in ("VERSION", "PRODID"):
                continue
            n += 1
            if params or "\\" in raw or (name in icanon.MULTI and "," in raw):
                nt += 1
        for s in t[2]:
            walk(s)
    walk(tree)
    return n >= 3 and nt >= 1


def labels(tree, rec):
    def walk(t, d):
        if d:
            rec.label("comp:" + t[0])
        for name, params, raw in t[1]:
            c = icanon.prop(name, params, raw)
            rec.label("type:" + c[1])
            if any(len(v) > 1 for _, v in params):
                rec.label("multi-valued parameter")
            if len(c[3]) > 1:
                rec.label("multi-valued property")
        for s in t[2]:
            walk(s, d + 1)
    walk(tree, 0)


def run(J, case, rec):
    tree, lay = case["tree"], case["layout"]
    want = icanon.from_tree(tree)
    text = T.render(tree, **lay)
    plain = T.render(tree, case=lay["case"])
    r = J.call("texty.roundtrip", text, plain)
    out = u8(r["out"])
    try:
        got = icanon.from_text(out)
    except Exception as e:
        fail("output is not well-formed: %s" % e, output=out)
    expect(len(got) == 1, "one VCALENDAR expected", output=out)
    d = icanon.diff(want, got[0])
    expect(d is None, "output differs in meaning: %s" % d, output=out)
    expect(r["eq"] and r["eq2"] and not r["ne"], "re-read object is not equal to the first", output=out, output2=u8(r["out2"]))
    expect(r["out"] == r["out2"], "written, read and written again differs", first=out, second=u8(r["out2"]))
    expect(r["out"] == r["again"], "writing twice differs", first=out, second=u8(r["again"]))
    for a, b, o in r["others"]:
        expect(a and b, "the same object laid out differently is not equal", output=out, other=u8(o))
        expect(o == r["out"], "the same object laid out differently is written differently", output=out, other=u8(o))
    labels(tree, rec)
    rec.nt(interesting(tree))


def run_prop(J, case, rec):
    """one property with every kind of value and parameter in an event"""
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [["VEVENT", [["UID", [], "u"]] + case["props"], []]]]
    run(J, {"tree": tree, "layout": case["layout"]}, rec)
    rec.nt()


@st.composite
def one_prop(draw):
    """a property, of which an extension parameter may be repeated (as RFC 5545 allows for these only)"""
    name, params, raw = draw(st.sampled_from(sorted(T.SPEC)).filter(lambda n: n not in ("UID", "DTSTART", "RECURRENCE-ID")).flatmap(T.prop))
    if draw(st.booleans()):
        x = draw(st.sampled_from(T.XPARAM))
        for _ in range(draw(st.integers(2, 3))):
            params = list(params)
            params.insert(draw(st.integers(0, len(params))), [x, draw(st.lists(T.ptext, min_size=1, max_size=2))])
    return [name, params, raw]


TESTS = [
    Test("calendars", st.fixed_dictionaries({"tree": T.calendars(), "layout": T.layouts}), run, quick=900, thorough=14000, shards=5),
    Test("properties", st.fixed_dictionaries({"props": st.lists(one_prop(), min_size=1, max_size=3), "layout": T.layouts}), run_prop, quick=2500, thorough=40000, shards=4),
]

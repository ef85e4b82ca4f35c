"""C05: xCal carries the same calendar as the text."""
from hypothesis import strategies as st

from checks import c01, c04
from harness import gen_ical as T, icanon
from harness.core import Test, expect, fail

ID = "C05"
MODNAME = "checks.c05"
RULE = c04.RULE.replace("jCal is read by an independent RFC 7265 reader and compared with the tree, then parsed back by the library", "xCal is read by an XML parser and an independent RFC 6321 reader, and compared with the tree")
ASSUMPTIONS = c01.ASSUMPTIONS + ["BOOLEAN and TIME values may be carried as their text", "parameter values are always carried in <text> elements (the library's documented limitation)", "UNTIL may be plain text or a nested <date>/<date-time>", "white space between elements is not significant"]


def run(J, case, rec):
    tree = case["tree"]
    want = icanon.from_tree(tree)
    r = J.call("texty.xcal", T.render(tree))
    data = r["xml"].encode("latin-1")
    try:
        got = icanon.from_xcal(data)
    except Exception as e:
        fail("not well-formed RFC 6321: %s: %s" % (type(e).__name__, e), output=data.decode("utf-8", "replace"))
    d = icanon.diff(want, got)
    expect(d is None, "xCal differs in meaning: %s" % d, output=data.decode("utf-8"))
    expect(r["again"] == r["xml"], "writing xCal twice differs")
    expect(r["before"] == r["out"], "writing xCal changed the calendar", before=r["before"], after=r["out"])
    c01.labels(tree, rec)
    rec.nt(c01.interesting(tree))


def run_prop(J, case, rec):
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [["VEVENT", [["UID", [], "u"]] + case["props"], []]]]
    run(J, {"tree": tree}, rec)
    rec.nt()


def run_repeats(J, case, rec):
    """extension parameters that are repeated: the values of all are there"""
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [["VEVENT", [["UID", [], "u"]] + case["props"], []]]]
    r = J.call("texty.xcal", T.render(tree))
    data = r["xml"].encode("latin-1")
    try:
        got = icanon.from_xcal(data)
    except Exception as e:
        fail("not well-formed RFC 6321: %s: %s" % (type(e).__name__, e), output=data.decode("utf-8", "replace"))
    d = icanon.diff(c04.merged(icanon.from_tree(tree)), c04.merged(got))
    expect(d is None, "xCal differs in meaning: %s" % d, output=data.decode("utf-8"))
    rec.nt(any(len(ps) > len({p[0] for p in ps}) for _, ps, _ in case["props"]))


TESTS = [
    Test("calendars", st.fixed_dictionaries({"tree": T.calendars()}), run, quick=900, thorough=14000, shards=5),
    Test("properties", st.fixed_dictionaries({"props": c04.props}), run_prop, quick=2500, thorough=40000, shards=4),
    Test("repeats", st.fixed_dictionaries({"props": st.lists(c01.one_prop(), min_size=1, max_size=2)}), run_repeats, quick=600, thorough=10000, shards=4),
]

"""C04: jCal carries the same calendar as the text."""
import json

from hypothesis import strategies as st

from checks import c01
from harness import gen_ical as T, icanon
from harness.core import Test, expect, fail

ID = "C04"
MODNAME = "checks.c04"
RULE = ("a case is a generated VCALENDAR tree; the library's jCal is read by an independent RFC 7265 reader and compared with the tree, then parsed back by the library. "
        "Non-trivial: at least three properties beyond VERSION/PRODID, of which one has a parameter, several values, an escape, or a VALUE type.")
ASSUMPTIONS = c01.ASSUMPTIONS + ["BOOLEAN and TIME values may be carried as their text (the library has no class for them)"]


def run(J, case, rec):
    tree = case["tree"]
    want = icanon.from_tree(tree)
    r = J.call("texty.jcal", T.render(tree))
    text = c01.u8(r["json"])
    try:
        j = json.loads(text)
    except ValueError as e:
        fail("not JSON: %s" % e, output=text)
    try:
        got = icanon.from_jcal(j)
    except Exception as e:
        fail("not the shape of RFC 7265: %s: %s" % (type(e).__name__, e), output=text)
    d = icanon.diff(want, got)
    expect(d is None, "jCal differs in meaning: %s" % d, output=text)
    out, out2 = c01.u8(r["out"]), c01.u8(r["out2"])
    expect(out == out2, "text of the calendar read from jCal differs", text=out, via_jcal=out2)
    expect(r["eq"] and r["eq2"], "calendar read from jCal is not equal", text=out, via_jcal=out2)
    expect(json.loads(c01.u8(r["json2"])) == j, "jCal of the calendar read from jCal differs", first=text, second=r["json2"])
    expect(r["after"] == r["out"], "writing jCal changed the calendar", before=out, after=r["after"])
    c01.labels(tree, rec)
    rec.nt(c01.interesting(tree))


def run_prop(J, case, rec):
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [["VEVENT", [["UID", [], "u"]] + case["props"], []]]]
    run(J, {"tree": tree}, rec)
    rec.nt()


def merged(n):
    """the same with the values of repeated parameters taken together"""
    def one(ps):
        d = {}
        for k, v in ps:
            d.setdefault(k, []).extend(v)
        return sorted([k, sorted(v)] for k, v in d.items())
    return [n[0], sorted(([a, t, one(ps), v] for a, t, ps, v in n[1]), key=icanon.key), sorted((merged(s) for s in n[2]), key=icanon.key)]


def run_repeats(J, case, rec):
    """extension parameters that are repeated: JSON has one member for them, with the values of all"""
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [["VEVENT", [["UID", [], "u"]] + case["props"], []]]]
    want = merged(icanon.from_tree(tree))
    r = J.call("texty.jcal", T.render(tree))
    text = c01.u8(r["json"])
    try:
        got = icanon.from_jcal(json.loads(text))
    except Exception as e:
        fail("not the shape of RFC 7265: %s: %s" % (type(e).__name__, e), output=text)
    d = icanon.diff(want, merged(got))
    expect(d is None, "jCal differs in meaning: %s" % d, output=text)
    expect(json.loads(c01.u8(r["json2"])) == json.loads(text), "jCal of the calendar read from jCal differs", first=text, second=r["json2"])
    d = icanon.diff(want, merged(icanon.from_text(c01.u8(r["out2"]))[0]))
    expect(d is None, "text of the calendar read from jCal differs in meaning: %s" % d, output=text, via_jcal=r["out2"])
    rec.nt(any(len(ps) > len({p[0] for p in ps}) for _, ps, _ in case["props"]))


props = st.lists(st.sampled_from(sorted(T.SPEC)).filter(lambda n: n not in ("UID", "DTSTART", "RECURRENCE-ID")).flatmap(T.prop), min_size=1, max_size=3)
TESTS = [
    Test("calendars", st.fixed_dictionaries({"tree": T.calendars()}), run, quick=900, thorough=14000, shards=5),
    Test("properties", st.fixed_dictionaries({"props": props}), run_prop, quick=2500, thorough=40000, shards=4),
    Test("repeats", st.fixed_dictionaries({"props": st.lists(c01.one_prop(), min_size=1, max_size=2)}), run_repeats, quick=600, thorough=10000, shards=4),
]

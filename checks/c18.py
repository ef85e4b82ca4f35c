"""C18: calendars name the time zones they use when written."""
import copy
import json

from hypothesis import strategies as st

from checks import c01
from harness import gen_ical as T, ical, icanon
from harness.core import Test, expect, fail

ID = "C18"
MODNAME = "checks.c18"
RULE = ("a case is a calendar referring to zones of several kinds (standard, known but not standard, defined in the calendar, unknown) from properties at several depths, and a history of writing, stripping and adding; "
        "each output is read independently and compared with what a model says the calendar holds. Non-trivial: some write must have added a definition, or some strip removed one.")
ASSUMPTIONS = ["a zone is referenced by the TZID of a date-time or period property of a component (not by X- properties without a VALUE type, nor by properties of the VCALENDAR itself)", "the default inclusion mode is not judged: its documentation and its behaviour differ"]

STD = [["Std/A", "sa", 60], ["Std/B", "sb", -300], ["Std/C", "sc", 330], ["Std/D", "sd", 0]]
ADDED = [["Non/A", "na", 45], ["Non B", "nb", -210], ["/x.org/Non/C", "nc", 765]]
KNOWN = dict((i, (t, o)) for i, t, o in STD + ADDED)
STANDARD = set(i for i, _, _ in STD)
ZONES = list(KNOWN) + ["Own/X", "Own/Y", "Unknown/U", "Std/Missing"]


def ztree(i, tag, off, extra=()):
    o = "%s%02d%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
    return ["VTIMEZONE", [["TZID", [], ical.escape(i)], ["X-TAG", [], tag]] + list(extra), [["STANDARD", [["DTSTART", [], "19000101T000000"], ["TZNAME", [], tag], ["TZOFFSETFROM", [], "+0000"], ["TZOFFSETTO", [], o]], []]]]


zones = st.sampled_from(ZONES)
PLACES = ["DTSTART", "DTEND", "RECURRENCE-ID", "EXDATE", "EXDATES", "RDATE", "RDATES", "RPERIOD", "RPERIODS", "XDT", "XPERIOD", "DUE", "FLOAT", "UTC", "DATE"]


def prop(place, z):
    tz = [["TZID", [z]]]
    return {
        "EXDATE": ["EXDATE", tz, "20200601T120000"], "EXDATES": ["EXDATE", tz, "20200601T120000,20200602T120000"],
        "RDATE": ["RDATE", tz, "20200601T120000"], "RDATES": ["RDATE", tz, "20200601T120000,20200602T120000"],
        "RPERIOD": ["RDATE", [["VALUE", ["PERIOD"]]] + tz, "20200601T120000/PT1H"], "RPERIODS": ["RDATE", [["VALUE", ["PERIOD"]]] + tz, "20200601T120000/PT1H,20200602T120000/20200602T130000"],
        "XDT": ["X-FOO", [["VALUE", ["DATE-TIME"]]] + tz, "20200601T120000"], "XPERIOD": ["X-FOO", [["VALUE", ["PERIOD"]]] + tz, "20200601T120000/PT1H"],
        "FLOAT": ["DTSTART", [], "20200601T120000"], "UTC": ["DTSTAMP", [], "20200601T120000Z"], "DATE": ["DTSTART", [["VALUE", ["DATE"]]], "20200601"],
    }.get(place, [place, tz, "20200601T120000"])


@st.composite
def comp(draw, depth=0):
    name = draw(st.sampled_from(["VEVENT"] * 4 + ["VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VPOLL", "X-COMP"])) if depth == 0 else None
    return draw(body(name))


SUBS = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VAVAILABILITY": ["AVAILABLE"], "VPOLL": ["VEVENT", "VTODO", "VVOTER"], "X-COMP": ["X-COMP", "VEVENT"], "VVOTER": ["VOTE"]}


@st.composite
def body(draw, name, depth=0):
    props = [["UID", [], draw(st.sampled_from("abcd"))]] if name[0] == "V" and name not in ("VALARM", "VVOTER", "VOTE") else [["ACTION", [], "DISPLAY"], ["TRIGGER", [], "-PT5M"]] if name == "VALARM" else []
    used = set()
    for _ in range(draw(st.integers(0 if depth else 1, 3))):
        p = draw(st.sampled_from(PLACES if name not in ("VALARM", "VVOTER", "VOTE") else ["XDT", "XPERIOD", "UTC"]))
        q = prop(p, draw(zones))
        if q[0] in used and q[0] not in ("EXDATE", "RDATE", "X-FOO"):
            continue
        used.add(q[0])
        props.append(q)
    subs = []
    if depth < 2:
        for n in draw(st.lists(st.sampled_from(SUBS.get(name, ["X-COMP"])), max_size=2)) if name in SUBS else []:
            subs.append(draw(body(n, depth + 1)))
    return [name, props, subs]


@st.composite
def cases(draw):
    own = []
    for z in draw(st.lists(st.sampled_from(["Own/X", "Own/X", "Own/Y", "Std/A", "Non/A"]), unique=True, max_size=3)):
        own.append(ztree(z, draw(st.sampled_from(["o1", "o2"])), draw(st.sampled_from([15, 120, -90]))))
    comps = draw(st.lists(comp(), min_size=1, max_size=4))
    tree = ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], draw(st.permutations(own + comps))]
    modes = st.sampled_from(["all", "all", "nonstd", "none"])
    op = st.one_of(
        st.tuples(st.just("write"), st.sampled_from(["text", "text", "json", "jsonf", "xml", "generate"]), modes).map(list),
        st.tuples(st.just("include"), modes).map(list), st.just(["str"]), st.just(["strip"]),
        st.tuples(st.just("spoil"), zones).map(list),
        comp().map(lambda c: ["add", c]))
    return {"tree": tree, "ops": draw(st.lists(op, min_size=1, max_size=6))}


def refs(tree):
    out = set()
    for n, ps, v in tree[1]:
        out.update(vs[0] for a, vs in ps if a == "TZID")
    for s in tree[2]:
        out |= refs(s)
    return out


def zid(c):
    return [ical.unescape(p[2]) for p in c[1] if p[0] == "TZID"][0]


def run(J, case, rec):
    tree = copy.deepcopy(case["tree"])
    ops = [[o[0], "".join(l + "\r\n" for l in T.logical(o[1])).encode("utf-8").decode("latin-1")] if o[0] == "add" else o for o in case["ops"]]
    known = dict(KNOWN)
    for c in tree[2]:
        if c[0] == "VTIMEZONE" and zid(c) not in known:
            known[zid(c)] = c
    out, parents = J.call("tzincl.history", STD, ADDED, T.render(tree), ops)
    expect(parents, "a time zone of the calendar has another parent")

    def include(mode):
        n = 0
        if mode == "none":
            return n
        have = set(zid(c) for c in tree[2] if c[0] == "VTIMEZONE")
        for z in set().union(*[refs(c) for c in tree[2] if c[0] != "VTIMEZONE"]):
            if z in known and z not in have and not (mode == "nonstd" and z in STANDARD):
                tree[2].append(copy.deepcopy(known[z]) if isinstance(known[z], list) else ztree(z, *known[z]))
                n += 1
        return n
    for n, (op, r) in enumerate(zip(case["ops"], out)):
        k = op[0]
        if k == "write":
            added = include(op[2])
            if added:
                rec.nt()
                rec.label("added by " + op[1])
            r = c01.u8(r)
            try:
                got = icanon.from_text(r)[0] if op[1] in ("text", "generate") else icanon.from_jcal(json.loads(r)) if op[1] in ("json", "jsonf") else icanon.from_xcal(r)
            except Exception as e:
                fail("output is not well-formed: %s: %s" % (type(e).__name__, e), step=n, op=op, output=r)
            d = icanon.diff(icanon.from_tree(tree), got)
            expect(d is None, "written calendar differs from what it should hold: %s" % d, step=n, op=op, output=r)
        elif k == "str":
            d = icanon.diff(icanon.from_tree(tree), icanon.from_text(c01.u8(r))[0])
            expect(d is None, "str() differs from what the calendar should hold: %s" % d, step=n, output=r)
        elif k == "include":
            include(op[1])
        elif k == "strip":
            keep = [c for c in tree[2] if not (c[0] == "VTIMEZONE" and zid(c) in STANDARD)]
            changed = len(keep) != len(tree[2])
            tree[2] = keep
            expect(r == changed, "stripping reports %s" % r, step=n, want=changed)
            if changed:
                rec.nt()
                rec.label("stripped")
        elif k == "spoil":
            for c in tree[2]:
                if c[0] == "VTIMEZONE" and zid(c) == op[1]:
                    c[1].append(["X-SPOILT", [], "1"])
        elif k == "add":
            tree[2].append(copy.deepcopy(op[1]))


TESTS = [
    Test("histories", cases(), run, quick=2500, thorough=60000, shards=6),
]

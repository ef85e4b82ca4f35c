"""C07: copies are equal and independent; equality and hash follow content."""
import copy
import datetime as D
import re

from hypothesis import strategies as st

from checks import c01
from harness import gen_ical as T, gen_vcard as V, icanon
from harness.core import Test, expect, fail

ID = "C07"
MODNAME = "checks.c07"
RULE = ("a case is a copy of something (calendar, card, component, property, value, what a value holds, parameter) followed by edits to either side, or two calendars one edit or one reordering apart. "
        "Non-trivial: at least one edit changed the side it was made on; for pairs, all.")
ASSUMPTIONS = ["objects are the result of parsing well-formed data", "values written differently with the same meaning (order of a rule's lists, equal spans, equal numbers) may or may not be equal",
               "components are not hashable by content and are left out of the hash law"]


def run(J, case, rec):
    text = V.render([case["card"]]) if "card" in case else T.render(case["tree"])
    r = J.call("copies.copy_history", text, "card" in case, case["level"], case["where"], case["ops"])
    expect(r["eq"], "a copy is not equal to its original", type=r["type"])
    expect(r["hash"] in (True, None), "a copy has another hash", type=r["type"])
    expect(r["copy"] == r["snap"], "a copy differs from its original", type=r["type"], diff=difference(r["snap"], r["copy"]))
    expect(r["after_copy"] == r["snap"], "copying changed the original", type=r["type"], diff=difference(r["snap"], r["after_copy"]))
    expect(r.get("parents", True), "a component of the copy has a parent outside the copy")
    expect(not r.get("shared", False), "the copy holds a component of the original")
    for i, s in enumerate(r["steps"]):
        expect(s["before"] == s["after"], "an edit of one side shows in the other", type=r["type"], step=i, diff=difference(s["before"], s["after"]))
        if s["err"]:
            rec.label("err:" + s["err"][:60])
        if s["changed"]:
            rec.nt()
            rec.label("edit shows")
    rec.label("copy:" + r["type"])


def difference(a, b):
    if a["text"] != b["text"]:
        return {"text": [a["text"], b["text"]]}
    if isinstance(a["get"], list):
        return [[k, x.get(k), y.get(k)] for x, y in zip(a["get"], b["get"]) for k in x if x.get(k) != y.get(k)]
    return [[k, a["get"].get(k), b["get"].get(k)] for k in a["get"] if a["get"].get(k) != b["get"].get(k)]


# ------------------------------------------------------------------ pairs
def nodes(tree):
    yield tree
    for s in tree[2]:
        for n in nodes(s):
            yield n


@st.composite
def pairs(draw):
    a = draw(T.calendars(4))
    b = copy.deepcopy(a)
    ns = list(nodes(b))
    n = ns[draw(st.integers(0, len(ns) - 1))]
    kind = draw(st.sampled_from(["value", "value", "value", "param", "addparam", "drop", "dup", "name", "add", "dropcomp", "dupcomp", "permute", "permute", "twice"]))
    owned = [x for x in ns if x[1] and (x is not b or len(x[1]) > 2)]
    if kind in ("value", "param", "addparam", "drop", "dup", "name", "twice") and not owned:
        kind = "add"
    if kind in ("value", "param", "addparam", "drop", "dup", "name", "twice"):
        n = owned[draw(st.integers(0, len(owned) - 1))]
        lo = 2 if n is b else 0
        i = draw(st.integers(lo, len(n[1]) - 1))
        p = n[1][i]
    if kind == "value":
        if p[0] in T.SPEC and not (n[0] in ("STANDARD", "DAYLIGHT") and p[0] in ("RRULE", "RDATE", "DTSTART")):
            q = draw(T.prop(p[0]))
            keep = [x for x in p[1] if x[0] not in ("VALUE", "TZID", "ENCODING")]
            n[1][i] = [p[0], [x for x in q[1] if x[0] in ("VALUE", "TZID", "ENCODING")] + keep, q[2]]
        else:
            n[1][i] = [p[0], p[1], p[2] + "1" if p[0] in ("UID", "TZID") else p[2]]
    elif kind == "twice":
        # change one of two equal properties
        q = copy.deepcopy(p)
        owner = [x for x in nodes(a) if x == n][0]
        owner[1].extend([copy.deepcopy(p), ["X-TWO", [], "1"]])
        n[1].extend([["X-TWO", [], "1"], ["X-TWO", [], "1"]])
    elif kind == "param":
        q = [x for x in p[1] if x[0] not in ("VALUE", "ENCODING")]
        if not q:
            p[1].append(["X-NEW", ["1"]])
        else:
            x = q[draw(st.integers(0, len(q) - 1))]
            j = draw(st.integers(0, len(x[1]) - 1))
            x[1][j] = draw(T.ptext)
    elif kind == "addparam":
        p[1].append(["X-NEW", [draw(T.ptext)]])
    elif kind == "drop":
        del n[1][i]
    elif kind == "dup":
        n[1].append(copy.deepcopy(p))
    elif kind == "name":
        p[0] = "X-OTHER"
    elif kind == "add":
        n[1].append(["X-ADDED", [], "1"])
    elif kind in ("dropcomp", "dupcomp"):
        own = [x for x in ns if x[2] and x[0] != "VTIMEZONE"]
        if own:
            n = own[draw(st.integers(0, len(own) - 1))]
            i = draw(st.integers(0, len(n[2]) - 1))
            if kind == "dropcomp":
                del n[2][i]
            elif n[2][i][0] != "VTIMEZONE":
                n[2].append(copy.deepcopy(n[2][i]))
    elif kind == "permute":
        for x in ns:
            x[1][:] = draw(st.permutations(x[1])) if len(x[1]) > 1 else x[1]
            x[2][:] = draw(st.permutations(x[2])) if len(x[2]) > 1 else x[2]
    if draw(st.booleans()) and kind != "permute":
        for x in ns:
            x[1].reverse()
            x[2].reverse()
    return {"a": a, "b": b, "kind": kind}


def run_pair(J, case, rec):
    ma, mb = icanon.from_tree(case["a"]), icanon.from_tree(case["b"])
    r = J.call("copies.compare", T.render(case["a"]), T.render(case["b"]))
    expect(r["eq"] == r["eq2"] and r["eq"] != r["ne"], "equality is not symmetric, or disagrees with inequality", got=r)
    expect(not r["hash"], "equal parts with different hashes, or equality that is not symmetric", got=r["hash"])
    if case["kind"] == "permute":
        expect(r["eq"], "reordering makes calendars unequal")
        expect(ma == mb, "harness: permutation")
        rec.nt()
    elif ma != mb:
        expect(not r["eq"], "calendars that differ compare equal", kind=case["kind"], diff=str(icanon.diff(ma, mb)))
        rec.nt()
    rec.label("pair:" + case["kind"])


# two values for the same property
@st.composite
def value_pairs(draw):
    n = draw(st.sampled_from(sorted(T.SPEC)))
    p = draw(T.prop(n))
    q = draw(st.one_of(T.prop(n), st.just(None)))
    if q is None:
        q = copy.deepcopy(p)
        t = list(q[2])
        if t:
            how = draw(st.sampled_from(["digit", "z", "swap"]))
            digits = [i for i, c in enumerate(t) if c in "0123456789"]
            if how == "digit" and digits:
                i = draw(st.sampled_from(digits))
                t[i] = str((int(t[i]) + 1) % 10) if t[i] not in "01" else ("1" if t[i] == "0" else "0")
            elif how == "z" and t[-1] in "0123456789":
                t.append("Z")
            elif how == "z" and t[-1] == "Z":
                t.pop()
        q[2] = "".join(t)
    else:
        q = [n, p[1] if draw(st.booleans()) and [x for x in p[1] if x[0] in ("VALUE", "TZID")] == [x for x in q[1] if x[0] in ("VALUE", "TZID")] else q[1], q[2]]
    return {"p": p, "q": q}


def line(p):
    return "".join(";" + T.param_text(a, v) for a, v in p[1]) + ":" + p[2]


def ok(p):
    try:
        return icanon.prop(*p)
    except (icanon.Bad, ValueError):
        return None


def run_values(J, case, rec):
    p, q = case["p"], case["q"]
    mp, mq = ok(p), ok(q)
    if mp is None or mq is None or not valid_dates(q[2]) or any("Z" in x[2] and any(a == "TZID" for a, _ in x[1]) for x in (p, q)):
        return
    r = J.call("copies.compare_values", p[0], line(p).encode("utf-8").decode("latin-1"), line(q).encode("utf-8").decode("latin-1"))
    if r is None:
        return
    expect(r["eq"] == r["eq2"] and r["eq"] != r["ne"] and r["veq"] == r["veq2"], "equality is not symmetric, or disagrees with inequality", got=r)
    if p == q:
        expect(r["eq"] and r["veq"], "the same property is not equal to itself", got=r)
    if r["eq"]:
        expect(r["hash"] and r["early"][0], "equal properties with different hashes", got=r)
    if r["veq"]:
        expect(r["vhash"] and r["early"][1], "equal values with different hashes", got=r)
    if mp != mq and not same_span(mp, mq):
        expect(not r["eq"], "properties that differ compare equal", got=r)
        if [mp[1], mp[3]] != [mq[1], mq[3]]:
            expect(not r["veq"] or mp[1] != mq[1], "values that differ compare equal", got=r)
        rec.nt()
    rec.label("value:" + mp[1])


def same_span(a, b):
    return a[1] == b[1] == "PERIOD" and a[2] == b[2]


def valid_dates(raw):
    """the one-digit edits can leave impossible dates and times, which are not compared"""

    for m in re.finditer(r"(\d{4})(\d\d)(\d\d)(?:T(\d\d)(\d\d)(\d\d))?", raw):
        y, mo, d, h, mi, s = [int(x or 0) for x in m.groups()]
        if not (1 <= y and 1 <= mo <= 12 and 1 <= d <= 28 and h < 24 and mi < 60 and s < 60):
            return False
    return True


# the rules, dates and periods of two recurrence sets
rules = st.sampled_from(["FREQ=DAILY", "FREQ=DAILY;COUNT=2", "FREQ=WEEKLY;BYDAY=MO,TU", "FREQ=WEEKLY;BYDAY=TU,MO", "FREQ=WEEKLY;BYDAY=TU", "FREQ=YEARLY;UNTIL=20200101"])
def dates_of(forms):
    return st.builds(lambda d, h: "202001%02d" % d + h, st.integers(1, 3), st.sampled_from(forms))


periods = st.builds(lambda d, h, n: "202001%02dT%02d0000/%s" % (d, h, n), st.integers(1, 2), st.integers(10, 12), st.sampled_from(["PT1H", "PT2H", "PT3H", "PT26H", "P1D", "PT24H", "20200104T100000"]))


@st.composite
def set_pairs(draw):
    # all in one form: different forms compare by the fields they share
    dates = dates_of(draw(st.sampled_from([[""], ["T100000", "T110000"], ["T100000Z", "T100001Z"]])))
    a = [draw(st.lists(x, max_size=4)) for x in (rules, rules, dates, dates, periods)]
    b = [draw(st.permutations(x)) if len(x) > 1 else list(x) for x in a]
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        i = draw(st.integers(0, 4))
        how = draw(st.sampled_from(["add", "drop", "change", "move"]))
        if how == "add" or not b[i]:
            b[i].append(draw((rules, rules, dates, dates, periods)[i]))
        elif how == "change":
            b[i][0] = draw((rules, rules, dates, dates, periods)[i])
        else:
            x = b[i].pop()
            if how == "move" and i < 4:
                b[i ^ 1].append(x)
    return {"a": a, "b": b}


def set_model(s):
    def span(t):
        x, y = t.split("/")
        at = D.datetime.strptime(x, "%Y%m%dT%H%M%S")
        n = re.match(r"P(?:(\d+)D)?(?:T(\d+)H)?$", y)
        return [at, at + D.timedelta(days=int(n.group(1) or 0), hours=int(n.group(2) or 0)) if n else D.datetime.strptime(y, "%Y%m%dT%H%M%S")]
    return [sorted(t.replace("TU,MO", "MO,TU") for t in s[0]), sorted(t.replace("TU,MO", "MO,TU") for t in s[1]), sorted(s[2]), sorted(s[3]), sorted(map(span, s[4]))]


def run_sets(J, case, rec):
    a, b = case["a"], case["b"]
    ab, ba, dup, same, kept = J.call("copies.compare_sets", a, b)
    ma, mb = set_model(a), set_model(b)
    if ma == mb:
        expect(ab and ba, "sets of the same rules, dates and periods are not equal", a=a, b=b)
    else:
        expect(not ab and not ba, "sets that differ compare equal", a=a, b=b)
    expect(ab == ba, "equality is not symmetric", a=a, b=b)
    expect(dup and same, "a copy of a set differs", a=a)
    expect(kept, "an edit of a copy shows in the original", a=a)
    rec.nt(any(a))
    rec.label("set:equal" if ma == mb else "set:differ")


ops = st.lists(st.tuples(st.integers(0, 1), st.integers(0, 4000), st.integers(0, 12)).map(list), min_size=1, max_size=6)
MANY = {
    "CATEGORIES": ([], ["a", "b c", "d\\,e", "f"]), "RESOURCES": ([], ["r", "s", "t"]),
    "EXDATE": ([], ["20200102T000000Z", "20200103T000000Z", "20200104T000000Z"]), "X-MANY": ([["VALUE", ["TEXT"]]], ["a"]),
    "RDATE": ([["VALUE", ["PERIOD"]]], ["20200102T000000Z/PT1H", "20200103T000000Z/20200103T010000Z", "20200104T000000Z/P1D"]),
    "FREEBUSY": ([], ["20200102T000000Z/PT1H", "20200103T000000Z/20200103T010000Z", "20200104T000000Z/P1D"]),
}


@st.composite
def many(draw):
    """properties of several values, edited a value at a time"""
    names = draw(st.lists(st.sampled_from(sorted(MANY)), min_size=1, max_size=3, unique=True))
    props = [["UID", [], "1"], ["DTSTART", [], "20200101T000000Z"]]
    for n in names:
        vals = draw(st.permutations(MANY[n][1]))[:draw(st.integers(2, 4))]
        props.append([n, MANY[n][0], ",".join(vals)])
    level = draw(st.sampled_from([6, 6, 6, 6, 0, 1, 1, 1, 2]))
    n = st.integers(0, 30).map(lambda k: 4 * k + 3) if level == 6 else st.one_of(st.integers(0, 4000), st.integers(0, 400).map(lambda k: 10 * k + 6)) if level < 2 else st.integers(0, 4000)
    return {"tree": ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], [[draw(st.sampled_from(["VEVENT", "VEVENT", "VFREEBUSY"])), props, []]]], "level": level, "where": draw(st.integers(0, 5)),
            "ops": draw(st.lists(st.tuples(st.integers(0, 1), n, st.integers(0, 3)).map(list), min_size=1, max_size=4))}


TESTS = [
    Test("many", many(), run, quick=500, thorough=8000, shards=1),
    Test("copies", st.fixed_dictionaries({"tree": T.calendars(5), "level": st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6]), "where": st.integers(0, 60), "ops": ops}), run, quick=1100, thorough=30000, shards=4),
    Test("cards", st.fixed_dictionaries({"card": V.card(5), "level": st.sampled_from([0, 0, 2, 2, 3, 4, 5, 6]), "where": st.integers(0, 20), "ops": ops}), run, quick=600, thorough=20000, shards=2),
    Test("pairs", pairs(), run_pair, quick=850, thorough=24000, shards=3),
    Test("sets", set_pairs(), run_sets, quick=1500, thorough=30000, shards=1),
    Test("values", value_pairs(), run_values, quick=5000, thorough=100000, shards=2),
]

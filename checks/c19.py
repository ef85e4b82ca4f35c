"""C19: validation reports exactly the broken rules, and fixing is stable."""
import copy
import datetime as D
import re
from collections import Counter

from hypothesis import strategies as st

from checks import c01
from harness import gen_ical as T, gen_vcard as V, ical, icanon
from harness.core import Test, expect, fail

ID = "C19"
MODNAME = "checks.c19"
RULE = ("a case is a calendar or card built from valid components by a number of breaking changes (properties removed, repeated, given other values, added); problems reported, the data after fixing and a second run are compared with a table of the rules. "
        "Non-trivial: at least one rule is broken.")
ASSUMPTIONS = ["the rules are those of RFC 5545 as listed in the checks's own table; a problem is identified by the component type and the property names it gives, not by its wording",
               "values are of a readable syntax: what is not is rejected when read (C20)"]

S = lambda t: t.split()
COMMON = S("CLASS CREATED DESCRIPTION LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL")
# one, at most one
CARD = {
    "VCALENDAR": ("PRODID VERSION", "CALSCALE METHOD"),
    "VEVENT": ("DTSTAMP UID", "CLASS CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION"),
    "VTODO": ("DTSTAMP UID", "CLASS COMPLETED CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION"),
    "VJOURNAL": ("DTSTAMP UID", "CLASS CREATED DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE"),
    "VFREEBUSY": ("DTSTAMP UID", "CONTACT DTSTART DTEND ORGANIZER URL"),
    "VAVAILABILITY": ("DTSTAMP UID", "BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION"),
    "AVAILABLE": ("DTSTAMP DTSTART UID", "CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION"),
    "VPOLL": ("DTSTAMP UID ORGANIZER", "ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL"),
    "VVOTER": ("VOTER", "CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL"),
    "VOTE": ("", "POLL-ITEM-ID RESPONSE"),
    "VTIMEZONE": ("TZID", "LAST-MODIFIED TZURL"),
    "STANDARD": ("DTSTART TZOFFSETTO TZOFFSETFROM", "RRULE"),
    "DAYLIGHT": ("DTSTART TZOFFSETTO TZOFFSETFROM", "RRULE"),
    "X-COMP": ("", ""),
    "VCARD": ("VERSION N", "BDAY PRODID REV UID"),
}
CARD = dict((k, (S(a), S(b))) for k, (a, b) in CARD.items())
STATUS_FIX = ("VEVENT", "VTODO", "VJOURNAL", "AVAILABLE")
RECUR = STATUS_FIX
# ACTION: one, empty when missing, at most one, at least one
ALARM = {
    "AUDIO": ("ACTION TRIGGER", "", "DURATION REPEAT ATTACH ACKNOWLEDGED", ""),
    "DISPLAY": ("ACTION TRIGGER", "DESCRIPTION", "DURATION REPEAT ACKNOWLEDGED", ""),
    "EMAIL": ("ACTION TRIGGER", "DESCRIPTION SUMMARY", "DURATION REPEAT ACKNOWLEDGED", "ATTENDEE"),
    "URI": ("ACTION TRIGGER URL", "", "DURATION REPEAT ACKNOWLEDGED", ""),
    "NONE": ("ACTION", "", "", ""),
    None: ("ACTION TRIGGER", "", "DURATION REPEAT ACKNOWLEDGED", ""),
}
ALARM = dict((k, tuple(S(x) for x in v)) for k, v in ALARM.items())
BOTH = {"VEVENT": "DTEND", "VAVAILABILITY": "DTEND", "AVAILABLE": "DTEND", "VTODO": "DURATION"}
ZONE = {"Z/West": -300, "Z/East": 540, "Z/Zero": 0}


def vtype(params, default):
    for n, v in params:
        if n == "VALUE":
            return v[0].upper()
    return default


def value_ok(name, params, raw, card):
    """the value rules: None when there is none for the property"""
    if card:
        if name == "VERSION":
            return vtype(params, "TEXT") == "TEXT" and raw.lower() == "3.0"
        if name == "PROFILE":
            return vtype(params, "TEXT") == "TEXT" and raw.lower() == "vcard"
        return None
    if name in ("CALSCALE", "VERSION"):
        return vtype(params, "TEXT") in ("TEXT", "URI", "CAL-ADDRESS") and raw.lower() == {"CALSCALE": "gregorian", "VERSION": "2.0"}[name]
    if name in ("PERCENT-COMPLETE", "PRIORITY", "REPEAT", "SEQUENCE"):
        if vtype(params, "INTEGER") != "INTEGER":
            return False
        return 0 <= int(raw) <= {"PERCENT-COMPLETE": 100, "PRIORITY": 9}.get(name, 10 ** 30)
    if name in ("COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED", "ACKNOWLEDGED"):
        return vtype(params, "DATE-TIME") in ("DATE-TIME", "DATE") and raw.endswith("Z")
    return None


def P(name, *names):
    return (name,) + tuple(sorted(names))


def count(props, name):
    return sum(p[0].upper() == name for p in props)


def raws(props, name):
    return [p for p in props if p[0].upper() == name]


def action(props):
    a = raws(props, "ACTION")
    if not a or vtype(a[0][1], "TEXT") != "TEXT":
        return "DISPLAY"
    a = a[0][2].upper()
    return a if a in ALARM else None


def problems(node, parent, card=False):
    """-> (fixable, unfixable) Counters of (type, names)"""
    name, props, subs = node
    fix, bad = Counter(), Counter()
    if name == "VALARM":
        one, empty, most, least = ALARM[action(props)]
    else:
        one, most = CARD[name]
        empty, least = [], ["FN"] if name == "VCARD" else []
    for n in one:
        if count(props, n) != 1:
            bad[P(name, n)] += 1
    for n in empty:
        if count(props, n) > 1:
            bad[P(name, n)] += 1
        elif count(props, n) == 0:
            fix[P(name, n)] += 1
    for n in most:
        if count(props, n) > 1:
            bad[P(name, n)] += 1
    for n in least:
        if count(props, n) == 0:
            bad[P(name, n)] += 1
    if name in STATUS_FIX and count(props, "STATUS") > 1:
        c = any(p[2].upper() == "CANCELLED" and vtype(p[1], "TEXT") == "TEXT" for p in raws(props, "STATUS"))
        (fix if c else bad)[P(name, "STATUS")] += 1
    for p in props:
        if value_ok(p[0].upper(), p[1], p[2], card) is False:
            bad[P(name, p[0].upper())] += 1
    if name in BOTH:
        other = "DUE" if name == "VTODO" else "DTEND"
        if count(props, other) and count(props, "DURATION"):
            fix[P(name, other, "DURATION")] += 1
    if name == "VTODO" and count(props, "DURATION") and not count(props, "DTSTART"):
        bad[P(name, "DTSTART", "DURATION")] += 1
    if name == "VEVENT" and parent is not None and not count(parent[1], "METHOD") and not count(props, "DTSTART"):
        bad[P(name, "DTSTART")] += 1
    if name == "VTIMEZONE" and not any(s[0] in ("STANDARD", "DAYLIGHT") for s in subs):
        bad[P(name, "STANDARD", "DAYLIGHT")] += 1
    if name == "VALARM" and bool(count(props, "DURATION")) != bool(count(props, "REPEAT")):
        bad[P(name, "DURATION", "REPEAT")] += 1
    if name in RECUR and count(props, "DTSTART"):
        date = is_date(raws(props, "DTSTART")[0])
        for p in raws(props, "RRULE"):
            m = re.search(r"UNTIL=(\d{8})(T\d{6}Z?)?", p[2])
            if m and (m.group(2) is None) != date:
                fix[P(name, "DTSTART", "UNTIL")] += 1
    for s in subs:
        f, u = problems(s, node, card)
        fix += f
        bad += u
    return fix, bad


def is_date(p):
    return vtype(p[1], "DATE-TIME") == "DATE"


def fixed(node):
    name, props, subs = node
    props = copy.deepcopy(props)
    if name == "VALARM":
        for n in ALARM[action(props)][1]:
            if count(props, n) == 0:
                props.append([n, [], ""])
    if name in STATUS_FIX and count(props, "STATUS") > 1 and any(p[2].upper() == "CANCELLED" for p in raws(props, "STATUS")):
        props = [p for p in props if p[0].upper() != "STATUS"] + [["STATUS", [], "CANCELLED"]]
    if name in BOTH:
        other = "DUE" if name == "VTODO" else "DTEND"
        if count(props, other) and count(props, "DURATION"):
            props = [p for p in props if p[0].upper() != BOTH[name]]
    if name in RECUR and count(props, "DTSTART"):
        s = raws(props, "DTSTART")[0]
        for p in raws(props, "RRULE"):
            p[2] = re.sub(r"UNTIL=(\d{8})(T\d{6}Z?)?", lambda m: until(m, s), p[2])
    return [name, props, [fixed(s) for s in subs]]


def until(m, start):
    if (m.group(2) is None) == is_date(start):
        return m.group(0)
    if is_date(start):
        return "UNTIL=" + m.group(1)
    # the last day stays the last day in the time zone of the start
    t = D.datetime.strptime(m.group(1) + start[2][8:15], "%Y%m%dT%H%M%S")
    for n, v in start[1]:
        if n == "TZID":
            t -= D.timedelta(minutes=ZONE[v[0]])
    return "UNTIL=" + t.strftime("%Y%m%dT%H%M%SZ")


def parsed(msgs):
    out = Counter()
    for m in msgs:
        g = re.match(r"\[([^\]]+)\][^:]*:(.*)$", m, re.S)
        if not g:
            fail("a problem that names no component and property: %r" % m)
        names = [w for w in re.findall(r"\b[A-Z][A-Z-]*\b", g.group(2))]
        out[P(g.group(1), *names)] += 1
    return out


def has_until_floating(node):
    return any(has_until_floating(s) for s in node[2]) or (any("UNTIL" in p[2] for p in node[1] if p[0].upper() == "RRULE") and any(p[0].upper() == "DTSTART" and not is_date(p) and not p[1] and not p[2].endswith("Z") for p in node[1]))


def strip_z(c):
    return re.sub(r"(UNTIL=\d{8}T\d{6})Z", r"\1", c)


def run(J, case, rec):
    card = case["kind"] == "card"
    tree = case["tree"]
    text = T.render(tree)
    extra = ["-" + p if isinstance(p, str) else "".join(list(T.logical(["X", [p], []]))[1:-1]).encode("utf-8").decode("latin-1") for p in case["extra"]]
    r = J.call("valid.run", text, extra, card)
    tree = copy.deepcopy(tree)
    for p in case["extra"]:
        if isinstance(p, str):
            tree[1][:] = [q for q in tree[1] if q[0].upper() != p]
        else:
            tree[1].append(p)
    fix, bad = problems(tree, None, card)
    after = fixed(tree) if not card else tree
    fix2, bad2 = problems(after, None, card)
    assert not fix2, "harness: the model's fix is not complete"
    show = lambda c: sorted(" ".join(k) for k in c.elements())

    def same(what, got, want):
        if got != want:
            fail(what, missing=show(want - got), extra=show(got - want), input=text, added=case["extra"])
    f, u = map(parsed, r["look"])
    same("looking reports something as fixed", f, Counter())
    same("problems reported are not the rules broken", u, fix + bad)
    expect(r["untouched"], "looking for problems changes the data")
    f, u = map(parsed, r["fix"])
    same("problems reported as fixed are not the ones that can be", f, fix)
    expect(not (bad2 - u) and not (u - bad), "problems reported as not fixed are not the ones left", got=show(u), left=show(bad2), before=show(bad), input=text)

    def read(t):
        t = c01.u8(t)
        if case["floating_until"]:
            t = strip_z(t)
        if card:
            return V.from_text(t)
        return icanon.from_text(t)[0]

    def want(tr):
        t = T.render(tr)
        if case["floating_until"]:
            t = strip_z(t)
        return V.from_text(c01.u8(t)) if card else icanon.from_text(c01.u8(t))[0]
    case["floating_until"] = has_until_floating(tree)
    d = icanon.diff(want(after), read(r["text"]))
    expect(d is None, "data after fixing is not what it should be: %s" % d, output=r["text"], input=text)
    f, u = map(parsed, r["again"])
    same("fixing again fixes something", f, Counter())
    same("fixing again reports other problems than are left", u, bad2)
    expect(r["stable"], "fixing again changes the data")
    f, u = map(parsed, r["look2"])
    same("looking after fixing", f + u, bad2)
    for k, left, t in (("raise0", fix + bad, tree), ("raise1", None, after)):
        if r[k] == "ValidationError":
            expect(left if left is not None else bad, "ValidationError though nothing is left broken", step=k)
        else:
            expect(not (left if left is not None else bad2), "no ValidationError though rules are broken", step=k, left=show(bad))
        d = icanon.diff(want(t), read(r["r" + k.replace("raise", "text")]))
        expect(d is None, "data after %s differs: %s" % (k, d))
    if "spans" in r:
        a, b = r["spans"]
        expect(a == b, "start and end after fixing are not those of the data written", got=a, want=b, output=r["text"])
        a, b = r["rules"]
        expect(a == b, "cached rules after fixing are not those of the data written", got=a, want=b, output=r["text"])
    rec.nt(bool(fix or bad))
    rec.label(*(["fix " + " ".join(k) for k in fix] + ["bad " + " ".join(k) for k in bad] or ["clean"]))


_run = run


def run(J, case, rec):
    case = copy.deepcopy(case)
    case.setdefault("floating_until", False)
    _run(J, case, rec)


UTC = [[[], "20200101T120000Z"], [[], "20200105T000000Z"], [[["VALUE", ["DATE-TIME"]]], "20200101T000000Z"], [[["X-A", ["b"]]], "19700101T000000Z"]]
NOTUTC = [[[], "20200101T120000"], [[], "20200101T000000"], [[["VALUE", ["DATE-TIME"]]], "20200101T000000"], [[["VALUE", ["DATE"]]], "20200101"], [[["TZID", ["Z/East"]]], "20200101T120000"]]
INT = [[[], "0"], [[], "1"], [[], "5"], [[], "9"], [[["VALUE", ["INTEGER"]]], "7"], [[["X-A", ["b"]]], "8"]]
LARGE = [[[], "10"], [[], "101"], [[], "2147483647"], [[], "12345678901"]]
INTBAD = [[[], "-1"], [[], "-0"], [[["VALUE", ["TEXT"]]], "5"], [[["VALUE", ["INTEGER"]]], "-1"], [[["X-A", ["b"]]], "-5"], [[], "-2147483648"]]
DTS = [[[], "20200110T233000Z"], [[], "20200110T233000"], [[["TZID", ["Z/West"]]], "20200110T230000"], [[["TZID", ["Z/East"]]], "20200110T010000"], [[["VALUE", ["DATE"]]], "20200110"], [[["TZID", ["Z/Zero"]]], "20200110T100000"]]
RR = [[[], "FREQ=DAILY"], [[], "FREQ=DAILY;COUNT=3"], [[], "FREQ=DAILY;UNTIL=20200115"], [[], "FREQ=WEEKLY;UNTIL=20200229"], [[], "FREQ=DAILY;UNTIL=20200115T120000Z"], [[], "FREQ=DAILY;UNTIL=20200115T233000"], [[], "FREQ=YEARLY;UNTIL=20231231;BYMONTH=1"]]
TXT = [[[], "a"], [[], "b c"], [[["LANGUAGE", ["en"]]], "a"]]
VALUES = {}
for n in S("DTSTAMP COMPLETED CREATED LAST-MODIFIED ACKNOWLEDGED"):
    VALUES[n] = (UTC, NOTUTC)
for n in S("SEQUENCE REPEAT"):
    VALUES[n] = (INT + LARGE, INTBAD)
VALUES["PRIORITY"] = (INT, INTBAD + LARGE + [[[], "100"], [[["VALUE", ["INTEGER"]]], "10"]])
VALUES["PERCENT-COMPLETE"] = (INT + [[[], "10"], [[], "99"], [[], "100"]], INTBAD + LARGE[1:] + [[[["VALUE", ["INTEGER"]]], "101"]])
for n in S("POLL-WINNER POLL-ITEM-ID RESPONSE"):
    VALUES[n] = (INT, [])
for n in S("DTSTART RECURRENCE-ID"):
    VALUES[n] = (DTS, [])
VALUES["DTEND"] = VALUES["DUE"] = ([[p, v.replace("20200110", "20200112")] for p, v in DTS], [])
VALUES["DURATION"] = ([[[], "P1D"], [[], "PT1H"], [[], "P2W"]], [])
VALUES["RRULE"] = VALUES["EXRULE"] = (RR, [])
VALUES["GEO"] = ([[[], "1.5;2.5"]], [])
for n in S("URL TZURL ATTACH"):
    VALUES[n] = ([[[], "http://example.com/"], [[], "http://example.com/b"]], [])
for n in S("ORGANIZER ATTENDEE VOTER"):
    VALUES[n] = ([[[], "mailto:a@example.com"], [[["CN", ["B"]]], "mailto:b@example.com"]], [])
VALUES["TZOFFSETTO"] = VALUES["TZOFFSETFROM"] = ([[[], "+0100"], [[], "-0500"]], [])
VALUES["STATUS"] = ([[[], "CONFIRMED"], [[], "CANCELLED"], [[], "TENTATIVE"], [[], "cancelled"], [[], "Cancelled"], [[], "X-CANCELLED"]], [])
VALUES["ACTION"] = ([[[], a] for a in ("AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "PROCEDURE", "X-FOO", "display", "Email")], [])
VALUES["TRIGGER"] = ([[[], "-PT5M"], [[["RELATED", ["END"]]], "PT0S"], [[["VALUE", ["DATE-TIME"]]], "20200101T000000Z"]], [])
VALUES["VERSION"] = ([[[], "2.0"], [[["X-A", ["b"]]], "2.0"]], [[[], v] for v in ("1.0", "2", "2.", "", "2.0.1", "12.0", "02.0", "2.0x", "3.0", "2,0")])
VALUES["CALSCALE"] = ([[[], "GREGORIAN"], [[], "gregorian"], [[], "Gregorian"], [[["X-A", ["b"]]], "GREGORIAN"]], [[[], v] for v in ("JULIAN", "GREGORIA", "G", "", "GREGORIANS", "XGREGORIAN", "GREGORIAN-2")])
VALUES["POLL-PROPERTIES"] = ([[[], "SUMMARY"]], [])
ANY = (TXT, [])


def anyval(name, bad=0):
    ok, wrong = VALUES.get(name, ANY)
    return st.sampled_from(wrong if wrong and bad else ok)


SUBS = {"VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VAVAILABILITY": ["AVAILABLE"], "VPOLL": ["VVOTER", "VEVENT", "VTODO"], "VVOTER": ["VOTE"], "VTIMEZONE": ["STANDARD", "DAYLIGHT"], "X-COMP": ["VEVENT", "X-COMP"], "VCALENDAR": []}
OTHERS = {"VALARM": S("DESCRIPTION SUMMARY ATTENDEE URL ATTACH DURATION REPEAT ACKNOWLEDGED TRIGGER ACTION SEQUENCE X-FOO"), "X-COMP": S("UID DTSTAMP SEQUENCE PRIORITY DTSTART SUMMARY VERSION"), "STANDARD": S("TZNAME COMMENT"), "DAYLIGHT": S("TZNAME COMMENT")}
EXTRAS = S("COMMENT ATTENDEE CONTACT RDATE EXRULE X-FOO STATUS SEQUENCE PRIORITY PERCENT-COMPLETE REPEAT LAST-MODIFIED VERSION DTEND DUE DURATION DTSTART RRULE RRULE")
VALUES["RDATE"] = ([[[], "20200120T120000"], [[], "20200121T120000,20200122T120000"]], [])


@st.composite
def body(draw, name, depth=0):
    """a valid component, then broken"""
    props = []

    def put(n, bad=0):
        p, v = draw(anyval(n, bad))
        props.append([n, copy.deepcopy(p), v])
    if name == "VALARM":
        put("ACTION")
        one, empty, most, least = ALARM[action(props)]
        for n in one[1:] + empty + least:
            put(n)
        if draw(st.integers(0, 3)) == 0:
            put("REPEAT"), put("DURATION")
        vocab = OTHERS["VALARM"]
    else:
        one, most = CARD[name]
        for n in one:
            put(n)
        for n in draw(st.lists(st.sampled_from(most), unique=True, max_size=4)) if most else []:
            if name in BOTH and n == "DURATION" and count(props, "DUE" if name == "VTODO" else "DTEND") or n in ("DUE", "DTEND") and count(props, "DURATION"):
                continue
            put(n)
        if name == "VEVENT" or (name == "VTODO" and count(props, "DURATION")):
            if not count(props, "DTSTART"):
                put("DTSTART")
        vocab = one + most + OTHERS.get(name, EXTRAS)
    if name in ("STANDARD", "DAYLIGHT"):
        for p in props:
            if p[0] == "DTSTART":
                p[1], p[2] = [], "20200110T010000"
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
        k = draw(st.sampled_from(["remove", "repeat", "bad", "add", "add", "add"]))
        if k == "remove" and props:
            props.pop(draw(st.integers(0, len(props) - 1)))
        elif k == "repeat" and props:
            put(draw(st.sampled_from([p[0] for p in props])))
        elif k == "bad":
            c = [n for n in vocab if VALUES.get(n, ANY)[1]]
            if c:
                n = draw(st.sampled_from(c))
                if draw(st.booleans()):
                    props[:] = [p for p in props if p[0] != n]
                put(n, 1)
        elif vocab:
            n = draw(st.sampled_from(vocab))
            put(n)
            if n == "STATUS" and draw(st.booleans()):
                put("STATUS")
    if name in ("STANDARD", "DAYLIGHT"):
        for p in props:
            if p[0] == "DTSTART":
                p[1], p[2] = [], "20200110T010000"
    props = draw(st.permutations(props))
    if draw(st.integers(0, 5)) == 0:
        for p in props:
            p[0] = draw(st.sampled_from([p[0], p[0].lower(), p[0].title()]))
    subs = []
    if depth < 2 and SUBS.get(name):
        lo = 1 if name == "VTIMEZONE" and draw(st.integers(0, 3)) else 0
        for n in draw(st.lists(st.sampled_from(SUBS[name]), min_size=lo, max_size=2)):
            subs.append(draw(body(n, depth + 1)))
    return [name, props, subs]


def zone(i):
    o = "%s%02d%02d" % ("-" if ZONE[i] < 0 else "+", abs(ZONE[i]) // 60, abs(ZONE[i]) % 60)
    return ["VTIMEZONE", [["TZID", [], i]], [["STANDARD", [["DTSTART", [], "19700101T000000"], ["TZOFFSETFROM", [], o], ["TZOFFSETTO", [], o]], []]]]


@st.composite
def cals(draw):
    comps = [draw(body(n)) for n in draw(st.lists(st.sampled_from(["VEVENT"] * 4 + ["VTODO"] * 3 + ["VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VPOLL", "VTIMEZONE", "X-COMP"]), min_size=1, max_size=2))]
    props = [["VERSION", [], "2.0"], ["PRODID", [], "x"]]
    extra = []
    if draw(st.integers(0, 2)) == 0:
        props.append(["METHOD", [], "PUBLISH"])
    if draw(st.integers(0, 3)) == 0:
        props.append(["CALSCALE", [], "GREGORIAN"])
    k = draw(st.sampled_from([0, 1, 2, 3, 3] + [9] * 7))
    if k == 0:
        extra.append(draw(st.sampled_from(props))[0])
    elif k == 1:
        props.append(list(draw(st.sampled_from(props))))
    elif k == 2:
        extra.append(draw(st.sampled_from([["VERSION", [], "1.0"], ["VERSION", [], "2.0"], ["CALSCALE", [], "JULIAN"], ["CALSCALE", [], "gregorian"], ["CALSCALE", [], "GREGORIAN"], ["PRODID", [], "y"], ["METHOD", [], "ADD"], ["X-FOO", [], "y"], ["LAST-MODIFIED", [], "20200101T000000"]])))
    elif k == 3:
        n = draw(st.sampled_from(["VERSION", "CALSCALE"]))
        p, v = draw(st.one_of(anyval(n, 1), anyval(n, 1), anyval(n)))
        # set by the program: a wrong one is not accepted when read
        if draw(st.integers(0, 3)):
            extra.append(n)
        extra.append([n, copy.deepcopy(p), v])
    used = set(v for c in comps for v in re.findall(r"Z/[A-Z][a-z]+", repr(c)))
    # nested in a poll, whose METHOD is the calendar's: DTSTART is there
    return {"kind": "cal", "tree": ["VCALENDAR", draw(st.permutations(props)), [zone(z) for z in sorted(used)] + comps], "extra": extra}


@st.composite
def cards(draw):
    vals = {"VERSION": ["3.0"], "N": ["A;B;;;", ";;;;", "Q;;;;"], "FN": ["A B", "C"], "BDAY": ["20200101", "20200102"], "PRODID": ["x", "y"], "REV": ["20200101T000000Z", "20200102T000000Z"], "UID": ["1", "2"], "PROFILE": ["VCARD", "vcard"],
            "NOTE": ["a", "b"], "EMAIL": ["a@b"], "NICKNAME": ["a", "b,c"], "ORG": ["a;b"]}
    names = ["VERSION", "N", "FN"] + draw(st.lists(st.sampled_from(sorted(vals)[:]), max_size=4))
    extra = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        if draw(st.booleans()):
            extra.append(draw(st.sampled_from(names)))
        else:
            names.append(draw(st.sampled_from(sorted(vals))))
    props = [[n, [], draw(st.sampled_from(vals[n]))] for n in names]
    if draw(st.integers(0, 3)) == 0:
        extra.append(draw(st.sampled_from([["VERSION", [], "2.1"], ["VERSION", [], "3.0"], ["VERSION", [], "4.0"], ["VERSION", [], "3"], ["VERSION", [], ""], ["VERSION", [], "3.0.1"], ["PROFILE", [], "V"], ["PROFILE", [], "XVCARD"], ["PROFILE", [], ""], ["PROFILE", [], "OTHER"], ["PROFILE", [], "VCard"], ["FN", [], "x"], ["N", [], "x;;;;"]])))
    elif draw(st.integers(0, 5)) == 0:
        props.append(["PROFILE", [], "OTHER"])
    return {"kind": "card", "tree": ["VCARD", draw(st.permutations(props)), []], "extra": extra}


TESTS = [
    Test("calendars", cals(), run, quick=3000, thorough=80000, shards=6),
    Test("cards", cards(), run, quick=800, thorough=15000, shards=1),
]

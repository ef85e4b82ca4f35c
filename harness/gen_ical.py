"""Generators of well-formed iCalendar objects, and their rendering as text.

A case's tree is [NAME, [[PROPNAME, [[PARAM, [values]], ...], raw value], ...], [subtrees]].
Parameter values are the decoded strings; the raw value is wire text (already escaped).
"""
import datetime as D

from hypothesis import strategies as st

from harness import gen_rrule as G, ical, rrule_model as M

# ---------------------------------------------------------------- text
SPECIAL = list("\\\\\\,,;;::\"\"^^nNrt'= \n\n") + ["\t", "\u00e9", "\u00c5", "\u0085", "\u00a0", "\u2028", "\u00e0", "\u4e2d", "\U0001f600", "\u0301", "<", "&", ">", "]]>", "BEGIN:VEVENT", "\\n", "\\\\", "\\,", "END:VCALENDAR", "\nEND:VEVENT\n"]
anychar = st.characters(exclude_categories=("Cs", "Cc", "Cn", "Co"))
bits = st.one_of(st.sampled_from(SPECIAL), st.sampled_from(list("abcXYZ019 ")), anychar)
short_text = st.lists(bits, max_size=12).map("".join)
long_text = st.tuples(st.lists(bits, min_size=1, max_size=8).map("".join), st.integers(1, 14), st.lists(bits, max_size=8).map("".join)).map(lambda t: "abcdefghi " * 0 + (t[0] + "word") * t[1] + t[2])
texts = st.one_of(short_text, short_text, long_text)
line_text = texts.map(lambda s: s.replace("\n", " ").replace("\u0085", "x").replace("\u2028", "x"))
def unbackslash(v):
    """the listed finding: a value that is written in quotes and ends in a backslash cannot be read back"""
    return v + "." if v.endswith("\\") and (v.startswith(" ") or any(c in v for c in ":;,")) else v


ptext = st.one_of(st.sampled_from(["a", "John Smith", "Bj\u00f6rk"]), short_text, short_text, long_text).map(unbackslash)
word = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-", min_size=1, max_size=12)

# ---------------------------------------------------------------- values (wire text)
years = st.one_of(st.integers(1970, 2037), st.sampled_from([1, 999, 1600, 1752, 1900, 2000, 2100, 9999]))
dates = st.tuples(years, st.integers(1, 12), st.integers(1, 28)).map(lambda t: "%04d%02d%02d" % t)
times = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(lambda t: "%02d%02d%02d" % t)
floating = st.tuples(dates, times).map("T".join)
utc = floating.map(lambda s: s + "Z")


def _dur(t):
    sign, w, d, h, m, s, form = t
    if form == 0:
        return sign + "P%dW" % w
    out = "P" + ("%dD" % d if form != 2 else "")
    if form >= 2:
        out += "T" + "".join(("%dH" % h if form != 4 else "", "%dM" % m if form != 5 else "", "%dS" % s if form != 3 else "")) if form not in (4, 5) else "T%dH" % h if form == 4 else "T%dS" % s
    return sign + out


def _durtext(t):
    sign, w, d, h, m, s, form = t
    return sign + {0: "P%dW" % w, 1: "P%dD" % d, 2: "PT%dH%dM%dS" % (h, m, s), 3: "P%dDT%dH%dM" % (d, h, m), 4: "PT%dM" % m, 5: "P%dDT%dS" % (d, s), 6: "PT%dH" % h, 7: "P%dDT%dH%dM%dS" % (d, h, m, s), 8: "PT%dM%dS" % (m, s)}[form]


def durations(signs=("", "", "-", "+")):
    return st.tuples(st.sampled_from(signs), st.integers(0, 60), st.integers(0, 400), st.integers(0, 30), st.integers(0, 70), st.integers(0, 70), st.integers(0, 8)).map(_durtext)


def periods(point):
    return st.one_of(st.tuples(point, point).map("/".join), st.tuples(point, durations(("", ""))).map("/".join))


integers = st.one_of(st.integers(0, 9), st.integers(-2147483648, 2147483647)).map(str)
floats = st.one_of(st.sampled_from(["0.5", "-1.25", "37.386013", "-122.082932", "0", "1", "-0.000125", "123456.789012", "0.1", "179.999999"]),
                   st.tuples(st.integers(-180, 180), st.integers(0, 10 ** 14)).map(lambda t: "%d.%014d" % t))
geos = st.tuples(floats, floats).map(";".join)
offsets = st.tuples(st.sampled_from("+-"), st.integers(0, 14), st.one_of(st.integers(0, 59), st.sampled_from([0, 0, 30])), st.sampled_from([None, None, None, 1, 2, 30, 59])).filter(lambda t: t[0] == "+" or t[1] or t[2] or t[3]).map(lambda t: "%s%02d%02d" % t[:3] + ("" if t[3] is None else "%02d" % t[3]))
uris = st.one_of(st.sampled_from(["http://example.com/a?b=c;d,e", "mailto:a@example.com", "CID:part1@example.com", "urn:uuid:1-2-3", "ldap://[2001:db8::7]/c=GB?objectClass?one", "http://example.com/%5C,;'()*+$&@!~"]),
                 st.text(alphabet="abcz09:/?#[]@!$&'()*+,;=-._~%", max_size=120).map(lambda s: "http://x.example/" + s))
addresses = st.one_of(st.sampled_from(["mailto:a@example.com", "MAILTO:b.c@example.org", "urn:uuid:0-1", "http://example.com/p/1;2,3", "/principals/__uids__/ab:c/"]),
                      word.map(lambda s: "mailto:%s@example.com" % s))
binary = st.binary(max_size=120).map(lambda b: __import__("base64").b64encode(b).decode())
booleans = st.sampled_from(["TRUE", "FALSE"])
timevals = st.tuples(times, st.sampled_from(["", "Z"])).map("".join)
text1 = texts.map(ical.escape)
# the same text with the optional escapes left out or spelled the other way
text1 = st.tuples(text1, st.booleans()).map(lambda t: t[0].replace("\\n", "\\N") if t[1] and "\\\\" not in t[0] else t[0])
textlist = st.lists(texts.map(ical.escape), min_size=1, max_size=4).map(",".join)
raw = line_text

UNTIL = st.one_of(utc, dates)


@st.composite
def recurs(draw):
    d = draw(st.booleans())
    r = draw(G.rules(dateonly=d))
    e = draw(st.sampled_from(["", "count", "until"]))
    if e == "count":
        r["count"] = draw(st.integers(1, 400))
    elif e == "until":
        r["until_text"] = draw(dates if d else utc)
    return M.text(r)


zone_rules = st.tuples(st.sampled_from(["", ";UNTIL=20301031T020000Z", ";COUNT=5"]), st.integers(1, 12), st.sampled_from(["-1SU", "1SU", "2SU", "3WE"])).map(lambda t: "FREQ=YEARLY%s;BYMONTH=%d;BYDAY=%s" % t)


def many(s, n=3):
    return st.lists(s, min_size=1, max_size=n).map(",".join)


ZONES = ["America/New_York", "Custom/Zone One", "/freeassociation.sourceforge.net/Tzfile/Europe/London", "W. Europe; Standard, Time"]
tzparam = st.sampled_from(ZONES).map(lambda z: [["TZID", [z]]])
none = st.just([])


def dtval(name):
    return st.one_of(st.tuples(none, floating), st.tuples(none, utc), st.tuples(tzparam, floating), st.tuples(st.just([["VALUE", ["DATE"]]]), dates))


def simple(v, params=none):
    return st.tuples(params, v)


V = lambda t: st.just([["VALUE", [t]]])
TEXTPARAMS = ["LANGUAGE", "ALTREP"]
XPARAM = ["X-PARAM", "X-CALENDARSERVER-FOO"]
ATTPARAMS = ["CN", "CUTYPE", "ROLE", "PARTSTAT", "RSVP", "DELEGATED-TO", "DELEGATED-FROM", "MEMBER", "SENT-BY", "DIR", "EMAIL", "SCHEDULE-STATUS"]

SPEC = {}


def spec(names, value, params=()):
    for n in names.split():
        SPEC[n] = (value, list(params))


spec("SUMMARY DESCRIPTION LOCATION COMMENT CONTACT", simple(text1), TEXTPARAMS)
spec("CLASS STATUS TRANSP UID RELATED-TO X-WR-ALARMUID ACTION POLL-MODE POLL-COMPLETION ACCEPT-RESPONSE", simple(text1), ["RELTYPE"])
spec("CATEGORIES RESOURCES POLL-PROPERTIES", simple(textlist), ["LANGUAGE"])
spec("URL TZURL", simple(uris))
spec("ATTACH", st.one_of(simple(uris), simple(binary, st.just([["VALUE", ["BINARY"]], ["ENCODING", ["BASE64"]]]))), ["FMTTYPE"])
spec("ATTENDEE ORGANIZER VOTER", simple(addresses), ATTPARAMS)
spec("DTSTART DTEND DUE RECURRENCE-ID", dtval(""))
spec("DTSTAMP CREATED LAST-MODIFIED COMPLETED ACKNOWLEDGED", simple(utc))
spec("EXDATE", st.one_of(simple(many(floating)), simple(many(utc)), simple(many(floating), tzparam), simple(many(dates), V("DATE"))))
spec("RDATE", st.one_of(simple(many(floating)), simple(many(utc)), simple(many(floating), tzparam), simple(many(dates), V("DATE")),
                        simple(many(periods(utc)), V("PERIOD")), simple(many(periods(floating)), st.just([["VALUE", ["PERIOD"]], ["TZID", [ZONES[0]]]]))))
spec("RRULE EXRULE", simple(recurs()))
spec("DURATION", simple(durations(("", "", "+"))))
spec("TRIGGER", st.one_of(simple(durations()), simple(utc, V("DATE-TIME"))), ["RELATED"])
spec("PRIORITY SEQUENCE REPEAT PERCENT-COMPLETE POLL-ITEM-ID POLL-WINNER RESPONSE", simple(integers))
spec("GEO", simple(geos))
spec("REQUEST-STATUS", simple(st.tuples(st.sampled_from(["2.0", "3.1", "4.2.1", "5.10"]), texts.map(ical.escape), st.one_of(st.none(), texts.filter(bool).map(ical.escape))).map(lambda t: ";".join(x for x in t if x is not None))), ["LANGUAGE"])
spec("FREEBUSY", simple(many(periods(utc), 4)), ["FBTYPE"])
spec("TZOFFSETFROM TZOFFSETTO", simple(offsets))
spec("TZNAME", simple(text1), ["LANGUAGE"])
XV = st.one_of(simple(raw), simple(raw), simple(text1, V("TEXT")), simple(integers, V("INTEGER")), simple(floats, V("FLOAT")), simple(dates, V("DATE")), simple(floating, V("DATE-TIME")),
               simple(utc, V("DATE-TIME")), simple(durations(), V("DURATION")), simple(periods(utc), V("PERIOD")), simple(recurs(), V("RECUR")), simple(uris, V("URI")), simple(addresses, V("CAL-ADDRESS")),
               simple(offsets, V("UTC-OFFSET")), simple(binary, V("BINARY")), simple(booleans, V("BOOLEAN")), simple(timevals, V("TIME")), simple(raw, V("X-TYPE")),
               simple(floating, st.just([["VALUE", ["DATE-TIME"]], ["TZID", [ZONES[0]]]])))
spec("X-FOO X-ALT-DESC X-BUSYMAC-LASTMODBY X-1 NEW-THING", XV, ["LANGUAGE", "ALTREP", "FMTTYPE"])
spec("X-WR-CALNAME X-WR-CALDESC METHOD PRODID", simple(text1))

COMMON = "SUMMARY DESCRIPTION COMMENT CONTACT CATEGORIES URL ATTACH ATTENDEE ORGANIZER DTSTAMP CREATED LAST-MODIFIED SEQUENCE REQUEST-STATUS X-FOO X-FOO X-ALT-DESC NEW-THING CLASS STATUS".split()
RECUR = "DTSTART RECURRENCE-ID RRULE EXRULE RDATE EXDATE RELATED-TO".split()
PROPS = {
    "VEVENT": COMMON + RECUR + "DTEND DURATION LOCATION RESOURCES GEO PRIORITY TRANSP".split(),
    "VTODO": COMMON + RECUR + "DUE DURATION LOCATION RESOURCES GEO PRIORITY PERCENT-COMPLETE COMPLETED".split(),
    "VJOURNAL": COMMON + RECUR,
    "VFREEBUSY": "DTSTART DTEND DTSTAMP FREEBUSY FREEBUSY ORGANIZER ATTENDEE COMMENT REQUEST-STATUS URL X-FOO".split(),
    "VALARM": "ACTION TRIGGER REPEAT DURATION DESCRIPTION SUMMARY ATTENDEE ATTACH ACKNOWLEDGED X-WR-ALARMUID X-FOO".split(),
    "VAVAILABILITY": "DTSTAMP DTSTART DTEND DURATION CREATED LAST-MODIFIED ORGANIZER SUMMARY CATEGORIES X-FOO".split(),
    "AVAILABLE": "DTSTAMP DTSTART DTEND DURATION RRULE RDATE EXDATE SUMMARY DESCRIPTION CATEGORIES X-FOO".split(),
    "VPOLL": "DTSTAMP ORGANIZER SUMMARY POLL-MODE POLL-PROPERTIES POLL-COMPLETION ACCEPT-RESPONSE POLL-WINNER STATUS X-FOO".split(),
    "VVOTER": "VOTER SUMMARY CREATED DESCRIPTION URL".split(),
    "VOTE": "POLL-ITEM-ID RESPONSE COMMENT".split(),
    "VTIMEZONE": "LAST-MODIFIED TZURL X-FOO".split(),
    "STANDARD": "RDATE RRULE COMMENT X-FOO".split(),
    "X-COMP": COMMON + ["UID", "DTSTART", "X-1"],
    "VCALENDAR": "METHOD X-WR-CALNAME X-WR-CALDESC X-FOO X-1".split(),
}
PROPS["DAYLIGHT"] = PROPS["STANDARD"]
PROPS["VPATCH"] = PROPS["X-COMP"]
SINGLE = set("SUMMARY DTSTART DTEND DUE DURATION RECURRENCE-ID UID DTSTAMP CREATED LAST-MODIFIED SEQUENCE COMPLETED PERCENT-COMPLETE PRIORITY GEO STATUS CLASS TRANSP ORGANIZER ACTION TRIGGER REPEAT METHOD TZURL POLL-MODE POLL-ITEM-ID POLL-WINNER RESPONSE VOTER X-WR-CALNAME X-WR-CALDESC X-WR-ALARMUID ACKNOWLEDGED".split())
# names used once in a journal only at times
SUBS = {
    "VCALENDAR": ["VEVENT"] * 5 + ["VTODO"] * 3 + ["VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VPOLL", "VTIMEZONE", "VTIMEZONE", "X-COMP", "VPATCH"],
    "VEVENT": ["VALARM"], "VTODO": ["VALARM"], "VAVAILABILITY": ["AVAILABLE"], "VPOLL": ["VVOTER", "VVOTER", "VEVENT", "VTODO"], "VVOTER": ["VOTE"],
    "VTIMEZONE": ["STANDARD", "DAYLIGHT"], "X-COMP": ["X-COMP", "VALARM", "VEVENT"], "VPATCH": ["X-COMP"],
}


@st.composite
def params_for(draw, names):
    out = []
    n = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    for name in draw(st.permutations(list(names) + XPARAM)) [:n] if n else []:
        k = draw(st.sampled_from([1, 1, 1, 2, 3]))
        out.append([name, [draw(ptext) for _ in range(k)]])
    return out


@st.composite
def prop(draw, name):
    value, pnames = SPEC[name]
    base, raw = draw(value)
    extra = draw(params_for([p for p in pnames]))
    return [name, [list(p) for p in base] + extra, raw]


@st.composite
def component(draw, name, depth=0, size=6):
    props, used = [], set()
    names = draw(st.lists(st.sampled_from(PROPS[name]), max_size=size))
    if name in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "AVAILABLE", "VPOLL") and draw(st.integers(0, 9)):
        props.append(["UID", [], draw(st.sampled_from(["uid-1", "uid-2", "Uid\\,3", "u"]))])
    if name == "VTIMEZONE":
        props.append(["TZID", [], draw(st.sampled_from([ical.escape(z) for z in ZONES]))])
    if name in ("STANDARD", "DAYLIGHT"):
        props.append(["DTSTART", [], draw(floating)])
        for n in ("TZOFFSETFROM", "TZOFFSETTO", "TZNAME"):
            props.append(draw(prop(n)))
        names = [n for n in names if n != "RDATE"]
    if name == "VVOTER":
        names = [n for n in names if n != "VOTER"]
        props.append(draw(prop("VOTER")))
    if name == "VOTE":
        names = ["POLL-ITEM-ID"] + names
    if name == "VALARM":
        names = ["ACTION", "TRIGGER"] + names
    for n in names:
        if n in SINGLE:
            if n in used:
                continue
            used.add(n)
        if n == "RRULE" and name in ("STANDARD", "DAYLIGHT"):
            # zones change a few times a year: comparing date-times expands these rules up to the year in question
            props.append([n, [], draw(zone_rules)])
            continue
        props.append(draw(prop(n)))
    subs = []
    if depth < 3 and name in SUBS:
        lo = 1 if name in ("VTIMEZONE",) else 0
        for n in draw(st.lists(st.sampled_from(SUBS[name]), min_size=lo, max_size=4 if depth == 0 else 2)):
            subs.append(draw(component(n, depth + 1, size if depth == 0 else 4)))
    if name == "VTIMEZONE":
        pass
    if name != "VCALENDAR":
        props = draw(st.permutations(props)) if len(props) > 1 and draw(st.booleans()) else props
    return [name, [list(p) for p in props], subs]


@st.composite
def calendars(draw, size=6):
    tree = draw(component("VCALENDAR", 0, size))
    # one definition per zone
    seen, subs = set(), []
    for s in tree[2]:
        if s[0] == "VTIMEZONE":
            z = [p[2] for p in s[1] if p[0] == "TZID"][0]
            if z in seen:
                continue
            seen.add(z)
        subs.append(s)
    tree[2] = subs
    tree[1] = [["VERSION", [], "2.0"], ["PRODID", [], "-//x//y//EN"]] + [p for p in tree[1] if p[0] != "PRODID"]
    return tree


# ---------------------------------------------------------------- rendering
def caret(v):
    return v.replace("^", "^^").replace("\n", "^n").replace('"', "^'")


def param_text(name, values, quote=False):
    out = []
    for v in values:
        e = caret(v)
        out.append('"%s"' % e if (quote and not e.endswith("\\")) or any(c in e for c in ":;,") or e != e.strip(" ") or e == "" else e)
    return "%s=%s" % (name, ",".join(out))


def cased(s, case):
    return s if not case else s.lower() if case == "lower" else s.title()


def logical(tree, case=None, quote=False):
    yield cased("BEGIN:" + tree[0], case)
    for name, params, value in tree[1]:
        n = name if not case else name.lower() if case == "lower" else name.title()
        ps = "".join(";" + (param_text(p if not case else p.lower() if case == "lower" else p.title(), vs if not case or p != "VALUE" else [v.lower() for v in vs], quote and p != "VALUE")) for p, vs in params)
        yield n + ps + ":" + value
    for s in tree[2]:
        for l in logical(s, case, quote):
            yield l
    yield cased("END:" + tree[0], case)


def fold(line, widths, ws=" ", eol="\r\n"):
    """fold at octet positions: widths are taken in turn (0: no further fold)"""
    b = line.encode("utf-8")
    if not widths:
        return b.decode("utf-8")
    out, i, k = [], 0, 0
    while i < len(b):
        w = widths[k % len(widths)]
        k += 1
        if w <= 0:
            out.append(b[i:])
            break
        out.append(b[i:i + w])
        i += w
    return (eol.encode() + ws.encode()).join(out)


def render(tree, widths=(), ws=" ", eol="\r\n", last=True, case=None, quote=False):
    """-> latin-1 carrier of the octets (so that folds inside a character survive JSON)"""
    lines = []
    for l in logical(tree, case, quote):
        f = fold(l, widths, ws, eol)
        lines.append(f if isinstance(f, bytes) else f.encode("utf-8"))
    data = eol.encode().join(lines) + (eol.encode() if last else b"")
    return data.decode("latin-1")


layouts = st.fixed_dictionaries({
    "widths": st.one_of(st.just([]), st.just([75]), st.lists(st.integers(1, 90), min_size=1, max_size=5), st.just([1]), st.lists(st.integers(1, 9), min_size=1, max_size=3)),
    "ws": st.sampled_from([" ", " ", "\t"]),
    "eol": st.sampled_from(["\r\n", "\r\n", "\n"]),
    "last": st.sampled_from([True, True, True, False]),
    "case": st.sampled_from([None, None, None, "lower", "title"]),
    "quote": st.booleans(),
})

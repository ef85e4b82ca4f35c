"""Generator of well-formed vCard 3.0 streams, their rendering, and their meaning read independently.

A card is [[group, NAME, [[PARAM, [values]], ...], raw value], ...]; a PARAM with values None is a vCard 2.1 bare parameter.
"""
import base64
import re

from hypothesis import strategies as st

from harness import gen_ical as T, ical, icanon
from harness.icanon import key

text1 = T.texts.map(lambda s: ical.escape(s))
bare = T.texts.map(lambda s: ical.escape(s.replace("\t", " ")))
item = st.lists(T.short_text.map(ical.escape), min_size=1, max_size=3).map(",".join)


def comps(n):
    return st.lists(st.one_of(T.short_text.map(ical.escape), item, st.just("")), min_size=1, max_size=n).map(";".join)


dates = st.tuples(T.years, st.integers(1, 12), st.integers(1, 28), st.booleans()).map(lambda t: ("%04d-%02d-%02d" if t[3] else "%04d%02d%02d") % t[:3])
zone = st.one_of(st.sampled_from(["", "Z"]), st.tuples(st.sampled_from("+-"), st.integers(0, 14), st.integers(0, 59), st.booleans()).map(lambda t: "%s%02d%s%02d" % (t[0], t[1], ":" if t[3] else "", t[2])))
times = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), st.booleans(), st.sampled_from(["", "", "", ",5", ",125"])).map(lambda t: ("%02d:%02d:%02d" if t[3] else "%02d%02d%02d") % t[:3] + t[4])
stamps = st.tuples(dates, times, zone).map(lambda t: t[0] + "T" + t[1] + t[2])
offsets = st.tuples(st.sampled_from("+-"), st.integers(0, 14), st.one_of(st.integers(0, 59), st.sampled_from([0, 0, 30])), st.sampled_from([None, None, None, 1, 9, 30, 59])).map(lambda t: "%s%02d:%02d" % t[:3] + ("" if t[3] is None else ":%02d" % t[3]))
binary = st.one_of(st.binary(max_size=200), st.binary(min_size=40, max_size=120)).map(lambda b: base64.b64encode(b).decode())
B = [["ENCODING", ["b"]]]
V = lambda t: [["VALUE", [t]]]
none = st.just([])


def simple(v, params=()):
    return v.map(lambda x: ([list(p) for p in params], x))


SPEC = {}


def spec(names, v):
    for n in names.split():
        SPEC[n] = v


spec("FN NOTE LABEL TEL EMAIL TITLE ROLE MAILER SORT-STRING UID PRODID NAME PROFILE CLASS", simple(text1))
spec("NICKNAME CATEGORIES", simple(st.lists(T.texts.map(ical.escape), min_size=1, max_size=4).map(",".join)))
spec("N", simple(comps(5)))
spec("ADR", simple(comps(7)))
spec("ORG", simple(st.lists(T.short_text.map(ical.escape), min_size=1, max_size=4).map(";".join)))
spec("URL SOURCE", simple(T.uris))
spec("PHOTO", st.one_of(simple(binary, B), simple(T.uris, V("uri")), simple(binary, [["BASE64", None]]), simple(binary, B + [["TYPE", ["JPEG"]]])))
spec("LOGO SOUND KEY", st.one_of(simple(binary, B), simple(T.uris, V("uri")), simple(binary, [["BASE64", None]])))
spec("BDAY", st.one_of(simple(dates), simple(stamps), simple(stamps, V("date-time")), simple(dates, V("date"))))
spec("REV", st.one_of(simple(stamps), simple(dates, V("date"))))
spec("TZ", st.one_of(simple(offsets), simple(text1, V("text"))))
spec("GEO", simple(T.geos))
spec("AGENT", st.one_of(simple(T.line_text), simple(T.uris, V("uri"))))
spec("X-FOO X-ABLABEL X-AIM NEW-THING", st.one_of(simple(T.line_text), simple(T.line_text), simple(text1, V("text")), simple(T.uris, V("uri")), simple(dates, V("date")), simple(stamps, V("date-time")),
                                          simple(T.integers, V("integer")), simple(T.floats, V("float")), simple(T.booleans, V("boolean")), simple(T.line_text, V("x-type"))))
ONCE = {"UID", "PRODID", "REV", "N", "BDAY", "TZ", "GEO", "SORT-STRING", "CLASS", "NAME", "PROFILE"}
groups = st.one_of(st.none(), st.none(), st.sampled_from(["item1", "item2", "HOME", "a-b-C9"]))


@st.composite
def prop(draw, name):
    base, raw = draw(SPEC[name])
    params = [list(p) for p in base]
    if name != "PHOTO" or not any(p[0] == "TYPE" for p in params):
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            k = draw(st.sampled_from(["TYPE", "TYPE", "TYPE", "LANGUAGE", "X-PARAM", "bare"]))
            if k == "bare":
                params.append([draw(st.sampled_from(["HOME", "WORK", "PREF"])), None])
            elif k == "TYPE":
                params.append(["TYPE", draw(st.lists(st.sampled_from(["HOME", "WORK", "pref", "VOICE", "a b"]), min_size=1, max_size=3))])
            elif not any(p[0] == k for p in params):
                params.append([k, draw(st.lists(T.ptext, min_size=1, max_size=2))])
    seen, out = set(), []
    for p in params:        # a bare parameter is named once
        if p[1] is None:
            if p[0] in seen:
                continue
            seen.add(p[0])
        out.append(p)
    return [draw(groups), name, out, raw]


@st.composite
def card(draw, size=7):
    out, used = [[None, "VERSION", [], "3.0"]], set()
    for n in draw(st.lists(st.sampled_from(sorted(SPEC)), max_size=size)):
        if n in ONCE:
            if n in used:
                continue
            used.add(n)
        out.append(draw(prop(n)))
    return out


streams = st.lists(card(), min_size=1, max_size=3)


# ---------------------------------------------------------------- rendering
def logical(c, case=None):
    def cs(s):
        return s if not case else s.lower() if case == "lower" else s.title()
    yield cs("BEGIN:VCARD")
    for g, name, params, raw in c:
        ps = "".join(";" + (p if vs is None else T.param_text(cs(p), vs)) for p, vs in params)
        yield (g + "." if g else "") + cs(name) + ps + ":" + raw
    yield cs("END:VCARD")


def render(cards, widths=(), ws=" ", eol="\r\n", last=True, case=None, quote=False, blanks=0):
    lines = []
    for i, c in enumerate(cards):
        for l in logical(c, case):
            f = T.fold(l, widths, ws, eol)
            lines.append(f if isinstance(f, bytes) else f.encode("utf-8"))
        if i < len(cards) - 1:
            lines.extend([b""] * blanks)
    data = eol.encode().join(lines) + (eol.encode() if last else b"")
    return data.decode("latin-1")


# ---------------------------------------------------------------- meaning
DEFAULT = {n: "TEXT" for n in "FN NOTE LABEL TEL EMAIL TITLE ROLE MAILER SORT-STRING UID PRODID NAME PROFILE CLASS NICKNAME CATEGORIES N ADR ORG VERSION".split()}
DEFAULT.update({"URL": "URI", "SOURCE": "URI", "PHOTO": "BINARY", "LOGO": "BINARY", "SOUND": "BINARY", "KEY": "BINARY", "BDAY": "DATE", "REV": "DATE-TIME", "TZ": "UTC-OFFSET", "GEO": "FLOAT", "AGENT": "VCARD"})


def c_stamp(s):
    m = re.fullmatch(r"(\d{4})-?(\d\d)-?(\d\d)(?:T(\d\d):?(\d\d):?(\d\d)(?:,\d+)?(Z|[-+]\d\d:?\d\d)?)?", s)
    if not m:
        raise icanon.Bad("date %r" % s)
    y = [int(x) for x in m.groups()[:3]]
    if m.group(4) is None:
        return "DATE", y
    z = m.group(7)
    if z and z != "Z":
        z = z.replace(":", "")
        z = (-1 if z[0] == "-" else 1) * (int(z[1:3]) * 60 + int(z[3:5]))
    return "DATE-TIME", y + [int(x) for x in m.groups()[3:6]] + [z]


def meaning(group, name, params, raw):
    t = DEFAULT.get(name, "UNKNOWN")
    ps = []
    for n, vs in params:
        if n == "VALUE":
            t = vs[0].upper()
        elif n == "BASE64" and not vs:
            ps.append(["ENCODING", ["B"]])
        elif n == "ENCODING":
            ps.append([n, [v.upper() for v in vs]])
        else:
            ps.append([n, sorted(vs or [])])
    if name in ("NICKNAME", "CATEGORIES") and t == "TEXT":
        val = [ical.unescape(x) for x in ical.split_esc(raw, ",")]
    elif name in ("N", "ADR"):
        val = [[ical.unescape(x) for x in ical.split_esc(e, ",")] for e in ical.split_esc(raw, ";")]
        val += [[""]] * ((5 if name == "N" else 7) - len(val))
    elif name == "ORG":
        val = [ical.unescape(x) for x in ical.split_esc(raw, ";")]
    elif t == "TEXT":
        val = ical.unescape(raw)
    elif t in ("DATE", "DATE-TIME"):
        t, val = c_stamp(raw)
    elif t in ("UTC-OFFSET", "UTCOFFSET"):
        t = "UTC-OFFSET"
        if not re.fullmatch(r"[-+]\d\d:\d\d(:\d\d)?", raw):
            raise icanon.Bad("utc-offset %r" % raw)
        val = (-1 if raw[0] == "-" else 1) * (int(raw[1:3]) * 3600 + int(raw[4:6]) * 60 + int(raw[7:9] or 0))
    elif name == "GEO":
        val = [float(x) for x in raw.split(";")]
    elif t == "FLOAT":
        val = float(raw)
    elif t == "INTEGER":
        val = int(raw)
    else:
        val = raw
    return [name, group, t, sorted(ps), val]


def from_cards(cards):
    return [["VCARD", sorted((meaning(*p) for p in c), key=key)] for c in cards]


def from_text(data):
    out = []
    for n in ical.parse(data, group=True):
        if n.name != "VCARD" or n.subs:
            raise icanon.Bad("not a card")
        out.append(["VCARD", sorted((meaning(*p) for p in n.props), key=key)])
    return out

"""C02: texts and parameter values set by the program read back exactly and stay where they were put."""
from hypothesis import strategies as st

from harness import gen_ical as T, ical
from harness.core import Test, expect, fail

ID = "C02"
MODNAME = "checks.c02"
RULE = ("a case builds an event or a card through the API from generated texts (separators, quotes, backslashes, newlines, look-alike lines, any Unicode), writes it and reads it with the library and with an independent reader. "
        "Non-trivial: some text or parameter value holds a character that must be escaped, quoted or encoded.")
ASSUMPTIONS = ["strings are UTF-8 octet strings", "no control characters other than newline, and in escaped text carriage return", "X- and untyped properties, URIs and calendar addresses: only that the text stays inside its property is checked (they have no escape mechanism)",
               "a parameter value that needs quotes does not end in an odd number of backslashes (known finding)", "lists are not empty"]

texts = T.texts.map(lambda s: s.replace("\t", " "))
# text up to long sizes, and pieces drawn from few characters so that every combination of neighbours occurs
dense = st.text(alphabet="\\\\\\,;:\"^n'N \n", max_size=10)
text = st.one_of(texts, dense)
# escaped text can hold a carriage return too
ctext = st.one_of(texts, dense, st.text(alphabet="\\,;\r\nrn a", max_size=10))


def odd_backslashes(v):
    n = len(v) - len(v.rstrip("\\"))
    return n % 2 == 1


def settle(v):
    e = T.caret(v)
    return v + "." if odd_backslashes(e) and (e.startswith(" ") or any(c in e for c in ":;,")) else v


uri = text.map(lambda s: s.replace("\\", "/"))       # a backslash is not legal in a URI; the reader removes it
pval = st.one_of(texts, dense, dense).map(settle)
PNAMES = ["CN", "LANGUAGE", "ALTREP", "X-P", "X-P2", "DELEGATED-TO", "SENT-BY", "TYPE"]


@st.composite
def params(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 2, 3]))
    names = draw(st.permutations(PNAMES))[:n]
    return [[nm, draw(st.lists(pval, min_size=1, max_size=3)), draw(st.sampled_from(["add", "add", "replace", "setvalues", "addvalue"]))] for nm in names]


TEXT = ["SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT", "CONTACT", "CLASS", "TRANSP", "RELATED-TO", "STATUS", "X-WR-CALNAME"]
LIST = ["CATEGORIES", "RESOURCES"]


def P(kind, names, value, hows, **k):
    return st.fixed_dictionaries(dict({"kind": st.just(kind), "name": st.sampled_from(names), "value": value, "how": st.sampled_from(hows), "params": params()}, **k))


ical_prop = st.one_of(
    P("text", TEXT, ctext, ["ctor", "set", "reset", "value", "parsed", "unicode"]),
    P("text", TEXT, ctext, ["ctor", "set", "reset", "value", "parsed"]),
    P("list", LIST, st.lists(ctext, min_size=1, max_size=5), ["set", "parsed", "add"]),
    P("list", LIST, ctext.map(lambda t: [t]), ["single"]),
    P("status", ["REQUEST-STATUS"], st.tuples(st.sampled_from(["2.0", "3.1", "5.3.1"]), ctext, ctext.filter(bool)).map(list) | st.tuples(st.just("2.8"), ctext).map(list), ["ctor", "parsed"]),
    P("raw", ["X-FOO", "X-BAR", "NEW-PROP"], text, ["ctor", "set", "reset", "value", "parsed", "unicode"]),
    P("raw", ["X-FOO"], text, ["typed"], type=st.sampled_from(["TEXT", "UNKNOWN", "CAL-ADDRESS"])),
    P("raw", ["X-FOO"], uri, ["typed"], type=st.just("URI")),
    P("raw", ["URL"], uri, ["ctor", "set", "value", "parsed"]),
    P("raw", ["ATTENDEE", "ORGANIZER"], text, ["ctor", "set", "value", "parsed"]))

VTEXT = ["FN", "NOTE", "LABEL", "TEL", "EMAIL", "TITLE", "ROLE", "MAILER", "SORT-STRING", "UID", "PRODID"]
group = st.one_of(st.none(), st.none(), st.sampled_from(["item1", "HOME", "a-b"]))
elem = st.one_of(ctext, st.lists(ctext, min_size=2, max_size=3))
vcard_prop = st.one_of(
    P("text", VTEXT, ctext, ["ctor", "set", "reset", "value", "parsed"], group=group),
    P("list", ["NICKNAME", "CATEGORIES"], st.lists(ctext, min_size=1, max_size=5), ["ctor", "set", "parsed", "add"], group=group),
    P("n", ["N"], st.lists(elem, min_size=5, max_size=5), ["ctor", "parsed", "setters"], group=group),
    P("adr", ["ADR"], st.lists(elem, min_size=7, max_size=7), ["ctor", "parsed", "setters"], group=group),
    P("org", ["ORG"], st.lists(ctext, min_size=2, max_size=4), ["ctor", "parsed"], group=group),
    P("raw", ["X-FOO"], text, ["ctor", "set", "value", "parsed"], group=group),
    P("raw", ["URL"], uri, ["ctor", "set", "value", "parsed"], group=group))


def hard(p):
    def walk(v):
        return any(walk(x) for x in v) if isinstance(v, list) else any(c in v for c in "\\,;:\"^\r\n")
    return walk(p["value"]) or any(walk(v) for _, v, _ in p["params"])


def wire(p, raw):
    """what an independent reader finds in the written value"""
    k = p["kind"]
    if k == "text":
        return ical.unescape(raw, True)
    if k == "list":
        return [ical.unescape(x, True) for x in ical.split_esc(raw, ",")]
    if k in ("status", "org"):
        return [ical.unescape(x, True) for x in ical.split_esc(raw, ";")]
    out = []
    for el in ical.split_esc(raw, ";"):
        xs = [ical.unescape(x, True) for x in ical.split_esc(el, ",")]
        out.append(xs if len(xs) > 1 else xs[0])
    return out


def is_uri(p):
    return p["name"] == "URL" or p.get("type") == "URI"


def exact(p, card):
    """values without escapes that nevertheless read back as they were set"""
    if p["name"] in ("ATTENDEE", "ORGANIZER"):
        return True
    return p["how"] == "parsed" or not card and (p["how"] in ("ctor", "value", "unicode") or p["how"] == "typed" and p["type"] in ("CAL-ADDRESS", "UNKNOWN"))


def run(which):
    def f(J, case, rec):
        props = case["props"]
        r = J.call("textset." + which, props)
        out = r["out"].encode("latin-1").decode("utf-8")
        card = which == "vcard"
        try:
            tops = ical.parse(out, group=card)
        except Exception as e:
            fail("output is not well-formed: %s: %s" % (type(e).__name__, e), output=out)
        expect(len(tops) == 1, "one object expected", output=out)
        node = tops[0]
        if not card:
            expect(node.name == "VCALENDAR" and len(node.subs) == 1 and node.subs[0].name == "VEVENT", "the structure changed", output=out)
            extra = sorted(p[1] for p in node.props)
            expect(extra == ["CALSCALE", "PRODID", "VERSION"], "the calendar's own properties changed", output=out)
            node = node.subs[0]
        expect(not node.subs, "the structure changed", output=out)
        want = sorted([p["name"] for p in props] + (["X-LAST", "VERSION"] if card else ["X-LAST", "UID"]))
        have = sorted(p[1] for p in node.props if p[1] != "DTSTAMP")
        expect(have == want, "properties added or lost", want=want, have=have, output=out)
        expect(r["comps"] == (["VCARD"] if card else ["VEVENT"]), "the library reads another structure", read=r["comps"], output=out)
        expect(sorted((n, len(v)) for n, v in r["read"].items() if n != "DTSTAMP") == sorted((n, want.count(n)) for n in set(want)), "the library reads other properties", output=out)
        expect(node.value("X-LAST") == "last" and r["read"]["X-LAST"][0]["value"] == "last", "a neighbour changed", output=out)
        seen = {}
        for p in props:
            i = seen[p["name"]] = seen.get(p["name"], -1) + 1
            got = r["read"][p["name"]][i]
            g, n, ps, raw = node.get(p["name"])[i]
            wp = sorted([pn, sorted(vs)] for pn, vs, _ in p["params"])
            expect(sorted([pn, sorted(vs)] for pn, vs in ps if pn != "VALUE") == wp, "written parameters differ", prop=p, output=out)
            expect(sorted([pn, sorted(vs)] for pn, vs, _ in got["params"] if pn != "VALUE") == wp, "parameters read back differ", prop=p, got=got["params"], output=out)
            for pn, vs, first in got["params"]:
                expect(first == vs[0] and got["nparams"][pn] == 1, "first parameter value", got=got)
            if card:
                expect(got["group"] == p["group"] and g == p["group"], "group differs", prop=p, got=got, output=out)
            if p["kind"] != "raw":
                wv = p["value"]
                expect(wire(p, raw) == wv, "written value differs", prop=p, raw=raw, output=out)
                expect(got["value"] == wv, "value read back differs", prop=p, got=got["value"], output=out)
            elif is_uri(p) or "\n" not in p["value"] and exact(p, card):
                expect(got["value"] == p["value"], "address read back differs", prop=p, got=got["value"], output=out)
            rec.label("kind:" + p["kind"], "how:" + p["kind"] + "/" + p["how"])
        expect(out.replace("\r\n", "").count("\r") == 0, "a line is broken in two", output=out)
        expect(r["out2"] == r["out"], "read and written again differs", output=out, again=r["out2"].encode("latin-1").decode("utf-8"))
        rec.nt(any(hard(p) for p in props))
    return f


def cases(p):
    return st.fixed_dictionaries({"props": st.lists(p, min_size=1, max_size=4)})


TESTS = [
    Test("ical", cases(ical_prop), run("ical"), quick=2500, thorough=60000, shards=4),
    Test("vcard", cases(vcard_prop), run("vcard"), quick=1800, thorough=40000, shards=3),
]

"""C21: filtered output holds exactly what the filter admits."""
import json
import xml.etree.ElementTree as XML

from hypothesis import strategies as st

from checks import c01
from harness import gen_ical as T, gen_vcard as V
from harness.core import Test, expect, fail

ID = "C21"
MODNAME = "checks.c21"
RULE = ("a case is a calendar or card, a component in it, one to three filters built by sequences of calls, and the order in which they are used in the three formats on one object; each filtered output is compared with the "
        "filter applied by the check to the unfiltered output. Non-trivial: some filter admits some but not all properties or sub-components, or suppresses a value.")
ASSUMPTIONS = ["names given to a filter are in upper case; those of the data are in any case",
               "a filter is used on a component of its own type",
               "what is admitted as a whole (all properties, all sub-components) stays so when single names are added later",
               "containers of nothing (an empty list of components or properties in xCal) are as good as none",
               "the unfiltered output itself is judged by C01, C03, C04 and C05; time zones are not added to it here"]


# ---------------------------------------------------------------- the filter's meaning
def meaning(f):
    allp = allc = False
    props, comps = {}, {}
    for op in f["ops"]:
        if op[0] == "allprops":
            allp = True
        elif op[0] == "allcomps":
            allc = True
        elif op[0] == "prop":
            props[op[1]] = op[2]
        else:
            comps[op[1]["type"]] = meaning(op[1])
    return (None if allp else props, None if allc else comps)


ALL = (None, None)


def up(s):
    return "".join(c.upper() if c < "\x80" else c for c in s)


# ---------------------------------------------------------------- text
def lines(text):
    for l in text.split("\r\n")[:-1]:
        expect(len(l) <= 75, "a line longer than 75 octets", line=l)
    expect(text.endswith("\r\n"), "no line end at the end", output=text)
    return text[:-2].replace("\r\n ", "").split("\r\n")


def parse(ls):
    """[begin line, [lines], [components], end line]"""
    stack, out = [], []
    for l in ls:
        if up(l).startswith("BEGIN:"):
            stack.append([up(l[6:]), [], []])
        elif up(l).startswith("END:"):
            c = stack.pop()
            expect(up(l[4:]) == c[0], "unbalanced", lines=ls)
            (stack[-1][2] if stack else out).append(c)
        else:
            stack[-1][1].append(l)
    expect(not stack and len(out) == 1, "unbalanced", lines=ls)
    return out[0]


def name(l):
    n = up(l.split(":")[0].split(";")[0])
    return n


def novalue(l):
    q = False
    for i, c in enumerate(l):
        if c == '"':
            q = not q
        elif c == ":" and not q:
            return l[:i + 1]


def ftext(t, m, group=False):
    props, comps = m
    out = []
    for l in t[1]:
        n = name(l)
        if group:
            n = n.split(".", 1)[-1]
        if props is None:
            out.append(l)
        elif n in props:
            out.append(novalue(l) if props[n] else l)
    return [t[0], out, [ftext(c, ALL if comps is None else comps[c[0]]) for c in t[2] if comps is None or c[0] in comps]]


# ---------------------------------------------------------------- jCal
def fjson(t, m):
    props, comps = m
    return [up(t[0]), [[p, props is not None and props[up(p[0])]] for p in t[1] if props is None or up(p[0]) in props],
            [fjson(c, ALL if comps is None else comps[up(c[0])]) for c in t[2] if comps is None or up(c[0]) in comps]]


def same_json(want, got, where):
    where += "/" + want[0]
    expect(isinstance(got, list) and len(got) == 3 and up(got[0]) == want[0], "wrong component at %s" % where, got=got)
    expect(len(want[1]) == len(got[1]), "%d properties admitted at %s, %d written" % (len(want[1]), where, len(got[1])), got=got[1], want=want[1])
    for (p, nov), q in zip(want[1], got[1]):
        if nov:
            expect(q[:2] == p[:2] and (len(q) == 2 or q[2:] == p[2:3]), "a value the filter suppresses, or a changed property, at %s" % where, want=p, got=q)
        else:
            expect(p == q, "an admitted property is changed at %s" % where, want=p, got=q)
    expect(len(want[2]) == len(got[2]), "%d components admitted at %s, %d written" % (len(want[2]), where, len(got[2])), got=got[2])
    for a, b in zip(want[2], got[2]):
        same_json(a, b, where)


# ---------------------------------------------------------------- xCal
def tag(e):
    return e.tag.split("}")[-1]


def ser(e):
    return (e.tag, (e.text or "").strip() if len(e) else e.text or "", [ser(x) for x in e])


def xparts(e):
    ps = [p for x in e if tag(x) == "properties" for p in x]
    cs = [c for x in e if tag(x) == "components" for c in x]
    expect(all(tag(x) in ("properties", "components") for x in e), "something else in a component", got=[x.tag for x in e])
    return ps, cs


def same_xml(full, got, m, where):
    props, comps = m
    where += "/" + tag(full)
    expect(full.tag == got.tag, "wrong component at %s" % where, got=got.tag)
    ps, cs = xparts(full)
    qs, ds = xparts(got)
    ps = [p for p in ps if props is None or up(tag(p)) in props]
    cs = [c for c in cs if comps is None or up(tag(c)) in comps]
    expect([tag(p) for p in ps] == [tag(q) for q in qs], "wrong properties at %s" % where, want=[tag(p) for p in ps], got=[tag(q) for q in qs])
    for p, q in zip(ps, qs):
        a, b = ser(p), ser(q)
        if props is not None and props[up(tag(p))]:
            keep = [x for x in a[2] if x[0].endswith("}parameters")]
            expect(b[2] == keep and not b[1].strip(), "a value the filter suppresses, or a changed property, at %s" % where, want=keep, got=b)
        else:
            expect(a == b, "an admitted property is changed at %s" % where, want=a, got=b)
    expect([tag(c) for c in cs] == [tag(d) for d in ds], "wrong components at %s" % where, want=[tag(c) for c in cs], got=[tag(d) for d in ds])
    for c, d in zip(cs, ds):
        same_xml(c, d, ALL if comps is None else comps[up(tag(c))], where)


# ---------------------------------------------------------------- run
def partial(f, t):
    """whether the filter makes a difference at any level that is there"""
    props, comps = meaning(f)
    ns = set(name(l) for l in t[1])
    hit = props is not None and ns and (any(props.get(n) for n in ns) or 0 < len([n for n in ns if n in props]) < len(ns))
    if comps:
        ks = set(c[0] for c in t[2])
        hit = hit or 0 < len([k for k in ks if k in comps]) < len(ks)
        subs = dict((o[1]["type"], o[1]) for o in f["ops"] if o[0] == "comp")
        hit = hit or any(partial(subs[c[0]], c) for c in t[2] if c[0] in subs)
    return bool(hit)


def run(J, case, rec):
    card = case["kind"] == "card"
    data = V.render([case["tree"]], case=case["case"]) if card else T.render(case["tree"], case=case["case"])
    r = J.call("filters.run", data, case["kind"], case["path"], case["filters"], case["order"])
    expect(r["full"] == r["again"], "filtered output changed the object", before=r["full"]["text"], after=r["again"]["text"])
    full = parse(lines(r["full"]["text"]))
    for (fmt, i), got in zip(case["order"], r["out"]):
        f = case["filters"][i]
        m = meaning(f)
        if fmt == "text":
            want = ftext(full, m, card)
            g = parse(lines(got))
            if want != g:
                fail("filtered text is not the admitted part of the unfiltered text", want=want, got=g, filter=f)
        elif fmt == "json":
            expect(len(got) == 1, "one component expected", got=got)
            same_json(fjson(json.loads(r["full"]["json"][0]), m), json.loads(got[0]), "")
        else:
            a, b = XML.fromstring(c01.u8(r["full"]["xml"]))[0], XML.fromstring(c01.u8(got))
            expect(len(b) == 1, "one component expected", got=got)
            same_xml(a, b[0], m, "")
        rec.label(fmt, "admits all" if m == ALL else "admits nothing" if m == ({}, {}) else "mixed")
    rec.label("names in %s case" % (case["case"] or "upper"))
    rec.nt(any(partial(f, full) for f in case["filters"]))


def predicates_run(J, case, rec):
    f = case["filter"]
    r = J.call("filters.predicates", f, COMPS, PROPS)
    props, comps = meaning(f)
    expect(r["type"] == f["type"] and r["self"] == [c == f["type"] for c in COMPS], "own type", got=r)
    expect(r["sub"] == [comps is None or c in comps for c in COMPS], "testSubComponent", got=r["sub"])
    expect(r["prop"] == [[True, False] if props is None else [p in props, bool(props.get(p))] if p in props else [False, r["prop"][i][1]] for i, p in enumerate(PROPS)], "testPropertyValue", got=r["prop"])
    expect(r["allprops"] == (props is None) and r["allcomps"] == (comps is None), "all", got=r)
    rec.nt(len(f["ops"]) > 1)


COMPS = ["VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VALARM", "VPOLL", "VVOTER", "VOTE", "X-COMP", "AVAILABLE", "VAVAILABILITY"]
PROPS = sorted(T.SPEC) + ["VERSION", "PRODID", "METHOD", "TZID", "FREEBUSY"]


def have(t):
    names, comps = set([p[0] for p in t[1]]), set(c[0].upper() for c in t[2])
    return sorted(names), sorted(comps)


@st.composite
def filters(draw, typ, trees, depth=0):
    """a filter, mostly about what is there"""
    names = sorted(set(p[-3].upper() for t in trees for p in t[1]))
    kinds = {}
    for t in trees:
        for c in (t[2] if len(t) > 2 else []):
            kinds.setdefault(c[0].upper(), []).append(c)
    ops = []
    for _ in range(draw(st.sampled_from([1, 3, 4, 6, 8, 0]))):
        k = draw(st.sampled_from(["prop"] * 8 + ["comp"] * 8 + ["allprops"] + ["allcomps"]))
        if k == "prop":
            n = draw(st.sampled_from(names)) if names and draw(st.integers(0, 7)) else draw(st.sampled_from(PROPS))
            ops.append([k, n, draw(st.booleans())])
        elif k == "comp":
            n = draw(st.sampled_from(sorted(kinds))) if kinds and draw(st.integers(0, 7)) else draw(st.sampled_from(COMPS))
            if depth < 3:
                ops.append([k, draw(filters(n, kinds.get(n, []), depth + 1))])
        else:
            ops.append([k])
    return {"type": typ, "ops": ops}


CASE = st.sampled_from([None, None, "lower", "title"])


@st.composite
def cases(draw):
    tree = draw(T.calendars(size=4))
    path, t = [], tree
    while t[2] and draw(st.integers(0, 4)) == 0:
        i = draw(st.integers(0, len(t[2]) - 1))
        path, t = path + [i], t[2][i]
    fs = draw(st.lists(filters(t[0].upper(), [t]), min_size=1, max_size=3))
    order = draw(st.lists(st.tuples(st.sampled_from(["text", "json", "xml"]), st.integers(0, len(fs) - 1)), min_size=1, max_size=5))
    return {"kind": "cal", "tree": tree, "path": path, "filters": fs, "order": order, "case": draw(CASE)}


@st.composite
def cards(draw):
    c = draw(V.card(size=6))
    f = draw(st.lists(filters("VCARD", [["VCARD", [[p[1], 0, 0] for p in c], []]]), min_size=1, max_size=2))
    return {"kind": "card", "tree": c, "path": [], "filters": f, "order": [("text", i) for i in range(len(f))], "case": draw(CASE)}


TESTS = [
    Test("calendars", cases(), run, quick=1500, shards=5),
    Test("cards", cards(), run, quick=800, shards=2),
    Test("predicates", st.fixed_dictionaries({"filter": filters("VEVENT", [["VEVENT", [], []]])}), predicates_run, quick=300, shards=1),
]

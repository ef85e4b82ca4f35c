"""C20: malformed data is rejected cleanly; it never crashes, hangs or half-parses."""
import copy
import json
import re
from collections import Counter

from hypothesis import strategies as st

from checks import c01, c19
from harness import gen_ical as T, gen_vcard as V, ical, icanon
from harness.core import Test, expect, fail

ID = "C20"
MODNAME = "checks.c20"
RULE = ("Non-trivial: text - the data was damaged or its structure is one no reader may accept; json - the JSON differs from the sound one; line and lines - the line differs from the sound one; "
        "options - the data has the defect and some setting is not the default.")
ASSUMPTIONS = [
    "Any documented parse error (InvalidData, InvalidComponent, InvalidProperty) is a clean rejection; every other exception is a violation, as is running longer than the worker's time limit.",
    "Where a line starts with a control character or unusual white space its structure is not judged (only that nothing crashes and what is accepted can be written and read again).",
    "Several calendars in one text are merged by parseText; that merge is not judged. Objects read with parseComponent are judged for errors and re-reading only.",
    "Equality after re-reading is not judged for data with control characters or damaged TZID parameters: text has no way to carry the former, and the order of several TZID values is not kept.",
    "Accepted cards are re-read from text only.",
]


# ---------------------------------------------------------------- structure of hostile text
class Reject(Exception):
    pass


ASCII = dict((i, i - 32) for i in range(97, 123))


def up(s):
    return s.translate(ASCII)


def unfolded(data):
    """the content lines, or None where what is white space is not certain"""
    lines = []
    parts = data.split("\n")
    if parts and parts[-1] == "":
        parts.pop()
    for i, p in enumerate(parts):
        if p.endswith("\r"):
            p = p[:-1]
        if p[:1] in (" ", "\t") and lines:
            lines[-1] += p[1:]
        elif p[:1] and (p[0].isspace() or not p[0].isprintable()):
            return None
        else:
            lines.append(p)
    return lines


def skeletons(lines, top, nested, every=True):
    """[(name, Counter of property names, [skeletons])] of each object, raises Reject for what no reader may accept"""
    out, stack = [], []
    for l in lines:
        if not l:
            continue
        u = up(l)
        if not stack:
            if u != "BEGIN:" + top:
                raise Reject("outside of any object: %r" % l)
            stack.append([top, Counter(), []])
        elif u.startswith("BEGIN:"):
            if not nested:
                raise Reject("an object inside a card")
            stack.append([u[6:], Counter(), []])
        elif u.startswith("END:"):
            if u[4:] != stack[-1][0]:
                raise Reject("%s ends %s" % (l, stack[-1][0]))
            c = stack.pop()
            (stack[-1][2] if stack else out).append(c)
        else:
            m = re.match(r"[^:;]*", l)
            if not m.group(0):
                raise Reject("no property name: %r" % l)
            if ":" not in l:
                raise Reject("no value: %r" % l)
            stack[-1][1][up(m.group(0))] += 1
    if stack:
        raise Reject("not complete")
    for o in out:
        if not o[1]["VERSION"] and (every or not any(x[1]["VERSION"] for x in out)):
            raise Reject("no VERSION")
    return out


def norm(s):
    return [s[0], sorted(s[1].elements()), sorted((norm(x) for x in s[2]), key=repr)]


def judge(case, r, how, kind):
    """structure against outcome"""
    data = case["data"]
    lines = unfolded(data)
    if lines is None:
        return "odd white space"
    try:
        sk = skeletons(lines, "VCARD" if kind == "card" else "VCALENDAR", kind != "card", how == "multiple")
    except Reject as e:
        if how != "component":
            expect("err" in r, "accepted though %s" % e, data=data, got=r)
        return "structure"
    if "err" in r:
        return "rejected"
    objs = r["ok"]
    if how == "component":
        return "component"
    if not sk:
        expect(objs == [None] or objs == [], "an object from nothing", got=r)
        return "nothing"
    if how != "multiple" and len(sk) > 1:
        return "several"
    expect(len(objs) == len(sk), "number of objects", got=len(objs), want=len(sk), data=data)
    for o, s in zip(objs, sk):
        got = skeletons(unfolded(o["text"]), s[0], True)
        expect(len(got) == 1 and norm(got[0]) == norm(s), "what was read is not what was there", data=data, got=o["text"])
    return "read"


def settled(r, data):
    for o in r.get("ok", []):
        if o is None:
            continue
        expect(o["text"] == o["again"], "writing twice gives different text", data=data, got=o)
        expect(o["text"] == o["text2"], "what is written reads back as something else", data=data, first=o["text"], second=o["text2"])
        expect(o.get("equal", True) or re.search("\r(?!\n)|[\x00-\x08\x0b\x0c\x0e-\x1f]", data), "what is written reads back unequal", data=data, text=o["text"])


def text_run(J, case, rec):
    kind, how = case["kind"], case["how"]
    r = J.call("hostile.run", case["data"], kind, how)
    settled(r, case["data"])
    what = judge(case, r, how, kind)
    rec.nt(what in ("structure", "rejected") or case["damage"] != [])
    rec.label(how, what + (" accepted" if "ok" in r else " rejected"), *case["damage"])


# ---------------------------------------------------------------- damage
JUNK = ["\x00", "\x7f", "\xff", "\x80", "\xc3", "\xa0", "\x85", "\x0b", "\x0c", "\x1c", "\r", "\n", " ", "\t", "\"", "\\", ":", ";", ",", "=", "^", "'", "BEGIN:", "END:", "\r\n", "\r\n ", "\n\t", "\\n", "\\:", "\\x", "-", "+", "0", "9" * 30, "P", "T", "Z", "%", "\x80" * 80, "{}", "None", "FREQ=", "VALUE=", ";VALUE=DATE", ";TZID=X", "BEGIN:VCALENDAR\r\n", "END:VCALENDAR\r\n", "BEGIN:VEVENT\r\n", "END:VEVENT\r\n", "BEGIN:VCARD\r\n", "END:VCARD\r\n", "\r\nBEGIN:X\r\n", "begin:vevent\r\n", "end:vevent\r\n"]


@st.composite
def damaged(draw, data):
    kinds = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3]))):
        k = draw(st.sampled_from(["cut", "delete", "insert", "insert", "insert", "replace", "line gone", "line gone", "line again", "lines swapped", "line moved", "case"]))
        if not data:
            break
        kinds.append(k)
        i = draw(st.integers(0, len(data) - 1))
        if k == "cut":
            data = data[:i]
        elif k == "delete":
            data = data[:i] + data[i + draw(st.sampled_from([1, 1, 2, 5, 20])):]
        elif k == "insert":
            data = data[:i] + draw(st.sampled_from(JUNK)) + data[i:]
        elif k == "replace":
            data = data[:i] + draw(st.sampled_from(JUNK)) + data[i + 1:]
        elif k == "case":
            j = i + draw(st.integers(1, 40))
            data = data[:i] + "".join(c.swapcase() if c < "\x80" else c for c in data[i:j]) + data[j:]
        else:
            ls = data.split("\r\n")
            if len(ls) < 3:
                continue
            a = draw(st.integers(0, len(ls) - 2))
            c = draw(st.integers(0, len(ls) - 2))
            if k == "line gone":
                del ls[a]
            elif k == "line again":
                ls.insert(c, ls[a])
            elif k == "line moved":
                ls.insert(c, ls.pop(a))
            else:
                ls[a], ls[c] = ls[c], ls[a]
            data = "\r\n".join(ls)
    return data, kinds


small = T.calendars(size=3)


@st.composite
def texts(draw):
    if draw(st.integers(0, 3)):
        kind = "cal"
        data = T.render(draw(small), widths=[75])
        how = draw(st.sampled_from(["text", "text", "stream", "component"]))
    else:
        kind = "card"
        data = V.render(draw(V.streams), widths=[75])
        how = draw(st.sampled_from(["multiple", "multiple", "text"]))
    data, kinds = draw(damaged(data))
    return {"kind": kind, "how": how, "data": data, "damage": kinds}


# ---------------------------------------------------------------- damaged jCal
JJUNK = [None, True, False, 0, -1, 1.5, 10 ** 25, "", "x", "X-Y", "a:b", "a\r\nb", "\u00e9", "text", "date", "date-time", "duration", "recur", "integer", "period", "utc-offset", "unknown", "2020-01-01", "2020-01-01T00:00:00", "PT", "+01:00", [], {}, [[]], [None], {"a": 1}, {"a": None}, {"a": "b"}, {"value": "date"}, ["x", {}, "text", "y"], ["vevent", [], []]]


def nodes(j, path=()):
    yield path
    if isinstance(j, list):
        for i, x in enumerate(j):
            for p in nodes(x, path + (i,)):
                yield p
    elif isinstance(j, dict):
        for k in sorted(j):
            for p in nodes(j[k], path + (k,)):
                yield p


def at(j, path):
    for k in path:
        j = j[k]
    return j


def spoil(j, ops):
    j = copy.deepcopy(j)
    for op, where, junk in ops:
        ps = list(nodes(j))
        path = ps[int(where * (len(ps) - 1))]
        if not path:
            j = junk if op == "replace" else j
            continue
        p, k = at(j, path[:-1]), path[-1]
        if op == "replace":
            p[k] = copy.deepcopy(junk)
        elif op == "delete":
            del p[k]
        elif op == "wrap":
            p[k] = [p[k]]
        elif op == "unwrap" and isinstance(p[k], list) and p[k]:
            p[k] = p[k][0]
        elif op == "again" and isinstance(p, list):
            p.insert(k, copy.deepcopy(p[k]))
        elif op == "add" and isinstance(p[k], list):
            p[k].append(copy.deepcopy(junk))
        elif op == "key" and isinstance(p, dict) and isinstance(junk, str):
            p[junk] = p.pop(k)
    return j


def json_run(J, case, rec):
    data = J.call("texty.jcal", T.render(case["tree"]))["json"]
    j = json.loads(c01.u8(data))
    j2 = spoil(j, case["ops"])
    data = json.dumps(j2, ensure_ascii=case["ascii"])
    if case["cut"] is not None:
        i = int(case["cut"][0] * (len(data) - 1))
        data = data[:i] + case["cut"][1] + data[i + case["cut"][2]:]
    r = J.call("hostile.run", data.encode("utf-8").decode("latin-1"), "cal", "json")
    settled(r, data.replace("\\r", "\r"))
    rec.nt(j2 != j or case["cut"] is not None)
    rec.label("accepted" if "ok" in r else "rejected by " + r["err"], *[o[0] for o in case["ops"]])


frac = st.integers(0, 9999).map(lambda i: i / 9999.0)
jops = st.lists(st.tuples(st.sampled_from(["replace"] * 4 + ["delete", "wrap", "unwrap", "again", "add", "key"]), frac, st.sampled_from(JJUNK)), max_size=3)
jsons = st.fixed_dictionaries({"tree": small, "ops": jops, "ascii": st.booleans(),
                               "cut": st.one_of(st.none(), st.none(), st.none(), st.tuples(frac, st.sampled_from(["", "", "\"", "[", "]", "{", "}", ",", ":", "1", "null", "\\", "\\u0000", "\\ud800", "\x00", "NaN"]), st.sampled_from([0, 0, 1, 5, 10 ** 6])))})


# ---------------------------------------------------------------- one damaged line among sound ones
def prune(n, name):
    n.props = [p for p in n.props if p[1] != name]
    for x in n.subs:
        prune(x, name)
    return n


VJUNK = [c for c in JUNK if "\r" not in c and "\n" not in c]


@st.composite
def scar(draw, v, n=None):
    """a line or value with some of its characters changed"""
    for _ in range(n or draw(st.sampled_from([1, 1, 1, 2, 3]))):
        i = draw(st.integers(0, len(v)))
        k = draw(st.sampled_from(["insert", "insert", "delete", "replace", "digit", "swap", "cut", "double"]))
        if k == "insert":
            v = v[:i] + draw(st.sampled_from(VJUNK)) + v[i:]
        elif k == "delete":
            v = v[:i] + v[i + draw(st.sampled_from([1, 1, 2, 4])):]
        elif k == "replace":
            v = v[:i] + draw(st.sampled_from(VJUNK)) + v[i + 1:]
        elif k == "digit":
            ds = [m.start() for m in re.finditer("[0-9]", v)]
            if ds:
                j = draw(st.sampled_from(ds))
                v = v[:j] + draw(st.sampled_from("0123456789")) + v[j + 1:]
        elif k == "swap":
            v = v[:i] + v[i:i + 2][::-1] + v[i + 2:]
        elif k == "cut":
            v = v[:i]
        else:
            v = v[:i] + v[i:i + 6] + v[i:]
    return v


def line_run(J, case, rec):
    tree, (path, i), bad = case["tree"], case["where"], case["line"]
    node = tree
    for k in path:
        node = node[2][k]
    name = node[1][i][0]
    text = T.render(tree)
    lines = text.split("\r\n")
    # the line of that property, by counting
    n, stack = [-1], []

    def count(t, p):
        n[0] += 1                       # BEGIN
        for j in range(len(t[1])):
            n[0] += 1
            if (p, j) == (tuple(path), i):
                stack.append(n[0])
        for j, s in enumerate(t[2]):
            count(s, p + (j,))
        n[0] += 1                       # END
    count(tree, ())
    at = stack[0]
    assert lines[at].upper().startswith(name), "harness: wrong line"
    old = lines[at]
    lines[at] = lines[at][:len(name)] + bad
    r = J.call("hostile.run", "\r\n".join(lines), "cal", "text")
    rec.nt(lines[at] != old)
    rec.label("accepted" if "ok" in r else "rejected", name)
    if "err" in r:
        return
    settled(r, "\r\n".join(lines))
    out = ical.parse("\r\n".join(readable(r["ok"][0]["text"], name)))
    expect(len(out) == 1, "one object became %d" % len(out))
    got = icanon.node(prune(out[0], name))
    want = icanon.node(prune(ical.parse(c01.u8(text))[0], name))
    d = icanon.diff(want, got)
    expect(d is None, "a damaged %s changed something else: %s" % (name, d), line=lines[at], output=r["ok"][0]["text"])


def readable(text, name):
    """the damaged property may be beyond the independent reader: leave it out before reading"""
    for l in text.encode("latin-1").replace(b"\r\n ", b"").replace(b"\r\n\t", b"").split(b"\r\n"):
        if not l[:len(name)].upper() == name.encode() or l[len(name):len(name) + 1] not in (b":", b";"):
            yield l.decode("utf-8", "surrogateescape")


def places(t, path=()):
    for i in range(len(t[1])):
        if t[1][i][0] not in ("VERSION", "TZID"):
            yield [list(path), i]
    for j, s in enumerate(t[2]):
        for p in places(s, path + (j,)):
            yield p


@st.composite
def bad_line(draw):
    tree = draw(small)
    ps = list(places(tree))
    if not ps:
        tree[1].append(["METHOD", [], "X"])
        ps = list(places(tree))
    path, i = draw(st.sampled_from(ps))
    node = tree
    for k in path:
        node = node[2][k]
    name, params, value = node[1][i]
    rest = list(T.logical(["X", [[name, params, value]], []]))[1][len(name):].encode("utf-8").decode("latin-1")
    cut = len(rest) - len(value.encode("utf-8"))
    if draw(st.integers(0, 2)) or cut <= 1:
        rest = rest[:cut] + draw(scar(rest[cut:]))
    else:
        rest = rest[:1] + draw(scar(rest[1:cut - 1])) + rest[cut - 1:]
    return {"tree": tree, "where": [path, i], "line": rest}


# ---------------------------------------------------------------- damaged lines on their own
def lines_run(J, case, rec):
    r = J.call("hostile.lines", [l for l in case["lines"]], case["vcard"])
    n = 0
    for l, o in zip(case["lines"], r):
        if o is None:
            n += 1
            continue
        # several time zones: which comes first is not kept, and a time in UTC is written without the "Z" when there is one
        clean = not re.search("[\x00-\x08\x0b-\x1f]|TZID", l, re.I)
        expect(o[0] == o[1], "a line is written as one that reads back as another", line=l, got=o)
        expect(o[2] or not clean, "a line written and read back is not equal", line=l, got=o)
        expect(o[0] == o[3], "writing twice gives different lines", line=l, got=o)
        expect(o[4] and o[5], "a copy is not equal", line=l, got=o)
    rec.nt(bool(case["lines"]))
    rec.label("%d of 10 rejected" % (10 * n // max(1, len(r))))


IPROPS = sorted(T.SPEC)


@st.composite
def iline(draw):
    name = draw(st.sampled_from(IPROPS))
    l = list(T.logical(["X", [draw(T.prop(name))], []]))[1].encode("utf-8").decode("latin-1")
    i = l.index(":") if draw(st.integers(0, 2)) else draw(st.integers(1, len(l)))
    return l[:i] + draw(scar(l[i:]))


@st.composite
def vline(draw):
    c = draw(V.card(size=1))
    l = draw(st.sampled_from(list(V.logical(c))[1:-1])).encode("utf-8").decode("latin-1")
    i = l.index(":") if draw(st.integers(0, 2)) else draw(st.integers(1, len(l)))
    return l[:i] + draw(scar(l[i:]))


# ---------------------------------------------------------------- leniency
A, I, F, R = 0, 1, 2, 3         # allow, ignore, fix, raise
OPTIONS = {"INVALID_COLON_ESCAPE_SEQUENCE": (A, I, F, R), "INVALID_ESCAPE_SEQUENCES": (A, I, F, R), "BLANK_LINES_IN_DATA": (A, I, F, R), "VCARD_2_NO_PARAMETER_VALUES": (A, I, F, R),
           "VCARD_2_BASE64": (A, F), "INVALID_DATETIME_VALUE": (A, I, F, R), "INVALID_DATETIME_LEADINGSPACE": (A, I, F, R), "INVALID_DURATION_VALUE": (A, I, F, R),
           "INVALID_ADR_N_VALUES": (A, F, R), "INVALID_REQUEST_STATUS_VALUE": (A, I, F, R), "BACKSLASH_IN_URI_VALUE": (A, F), "BACKSLASH_IN_GEO_VALUE": (F,)}
DEFAULT = {"INVALID_COLON_ESCAPE_SEQUENCE": F, "INVALID_ESCAPE_SEQUENCES": R, "BLANK_LINES_IN_DATA": F, "VCARD_2_NO_PARAMETER_VALUES": A, "VCARD_2_BASE64": F, "INVALID_DATETIME_VALUE": F,
           "INVALID_DATETIME_LEADINGSPACE": A, "INVALID_DURATION_VALUE": F, "INVALID_ADR_N_VALUES": F, "INVALID_REQUEST_STATUS_VALUE": F, "BACKSLASH_IN_URI_VALUE": F, "BACKSLASH_IN_GEO_VALUE": F}


def escapes(v, opts, uri=False):
    """wire text with any escapes -> RAISE or the text itself"""
    out, i = "", 0
    while i < len(v):
        if v[i] != "\\":
            out += v[i]
        elif i + 1 == len(v):
            pass
        else:
            i += 1
            c = v[i]
            if c in "nN":
                out += "\n"
            elif c == "r":
                out += "\r"
            elif c in "\\,;":
                out += c
            else:
                o = opts["INVALID_COLON_ESCAPE_SEQUENCE" if c == ":" else "INVALID_ESCAPE_SEQUENCES"]
                if o == R:
                    return R
                out += {A: "\\" + c, I: "", F: c}[o]
        i += 1
    return out


def e_text(name):
    def f(v, opts):
        t = escapes(v, opts)
        return R if t == R else [name, [], ical.escape(t)]
    return f


def e_uri(name):
    def f(v, opts):
        if opts["BACKSLASH_IN_URI_VALUE"] == A:
            return [name, [], v]
        t = escapes(v, opts)
        return R if t == R else [name, [], t.replace("\\", "\\\\")]
    return f


def e_plain(name, opt, to):
    return lambda v, opts: R if opts[opt] == R else [name, [], to(v)]


def e_status(v, opts):
    return R if opts["INVALID_REQUEST_STATUS_VALUE"] == R else ["REQUEST-STATUS", [], v.replace("\\;", ";") if "\\;" in v[:8] else v + ";" if ";" not in v else ";".join(v.split(";")[:3])]


def lead(v):
    return "%04d%s" % (int(v[:4]), v[4:])


def nodur(v):
    v = re.sub(r"(W).*", r"\1", v)
    return v + "0S" if v in ("PT", "-PT") else v.rstrip("T")


BITS = ["a", "b", "\\:", "\\x", "\\,", "\\;", "\\\\", "\\n", "\\-", "\\\"", ":", "\\:\\:"]
wire = st.lists(st.sampled_from(BITS), min_size=1, max_size=5).map("".join)
DEFECTS = {
    "cal": [("SUMMARY", wire, e_text("SUMMARY")), ("DESCRIPTION", wire, e_text("DESCRIPTION")), ("CONTACT", wire, e_text("CONTACT")), ("URL", wire.map(lambda v: "http://x/" + v.replace("\\n", "")), e_uri("URL")),
            ("DURATION", st.sampled_from(["P1W1D", "P2WT1H", "P3WX", "P1DT", "PT", "-PT", "-P1DT", "P1W "]), e_plain("DURATION", "INVALID_DURATION_VALUE", nodur)),
            ("DTSTART", st.sampled_from([" 9990101T000000Z", "  990101T000000", "   10203T040506"]), e_plain("DTSTART", "INVALID_DATETIME_LEADINGSPACE", lead)),
            ("CREATED", st.sampled_from([" 9990101T000000Z", "  990101T000000Z"]), e_plain("CREATED", "INVALID_DATETIME_LEADINGSPACE", lead)),
            ("REQUEST-STATUS", st.sampled_from(["2.0", "3.1", "2.0\\;Success", "3.7.1\\;x y", "2.0;a;b;c", "2.0;a;b;c;d"]), e_status),
            ("GEO", st.sampled_from(["1.5\\;2.5", "-1.5\\;0.25"]), lambda v, opts: ["GEO", [], v.replace("\\", "")]),
            ("BLANK", st.lists(st.integers(0, 40), min_size=1, max_size=4), None), ("NONE", st.just(""), None)],
    "card": [("NOTE", wire, e_text("NOTE")), ("TITLE", wire, e_text("TITLE")), ("URL", wire.map(lambda v: "http://x/" + v.replace("\\n", "")), e_uri("URL")),
             ("N", st.sampled_from(["a;b;c;d;e;f", "a;b;c;d;e;;", "a,b;c;;;;x,y"]), "N"), ("ADR", st.sampled_from(["1;2;3;4;5;6;7;8", ";;1;2;3;4;5;", "1,2;;;;;;;9,8"]), "ADR"),
             ("REV", st.sampled_from([" 9990101T000000Z", "  990101T000000Z"]), e_plain("REV", "INVALID_DATETIME_LEADINGSPACE", lead)),
             ("PHOTO", st.sampled_from(["YWJj", "YW Jj", " YWJj ", "YWJ jZGVm"]), "PHOTO"), ("TEL", st.sampled_from(["+1", "a b"]), "TEL"), ("BLANK", st.lists(st.integers(0, 40), min_size=1, max_size=4), None), ("NONE", st.just(""), None)],
}


def options_run(J, case, rec):
    kind, name, v = case["kind"], case["defect"], case["value"]
    opts = dict(DEFAULT)
    opts.update(case["options"])
    effect = [e for n, s, e in DEFECTS[kind] if n == name][0]
    card = kind == "card"
    if card:
        cards = case["tree"]
        put = lambda p: [cards[0][:case["at"]] + ([[None] + p] if p else []) + cards[0][case["at"]:]] + cards[1:]
        bad, good = None, None
        if name in ("BLANK", "NONE"):
            bad = good = cards
        elif effect == "PHOTO":
            bad = put(["PHOTO", [["BASE64", None]], v])
            if opts["VCARD_2_BASE64"] == F:
                good = put(["PHOTO", [["ENCODING", ["b"]]], v.replace(" ", "")])
            elif " " in v:
                return
            else:
                o = opts["VCARD_2_NO_PARAMETER_VALUES"]
                good = R if o == R else put(["PHOTO", [["BASE64", None]] if o == A else [], v])
        elif effect == "TEL":
            bad = put(["TEL", [["HOME", None], ["TYPE", ["x"]]], v])
            o = opts["VCARD_2_NO_PARAMETER_VALUES"]
            good = R if o == R else put(["TEL", [["HOME", None]] * (o == A) + [["TYPE", ["x"]]], v])
        elif effect in ("N", "ADR"):
            bad = put([effect, [], v])
            o = opts["INVALID_ADR_N_VALUES"]
            good = R if o == R else bad if o == A else put([effect, [], ";".join(v.split(";")[:5 if effect == "N" else 7])])
        else:
            bad = put([name, [], v])
            good = effect(v, opts)
            good = good if good == R else put(good)
        data = V.render(bad)
    else:
        put = lambda p: ["VCALENDAR", [["VERSION", [], "2.0"], ["PRODID", [], "x"]], case["tree"][2] + [["VEVENT", [["UID", [], "u"]] + ([p] if p else []) + [["CATEGORIES", [], "a,b"]], []]]]
        bad = put(None) if name in ("BLANK", "NONE") else put([name, [], v])
        good = bad if name in ("BLANK", "NONE") else effect(v, opts)
        if name not in ("BLANK", "NONE") and good != R:
            good = put(good)
        data = T.render(bad)
    if name == "BLANK":
        ls = data.split("\r\n")
        for i in v:
            ls.insert(i % len(ls), "")
        data = "\r\n".join(ls)
        if opts["BLANK_LINES_IN_DATA"] == R:
            good = R
    how = case["how"] if card or case["how"] != "multiple" else "text"
    r = J.call("hostile.run", data, kind, how, case["options"])
    rec.nt(name != "NONE" and bool(case["options"]))
    rec.label(name, "raise" if good == R else "read")
    if good == R:
        expect("err" in r, "accepted though the setting is to raise", data=data, got=r, options=case["options"])
        return
    expect("ok" in r, "rejected though the setting is not to raise", data=data, got=r, options=case["options"])
    if card:
        got = [V.from_text(o["text"].encode("latin-1"))[0] for o in r["ok"]]
        want = V.from_cards(good)
    else:
        got = icanon.from_text(r["ok"][0]["text"].encode("latin-1"))
        want = [icanon.from_tree(good)]
    d = icanon.diff(want, got)
    expect(d is None, "read differently from what the setting says: %s" % d, data=data, output=[o["text"] for o in r["ok"]], options=case["options"])


def novalueless(cards):
    """leave out parameters without values: what becomes of them is a matter of the settings"""
    return [[[g, n, [p for p in ps if p[1] is not None and p[1] != []], v] for g, n, ps, v in c] for c in cards]


@st.composite
def lenient(draw):
    kind = draw(st.sampled_from(["cal", "cal", "card"]))
    name, values, _ = draw(st.sampled_from(DEFECTS[kind]))
    opts = dict((k, draw(st.sampled_from(OPTIONS[k]))) for k in draw(st.lists(st.sampled_from(sorted(OPTIONS)), unique=True, max_size=6)))
    if draw(st.booleans()):
        rel = {"SUMMARY": 1, "DESCRIPTION": 1, "CONTACT": 1, "NOTE": 1, "TITLE": 1}
        ks = ["INVALID_COLON_ESCAPE_SEQUENCE", "INVALID_ESCAPE_SEQUENCES"] if name in rel else ["BACKSLASH_IN_URI_VALUE", "INVALID_ESCAPE_SEQUENCES"] if name == "URL" else {"DURATION": ["INVALID_DURATION_VALUE"], "DTSTART": ["INVALID_DATETIME_LEADINGSPACE"], "CREATED": ["INVALID_DATETIME_LEADINGSPACE"], "REV": ["INVALID_DATETIME_LEADINGSPACE"], "REQUEST-STATUS": ["INVALID_REQUEST_STATUS_VALUE"], "N": ["INVALID_ADR_N_VALUES"], "ADR": ["INVALID_ADR_N_VALUES"], "PHOTO": ["VCARD_2_BASE64", "VCARD_2_NO_PARAMETER_VALUES"], "TEL": ["VCARD_2_NO_PARAMETER_VALUES"], "BLANK": ["BLANK_LINES_IN_DATA"]}.get(name, [])
        for k in ks:
            opts[k] = draw(st.sampled_from(OPTIONS[k]))
    if kind == "card":
        tree = novalueless(draw(st.lists(V.card(size=3), min_size=1, max_size=2)))
        at = draw(st.integers(1, len(tree[0])))
        return {"kind": kind, "tree": tree, "at": at, "defect": name, "value": draw(values), "options": opts, "how": "multiple"}
    return {"kind": kind, "tree": draw(small), "defect": name, "value": draw(values), "options": opts, "how": draw(st.sampled_from(["text", "stream"]))}


TESTS = [
    Test("text", texts(), text_run, 3000, shards=6),
    Test("json", jsons, json_run, 2000, shards=4),
    Test("line", bad_line(), line_run, 2000, shards=4),
    Test("lines", st.one_of(st.fixed_dictionaries({"lines": st.lists(iline(), min_size=1, max_size=12), "vcard": st.just(False)}), st.fixed_dictionaries({"lines": st.lists(vline(), min_size=1, max_size=12), "vcard": st.just(True)})), lines_run, 1500, shards=4),
    Test("options", lenient(), options_run, 2000, shards=4),
]

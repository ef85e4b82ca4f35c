"""C09: durations, periods and UTC offsets against plain integer and datetime arithmetic."""
import datetime as D

from hypothesis import strategies as st

from harness import gen_rrule as G
from harness.core import Test, expect

ID = "C09"
MODNAME = "checks.c09"
RULE = ("durations: 2-4 durations in any legal spelling, all pairs compared; periods: 2-4 periods, a history of operations, all pairs and points compared; offsets: UTC offsets and their spellings. "
        "Non-trivial: two different spellings of one length, two overlapping or touching periods, an offset other than whole hours.")
ASSUMPTIONS = ["periods end after they start, and all values of a case are UTC or all floating"]
cmp6 = lambda a, b: [a == b, a != b, a < b, a > b, a <= b, a >= b]


def spell(sign, w, d, h, m, s, form):
    t = {"": 1, "+": 1, "-": -1}[sign]
    if form == "w":
        return sign + "P%dW" % w, t * w * 604800
    date = "P%dD" % d if "d" in form else "P"
    hms = ""
    secs = 86400 * d if "d" in form else 0
    if "h" in form:
        hms += "%dH" % h
        secs += h * 3600
    if "m" in form:
        hms += "%dM" % m
        secs += m * 60
    if "s" in form:
        hms += "%dS" % s
        secs += s
    return sign + date + ("T" + hms if hms else ""), t * secs


FORMS = ["w", "d", "dh", "dhm", "dhms", "h", "hm", "hms", "m", "ms", "s", "dm", "dms", "ds"]
num = st.one_of(st.integers(0, 3), st.integers(0, 70), st.integers(0, 5000), st.integers(0, 10 ** 6))


@st.composite
def dur(draw, positive=False):
    sign = draw(st.sampled_from(["", "", "+"] if positive else ["", "", "+", "-"]))
    return spell(sign, draw(num), draw(num), draw(num), draw(num), draw(num), draw(st.sampled_from(FORMS)))


@st.composite
def respell(draw, secs):
    """another spelling of the same length"""
    a = abs(secs)
    out = [("s", dict(s=a))]
    if a % 60 == 0:
        out.append(("m", dict(m=a // 60)))
    if a % 3600 == 0:
        out.append(("h", dict(h=a // 3600)))
    if a % 86400 == 0:
        out.append(("d", dict(d=a // 86400)))
    if a % 604800 == 0:
        out.append(("w", dict(w=a // 604800)))
    out.append(("dhms", dict(d=a // 86400, h=a // 3600 % 24, m=a // 60 % 60, s=a % 60)))
    out.append(("hms", dict(h=a // 3600, m=a // 60 % 60, s=a % 60)))
    out.append(("ms", dict(m=a // 60, s=a % 60)))
    f, kw = draw(st.sampled_from(out))
    v = dict(w=0, d=0, h=0, m=0, s=0)
    v.update(kw)
    return spell("-" if secs < 0 else draw(st.sampled_from(["", "+"])), v["w"], v["d"], v["h"], v["m"], v["s"], f)


@st.composite
def dur_cases(draw):
    ds = [draw(dur()) for _ in range(draw(st.integers(1, 2)))]
    ds += [draw(respell(draw(st.sampled_from(ds))[1])) for _ in range(draw(st.integers(0, 2)))]
    if draw(st.booleans()):
        ds.append(draw(respell(ds[0][1] + draw(st.sampled_from([-1, 1, 60, -86400])))))
    return {"items": [list(x) for x in ds], "build": {k: draw(num) for k in draw(st.sets(st.sampled_from(["weeks", "days", "hours", "minutes", "seconds"]), max_size=5))}}


def grammar(t):
    """is it a dur-value of RFC 5545?"""
    import re
    return re.match(r"^-?P(\d+W|\d+D(T(\d+H(\d+M(\d+S)?)?|\d+M(\d+S)?|\d+S))?|T(\d+H(\d+M(\d+S)?)?|\d+M(\d+S)?|\d+S))$", t)


def run_dur(J, case, rec):
    items = case["items"]
    out, pairs = J.call("spans.durations", [t for t, _ in items])
    for (t, secs), g in zip(items, out):
        expect(g["secs"] == secs, "length differs", text=t, got=g["secs"], want=secs)
        sgn = 1 if g["fwd"] else -1
        w, d, h, m, s = g["parts"]
        expect(sgn * (w * 604800 + d * 86400 + h * 3600 + m * 60 + s) == secs and min(g["parts"]) >= 0, "parts do not add up", text=t, got=g)
        expect(grammar(g["text"]) and grammar(g["canon"]), "not a legal duration text", text=t, got=g)
        expect(g["reread"] == secs and g["canonread"] == secs and g["canonsecs"] == secs, "text does not read back", text=t, got=g)
        expect(g["eq"] == [True, False, False, False, True, True, True], "not equal to the same length", text=t, got=g["eq"])
        expect(g["dup"] == [secs, g["text"]], "copy differs", text=t, got=g["dup"])
        expect(g["value"] == [secs, g["text"]], "value object differs", text=t, got=g["value"])
        expect(g["json"] == [[g["text"]], secs], "JSON differs", text=t, got=g["json"])
    for i, (t, a) in enumerate(items):
        for j, (u, b) in enumerate(items):
            g = pairs[i][j]
            expect(g[:6] == cmp6(a, b), "comparison differs", a=t, b=u, got=g)
            if a == b:
                expect(g[6], "equal durations hash differently", a=t, b=u)
                rec.nt(t != u)
    if case["build"]:
        b = case["build"]
        w = (((b.get("weeks", 0) * 7 + b.get("days", 0)) * 24 + b.get("hours", 0)) * 60 + b.get("minutes", 0)) * 60 + b.get("seconds", 0)
        g = J.call("spans.build", b)
        expect(g[0] == w and grammar(g[1]), "built duration differs", got=g, want=w)
    # one canonical text per length
    canon = {}
    for (t, a), g in zip(items, out):
        expect(canon.setdefault(a, g["canon"]) == g["canon"], "two canonical texts for one length", a=canon[a], b=g["canon"])


@st.composite
def period_cases(draw):
    utc = draw(st.booleans())
    f = lambda x: G.fmt(x, False, utc)
    base = D.datetime(draw(st.integers(1971, 2090)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)))
    ps, pts = [], []
    edges = [base]
    for _ in range(draw(st.integers(2, 4))):
        s = draw(st.sampled_from(edges)) + D.timedelta(seconds=draw(st.sampled_from([0, 0, 0, 1, -1, 3600, -3600, 86400, -86400 * 30])))
        if len(edges) > 1 and draw(st.booleans()) and max(edges) > s:
            e = draw(st.sampled_from([x for x in edges if x > s]))
            secs = int((e - s).total_seconds())
            t = draw(respell(secs))[0]
        else:
            t, secs = draw(dur(True))
            secs = abs(secs) % (86400 * 400) or 1
            t = draw(respell(secs))[0]
            e = s + D.timedelta(seconds=secs)
        edges += [s, e]
        ps.append({"start": f(s), "end": t if draw(st.booleans()) else f(e), "how": draw(st.sampled_from(["text", "text", "init", "value"])), "secs": secs})
    pts = [f(draw(st.sampled_from(edges)) + D.timedelta(seconds=draw(st.sampled_from([0, 0, 1, -1, 1800])))) for _ in range(draw(st.integers(1, 4)))]
    ops = [[draw(st.integers(0, len(ps) - 1)), draw(st.sampled_from(["dup", "use", "nouse", "end", "duration", "utc", "float", "hash", "state", "state"]))] for _ in range(draw(st.integers(0, 8)))]
    return {"ps": ps, "ops": ops, "points": pts, "utc": utc}


def run_period(J, case, rec):
    ps = case["ps"]
    got = J.call("spans.periods", ps, case["ops"], case["points"])
    iv = [(G.parse_dt(p["start"]), G.parse_dt(p["start"]) + D.timedelta(seconds=p["secs"])) for p in ps]
    utc = [case["utc"]] * len(ps)
    use = [p["end"][0] in "P+" for p in ps]
    f = lambda x, i: G.fmt(x, False, utc[i])    # of the state of the history

    def check(i, g, when):
        s, e = iv[i]
        expect([g["start"], g["end"], g["dur"]] == [f(s, i), f(e, i), ps[i]["secs"]], "start, end and duration differ " + when, period=ps[i], got=g)
        expect(g["use"] == use[i], "form differs " + when, period=ps[i], got=g)
        a, b = g["text"].split("/")
        expect(a == f(s, i) and (b == f(e, i) if not use[i] else b[0] == "P" and grammar(b)), "text differs " + when, period=ps[i], got=g)
        expect(g["reread"] == g["text"] and g["json"] == g["text"], "does not read back " + when, period=ps[i], got=g)
        expect(g["eq"] == [True] * 5, "not equal to itself read back " + when, period=ps[i], got=g)
    for (i, op), g in zip(case["ops"], got["ops"]):
        if op == "use":
            use[i] = True
        elif op == "nouse":
            use[i] = False
        elif op == "float":
            utc = [False] * len(ps)
        elif op == "state":
            check(i, g, "during the history")
    for i, g in enumerate(got["final"]):
        check(i, g, "at the end")
    for i, (s, e) in enumerate(iv):
        for x, g in zip(case["points"], got["rel"][i]):
            x = G.parse_dt(x)
            expect(g == [s <= x < e, x < s, x >= e], "position of a time differs", period=ps[i], at=str(x), got=g)
        for j, (s2, e2) in enumerate(iv):
            g = got["pair"][i][j]
            expect(g[:6] == cmp6((s, e), (s2, e2)), "comparison differs", a=ps[i], b=ps[j], got=g)
            expect(g[7] == (s < e2 and s2 < e), "overlap differs", a=ps[i], b=ps[j], got=g[7])
            if (s, e) == (s2, e2):
                expect(g[6] and g[8], "equal periods hash differently", a=ps[i], b=ps[j])
            rec.nt(i != j and s <= e2 and s2 <= e)
    expect([x.split("/")[0] for x in got["sorted"]] == [f(s, 0) for s, _ in sorted(iv)], "sorted order differs", got=got["sorted"])
    rec.label("utc" if case["utc"] else "floating", *set(op for _, op in case["ops"]))


def off(v, sep, secs):
    a = abs(v)
    t = "%s%02d%s%02d" % ("-" if v < 0 else "+", a // 3600, sep, a // 60 % 60)
    return t + ("%s%02d" % (sep, a % 60) if secs or a % 60 else "")


@st.composite
def off_cases(draw):
    items = []
    for _ in range(draw(st.integers(1, 6))):
        v = draw(st.one_of(st.integers(-86399, 86399), st.integers(-95, 95).map(lambda x: x * 900), st.integers(-1439, 1439).map(lambda x: x * 60), st.integers(-100, 100)))
        full = draw(st.booleans())
        sep = ":" if full else ""
        items.append([v, sorted({off(v, sep, False), off(v, sep, True)}) + (["-00" + sep + "00"] if v == 0 and full else []), full])
    return {"items": items}


def run_off(J, case, rec):
    for (v, texts, full), g in zip(case["items"], J.call("spans.offsets", case["items"])):
        expect(g["text"] == off(v, "", False) and g["full"] == off(v, ":", False) and g["json"] == [off(v, ":", False)], "text differs", value=v, got=g)
        expect(g["back"] == [v] * 4, "does not read back", value=v, got=g)
        expect(g["eq"] == [True, False, True], "not equal to itself", value=v, got=g)
        for t, a in zip(texts, g["alts"]):
            expect(a == [v, True, False, True], "another spelling differs", value=v, text=t, got=a)
        rec.nt(v % 3600)


TESTS = [
    Test("durations", dur_cases(), run_dur, quick=3000, thorough=80000, shards=2),
    Test("periods", period_cases(), run_period, quick=3000, thorough=80000, shards=3),
    Test("offsets", off_cases(), run_off, quick=1200, thorough=30000, shards=1),
]

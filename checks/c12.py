"""C12: recurrence rules as text, jCal values and objects."""
from hypothesis import assume, strategies as st

from harness import gen_rrule as G, rrule_model as M
from harness.core import Test, expect, fail

ID = "C12"
MODNAME = "checks.c12"
RULE = ("a case is a rule (any legal parts, any part order), a pair of related rules, a chain of setter calls or a malformed rule. "
        "Non-trivial: at least three parts (round trip, equality), at least two setter calls, or one malformed part.")
ASSUMPTIONS = ["UNTIL values of two compared rules lie on different days when they differ"]

num = lambda lo, hi: st.lists(st.integers(lo, hi), min_size=1, max_size=5)
snum = lambda hi: st.lists(st.one_of(st.integers(1, hi), st.integers(1, hi).map(lambda x: -x)), min_size=1, max_size=5)
UNTILS = ["20300101", "20300615", "20300615T120000Z", "20300615T120000", "20281231T235959Z", "19990228T000000", "20240229"]


@st.composite
def anyrule(draw):
    r = {"freq": draw(st.sampled_from(M.FREQS)), "interval": draw(st.one_of(st.just(1), st.integers(1, 100)))}
    yes = lambda p=30: draw(st.integers(0, 99)) < p
    e = draw(st.sampled_from(["", "", "count", "until"]))
    if e == "count":
        r["count"] = draw(st.integers(1, 1000))
    elif e == "until":
        r["until_text"] = draw(st.sampled_from(UNTILS))
    for k, s in (("bysecond", num(0, 60)), ("byminute", num(0, 59)), ("byhour", num(0, 23)), ("bymonthday", snum(31)), ("byyearday", snum(366)),
                 ("byweekno", snum(53)), ("bymonth", num(1, 12)), ("bysetpos", snum(366))):
        if yes():
            r[k] = draw(s)
    if yes(40):
        r["byday"] = draw(st.lists(st.tuples(st.one_of(st.just(0), st.integers(1, 53), st.integers(-53, -1)), st.integers(0, 6)).map(list), min_size=1, max_size=5))
    if yes(40):
        r["wkst"] = draw(st.integers(0, 6))
    return r


KEYS = ["bysecond", "byminute", "byhour", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos"]


def parts(r, plus=False, wkst_mo=False):
    out = ["FREQ=" + r["freq"]]
    if r.get("interval", 1) != 1:
        out.append("INTERVAL=%d" % r["interval"])
    if "count" in r:
        out.append("COUNT=%d" % r["count"])
    if "until_text" in r:
        out.append("UNTIL=" + r["until_text"])
    f = "%+d" if plus else "%d"
    for k in KEYS:
        if r.get(k):
            out.append(k.upper() + "=" + ",".join((f if k not in ("bysecond", "byminute", "byhour", "bymonth") else "%d") % x for x in r[k]))
    if r.get("byday"):
        out.append("BYDAY=" + ",".join((f % n if n else "") + M.DAYS[d] for n, d in r["byday"]))
    if "wkst" in r and (r["wkst"] != 1 or wkst_mo):
        out.append("WKST=" + M.DAYS[r["wkst"]])
    return out


def norm(r):
    r = dict((k, v) for k, v in r.items() if v is not None)
    if r.get("wkst") == 1:
        del r["wkst"]
    r.setdefault("interval", 1)
    return r


def unparse(text):
    """a rule text as a dict, read independently of the library"""
    r = {"interval": 1}
    seen = set()
    for p in text.split(";"):
        k, v = p.split("=")
        if k in seen:
            fail("part written twice", text=text)
        seen.add(k)
        if k == "FREQ":
            r["freq"] = v
        elif k in ("COUNT", "INTERVAL"):
            r[k.lower()] = int(v)
        elif k == "UNTIL":
            r["until_text"] = v
        elif k == "WKST":
            r["wkst"] = M.DAYS.index(v)
        elif k == "BYDAY":
            r["byday"] = [[int(x[:-2] or 0), M.DAYS.index(x[-2:])] for x in v.split(",")]
        elif k.lower() in KEYS:
            r[k.lower()] = [int(x) for x in v.split(",")]
        else:
            fail("unknown part written", text=text)
    return norm(r)


def json_of(r):
    j = {"freq": r["freq"]}
    for k in KEYS:
        if r.get(k):
            j[k] = r[k]
    if "count" in r:
        j["count"] = r["count"]
    if r.get("interval", 1) != 1:
        j["interval"] = r["interval"]
    if "until_text" in r:
        t = r["until_text"]
        j["until"] = "-".join([t[:4], t[4:6], t[6:8]]) + ("" if "T" not in t else "T" + ":".join([t[9:11], t[11:13], t[13:]]))
    if r.get("byday"):
        j["byday"] = [("%d" % n if n else "") + M.DAYS[d] for n, d in r["byday"]]
    if r.get("wkst", 1) != 1:
        j["wkst"] = M.DAYS[r["wkst"]]
    return j


def run_roundtrip(J, case, rec):
    r, order, plus, wk = case["rule"], case["order"], case["plus"], case["wkst_mo"]
    ps = parts(r, plus, wk)
    ps = [p for _, p in sorted(zip([(o, i) for i, o in enumerate(order + [0] * len(ps))], ps))]
    text = ";".join(ps)
    got = J.call("rrule.roundtrip", text)
    w = norm(r)
    expect(unparse(got["text"]) == w, "the written rule differs", text=text, got=got["text"])
    expect(got["again"] == got["text"] and got["dup"] == got["text"], "written text not stable", text=text, got=got)
    expect(got["json"] == json_of(w), "jCal value differs", text=text, got=got["json"], want=json_of(w))
    expect(got["from_json"] == got["text"] and got["json_eq"] and got["dup_eq"], "jCal round trip or copy differs", text=text, got=got)
    expect(got["hash"], "equal rules hash differently", text=text)
    expect(got["ui"] == got["text"], "description differs", text=text, got=got["ui"])
    by = G.has_by(w)
    expect(got["has_by"] == by and got["simple"] == (not by), "hasBy/isSimpleRule wrong", text=text)
    # jCal allows a single value where there is a list
    j = json_of(w)
    for k in KEYS + ["byday"]:
        if k in j and len(j[k]) == 1:
            j[k] = j[k][0]
            rec.label("jCal scalar")
    expect(J.call("rrule.from_json", j) == got["text"], "jCal value with single items reads differently", json=j)
    rec.nt(len(ps) >= 3)
    rec.label(*[p.split("=")[0] for p in ps])


@st.composite
def rt_cases(draw):
    r = draw(anyrule())
    return {"rule": r, "order": draw(st.lists(st.integers(0, 20), min_size=13, max_size=13)), "plus": draw(st.booleans()), "wkst_mo": draw(st.booleans())}


def run_equality(J, case, rec):
    a, b = norm(case["a"]), norm(case["b"])
    got = J.call("rrule.compare", ";".join(parts(case["a"])), ";".join(reversed(parts(case["b"], False, True))))
    bag = lambda r: dict((k, sorted(v) if isinstance(v, list) else v) for k, v in r.items())
    same = bag(a) == bag(b)
    expect(got[0] == same and got[1] == same, "equality wrong", a=parts(a), b=parts(b), got=got, want=same)
    expect(got[2] == (not same) and got[3] == (not same), "inequality wrong", a=parts(a), b=parts(b), got=got, want=same)
    if same:
        expect(got[4] and got[5] == 1, "equal rules hash differently or stay apart in a set", a=parts(a), b=parts(b), got=got)
    else:
        expect(got[5] == 2, "different rules merge in a set", a=parts(a), b=parts(b), got=got)
    rec.nt(len(parts(a)) >= 3)
    rec.label("same" if same else "different")


@st.composite
def eq_cases(draw):
    a = draw(anyrule())
    b = dict((k, list(v) if isinstance(v, list) else v) for k, v in a.items())
    for k in b:
        if isinstance(b[k], list):
            b[k] = draw(st.permutations(b[k]))
    kind = draw(st.sampled_from(["same", "same", "drop", "element", "other", "scalar"]))
    keys = [k for k in b if k.startswith("by")]
    if kind == "drop" and keys:
        del b[draw(st.sampled_from(keys))]
    elif kind == "element" and keys:
        k = draw(st.sampled_from(keys))
        if k == "byday":
            b[k][0] = [b[k][0][0], (b[k][0][1] + draw(st.integers(0, 6))) % 7]
        elif draw(st.booleans()) and len(b[k]) > 1:
            b[k] = b[k][:-1]
        else:
            b[k] = b[k] + [draw(st.sampled_from([1, 2, 3]))]
    elif kind == "scalar":
        k = draw(st.sampled_from(["freq", "interval", "wkst", "count", "until_text"]))
        if k == "freq":
            b["freq"] = draw(st.sampled_from(M.FREQS))
        elif k == "interval":
            b["interval"] = draw(st.integers(1, 3))
        elif k == "wkst":
            b["wkst"] = draw(st.integers(0, 6))
        else:
            b.pop("count", None)
            b.pop("until_text", None)
            if draw(st.booleans()):
                b[k] = draw(st.integers(1, 3)) if k == "count" else draw(st.sampled_from(UNTILS))
    elif kind == "other":
        b = draw(anyrule())
    return {"a": a, "b": b}


SETTABLE = ["bymonth", "bymonthday", "byyearday", "bysetpos", "byday"]


def run_setters(J, case, rec):
    """from the text of one rule, through setters, to another"""
    cur = norm(case["rule"])
    steps, wants = [], []
    for k, v in case["sets"]:
        if k == "end":
            cur.pop("count", None)
            cur.pop("until_text", None)
            s = [["usecount", v[0] == "count"], ["useuntil", v[0] == "until"]]
            if v[0] == "count":
                cur["count"] = v[1]
                s.append(["count", v[1]])
            elif v[0] == "until":
                cur["until_text"] = v[1]
                s.append(["until", v[1]])
            steps.append(["set", s])
        else:
            steps.append(["set", [[k, v]]])
            if not v:
                cur.pop(k, None)
            else:
                cur[k] = v
        wants.append(dict(cur))
    got = J.call("rrule.history", ";".join(parts(case["rule"])), steps)
    for (_, g, same), w, s in zip(got, wants, steps):
        expect(unparse(g) == norm(w), "rule after a setter is written differently", setter=s, got=g, want=parts(w))
        expect(same, "rule after a setter is not equal to (or hashes unlike) the one read from its text", setters=steps, text=g)
    rec.nt(len(steps) >= 2)


@st.composite
def set_cases(draw):
    r = draw(anyrule())
    one = st.one_of(
        st.tuples(st.just("freq"), st.sampled_from(M.FREQS)), st.tuples(st.just("interval"), st.integers(1, 9)),
        st.tuples(st.just("end"), st.one_of(st.just(("none", None)), st.tuples(st.just("count"), st.integers(1, 99)), st.tuples(st.just("until"), st.sampled_from(UNTILS)))),
        st.tuples(st.just("bymonth"), st.one_of(num(1, 12), st.just([]), st.none())), st.tuples(st.just("bymonthday"), st.one_of(snum(31), st.just([]), st.none())), st.tuples(st.just("byyearday"), snum(366)),
        st.tuples(st.just("bysetpos"), snum(9)),
        st.tuples(st.just("byday"), st.lists(st.tuples(st.integers(-5, 5), st.integers(0, 6)).map(list), min_size=1, max_size=3)))
    return {"rule": r, "sets": draw(st.lists(one, min_size=1, max_size=6))}


BAD = ["FREQ=SOMETIMES", "FREQ=", "FREQ=daily2", "INTERVAL=0", "INTERVAL=-1", "INTERVAL=x", "INTERVAL=", "COUNT=0", "COUNT=-3", "COUNT=x", "UNTIL=2020", "UNTIL=x", "UNTIL=20200101T", "UNTIL=20200101X120000",
       "BYSECOND=61", "BYSECOND=-1", "BYSECOND=x", "BYMINUTE=60", "BYMINUTE=-1", "BYHOUR=24", "BYHOUR=-1", "BYHOUR=", "BYMONTHDAY=0", "BYMONTHDAY=32", "BYMONTHDAY=-32", "BYYEARDAY=0", "BYYEARDAY=367", "BYYEARDAY=-367",
       "BYWEEKNO=0", "BYWEEKNO=54", "BYWEEKNO=-54", "BYMONTH=0", "BYMONTH=13", "BYMONTH=-1", "BYMONTH=1,,2", "BYDAY=XX", "BYDAY=0MO", "BYDAY=54MO", "BYDAY=-54MO", "BYDAY=", "BYDAY=MO,,TU", "BYDAY=1", "BYDAY=MO1",
       "WKST=XX", "WKST=", "FOO=1", "FREQ", "=", "BYDAY=MO=TU"]
PREFIX = {"BYSECOND": "0,60,", "BYMINUTE": "0,59,", "BYHOUR": "0,23,", "BYMONTHDAY": "1,-31,", "BYYEARDAY": "1,366,", "BYWEEKNO": "1,53,", "BYMONTH": "1,12,", "BYDAY": "MO,-1TU,"}


def run_rejects(J, case, rec):
    r = dict(case["rule"])
    bad = case["bad"]
    ps = parts(r)
    if bad == "twice":
        bys = [p for p in ps if p.startswith("BY")]
        if not bys:
            return
        ps.insert(case["at"] % (len(ps) + 1), bys[case["at"] % len(bys)])
    elif bad == "count+until":
        ps = [p for p in ps if not p.startswith(("COUNT", "UNTIL"))]
        for x in (["COUNT=3", "UNTIL=20300101"] if case["at"] % 2 else ["UNTIL=20300101T000000Z", "COUNT=1"]):
            ps.append(x)
    elif bad == "empty part":
        ps.insert(case["at"] % (len(ps) + 1), "")
    else:
        key = bad.split("=")[0]
        ps = [p for p in ps if p.split("=")[0] != key]
        if key == "UNTIL" or key == "COUNT":
            ps = [p for p in ps if not p.startswith(("COUNT", "UNTIL"))]
        if case["prefix"] and key in PREFIX and bad.count("=") == 1 and "=" in bad:
            bad = key + "=" + PREFIX[key] + bad.split("=")[1]
        ps.insert(case["at"] % (len(ps) + 1), bad)
    expect(J.call("rrule.rejects", ";".join(ps)), "malformed rule accepted", text=";".join(ps))
    rec.nt()
    rec.label(case["bad"].split("=")[0])


rej_cases = st.fixed_dictionaries({"rule": anyrule(), "bad": st.sampled_from(BAD + ["twice"] * 4 + ["count+until"] * 4 + ["empty part"] * 2), "at": st.integers(0, 12), "prefix": st.booleans()})

TESTS = [
    Test("roundtrip", rt_cases(), run_roundtrip, quick=2500, thorough=60000, shards=2),
    Test("equality", eq_cases(), run_equality, quick=2000, thorough=50000, shards=2),
    Test("setters", set_cases(), run_setters, quick=1000, thorough=30000),
    Test("rejects", rej_cases, run_rejects, quick=1500, thorough=30000),
]

"""C28: comparing and dumping time zone data reports exactly the changes of offset, and the differences."""
import datetime as D
import re

from hypothesis import assume, strategies as st

from checks import c24
from harness import rrule_model as M, tzsource as T
from harness.core import Test, expect

ID = "C28"
MODNAME = "checks.c28"
RULE = ("`compare`: two directories of 1-5 zones in files, written in different ways, the second with changes dropped, moved, added or given other offsets, compared both ways with and without filters. `dump`: the changes of offset of zones in a range of years, and their text. "
        "`source`: zones compiled from generated tz source, and from source with one line altered, compared with the source itself. Non-trivial: a real difference, or a change within the range; for `compare`, two zones in both.")
ASSUMPTIONS = ["a difference on the first day of the range is open, as the tool leaves it out on one side", "changes from an offset to the same one are no difference, but are dumped as written", "one TZID has one VTIMEZONE in each directory"]
DAYS = 86400
SU = M.DAYS.index("SU")


def jan1(y):
    return (D.datetime(y, 1, 1) - T.EPOCH).days * DAYS


def dt(t):
    return T.EPOCH + D.timedelta(seconds=t)


def stamp(t):
    return dt(t).strftime("%Y%m%dT%H%M%S")


def offtext(n):
    s = "-" if n < 0 else "+"
    n = abs(n)
    return s + "%02d%02d" % (n // 3600, n // 60 % 60) + ("%02d" % (n % 60) if n % 60 else "")


def shown(n):
    s = "-" if n < 0 else ""
    n = abs(n)
    return s + "%02d:%02d" % (n // 3600, n // 60 % 60) + (":%02d" % (n % 60) if n % 60 else "")


# ---------------------------------------------------------------- zones: {"first": offset, "changes": [[utc, to]], "rules": [std, dst, y1, y2] or None}
def yearly(z):
    """a pair of yearly changes"""
    if not z["rules"]:
        return []
    std, dst, y1, y2, m1, m2, n1, n2 = z["rules"]
    out = []
    for m, n, f, t in ((m1, n1, std, dst), (m2, n2, dst, std)):
        start = min(x for x in M.Rule({"freq": "YEARLY", "interval": 1, "bymonth": [m], "byday": [[n, SU]]}, D.datetime(y1, 1, 1, 2)).instances(limit_dt=D.datetime(y1 + 1, 1, 1)) if x.month == m)
        xs = M.Rule({"freq": "YEARLY", "interval": 1, "bymonth": [m], "byday": [[n, SU]]}, start).instances(limit_dt=D.datetime(min(y2, 2150) + 1, 1, 1))
        out.append((m, n, f, t, start, sorted(set([start] + list(xs)))))
    return out


def listed(z):
    """[(local, utc, from, to)] in order"""
    out, last = [], z["first"]
    for u, to in z["changes"]:
        out.append((u + last, u, last, to))
        last = to
    for m, n, f, t, start, xs in yearly(z):
        out += [((x - T.EPOCH).days * DAYS + (x - T.EPOCH).seconds, (x - T.EPOCH).days * DAYS + (x - T.EPOCH).seconds - f, f, t) for x in xs]
    return sorted(set(out))


def vtz(tzid, z):
    """written with one part for each change, or with changes gathered"""
    lines = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    parts = []
    last = z["first"]
    for i, (u, to) in enumerate(z["changes"]):
        parts.append((last, to, u + last, i))
        last = to
    groups = {}
    for f, to, l, i in parts:
        groups.setdefault((f, to) if z["style"] % 3 else (f, to, i), []).append(l)
    items = sorted(groups.items(), key=lambda x: x[1])
    if z["style"] % 2:
        items.reverse()
    subs = []
    for k, ls in items:
        kind = "DAYLIGHT" if k[1] > k[0] else "STANDARD"
        s = ["BEGIN:" + kind, "DTSTART:" + stamp(ls[0])]
        if z["style"] % 5 == 1 and len(ls) > 1:
            s.append("RDATE:" + ",".join(map(stamp, ls[1:])))
        elif z["style"] % 5 == 2:
            s += ["RDATE:" + stamp(x) for x in ls]
        else:
            s += ["RDATE:" + stamp(x) for x in ls[1:]]
        subs.append(s + ["TZNAME:%s%d" % (kind[0], k[1]), "TZOFFSETFROM:" + offtext(k[0]), "TZOFFSETTO:" + offtext(k[1]), "END:" + kind])
    for m, n, f, t, start, xs in yearly(z):
        kind = "DAYLIGHT" if t > f else "STANDARD"
        rule = "RRULE:FREQ=YEARLY;BYDAY=%dSU;BYMONTH=%d" % (n, m)
        if z["rules"][3] < 9999:
            rule += ";UNTIL=" + (xs[-1] - D.timedelta(seconds=f)).strftime("%Y%m%dT%H%M%SZ")
        subs.append(["BEGIN:" + kind, "DTSTART:" + start.strftime("%Y%m%dT%H%M%S"), rule, "TZNAME:R", "TZOFFSETFROM:" + offtext(f), "TZOFFSETTO:" + offtext(t), "END:" + kind])
    assume(subs)
    for s in subs:
        lines += s
    return lines + ["END:VTIMEZONE"]


def calendar(parts):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN"] + sum(parts, []) + ["END:VCALENDAR", ""])


OFF = st.sampled_from([0, 3600, 7200, -18000, -14400, 19800, -12600, -1521, 50400, -43200, 5400, -900])


@st.composite
def zone(draw):
    base = draw(st.integers(1905, 2015))
    changes, last = [], draw(OFF)
    first = last
    u = jan1(base) + draw(st.integers(2, 360)) * DAYS + draw(st.integers(0, 95)) * 900
    if draw(st.integers(0, 3)) == 0:
        u = jan1(base) - last
    for _ in range(draw(st.integers(1, 6))):
        to = draw(st.one_of(OFF, OFF, st.just(last)))
        changes.append([u, to])
        last = to
        u += draw(st.integers(4, 900)) * DAYS + draw(st.sampled_from([0, 0, 3600, 5, -1800]))
        if draw(st.integers(0, 3)) == 0:
            # the moment a year begins
            u = jan1(dt(u).year + 1) - last + draw(st.sampled_from([0, 0, 0, 1, -1]))
    rules = None
    if draw(st.booleans()):
        y = dt(u).year + draw(st.integers(1, 9))
        rules = [last, last + draw(st.sampled_from([3600, 1800, 7200, -3600])), y, y + draw(st.sampled_from([0, 1, 2, 8, 30, 9999])), *draw(st.sampled_from([[3, 10], [4, 9], [10, 3]])), *draw(st.sampled_from([[2, 1], [-1, -1], [1, -1]]))]
        rules[3] = min(rules[3], 9999)
    z = {"first": first, "changes": changes, "rules": rules, "style": draw(st.integers(0, 29))}
    clear(z)
    return z


def clear(z):
    xs = listed(z)
    assume(all(b[1] - a[1] > 2 * DAYS and b[0] > a[0] for a, b in zip(xs, xs[1:])))


@st.composite
def other(draw, z):
    z = {"first": z["first"], "changes": [list(c) for c in z["changes"]], "rules": z["rules"] and list(z["rules"]), "style": draw(st.integers(0, 29))}
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        k = draw(st.integers(0, 5))
        i = draw(st.integers(0, max(0, len(z["changes"]) - 1)))
        if k == 0 and len(z["changes"]) > 1:
            del z["changes"][i]
        elif k == 1:
            z["changes"][i][0] += draw(st.sampled_from([1, 60, 3600, -3600, DAYS]))
        elif k == 2:
            z["changes"][i][1] += draw(st.sampled_from([3600, -1800, 1]))
        elif k == 3:
            # a change to the same
            z["changes"].insert(i + 1, [z["changes"][i][0] + draw(st.integers(3, 40)) * DAYS, z["changes"][i][1]])
        elif k == 4 and z["rules"]:
            z["rules"][3] = z["rules"][2] + draw(st.integers(0, 20))
        elif k == 5:
            z["first"] += draw(st.sampled_from([0, 3600]))
    clear(z)
    return z


@st.composite
def years(draw, zones):
    at = st.sampled_from([dt(c[0] + DAYS).year for z in zones.values() for c in z["changes"]])
    lo = draw(st.one_of(st.integers(1900, 2040), at))
    hi = draw(st.one_of(st.sampled_from([1, 2, 10, 60, 100]).map(lambda n: lo + n), at))
    return [lo, hi] if lo < hi else [hi, lo] if hi < lo else [lo, lo + 1]


NAMES = ["Europe/One", "America/Two", "Three", "America/Sub/Four", "Etc/GMT+5"]


@st.composite
def compare_cases(draw):
    n = draw(st.integers(1, 5))
    one = {k: draw(zone()) for k in NAMES[:n]}
    two = {}
    for k, z in one.items():
        w = draw(st.integers(0, 7))
        if w:
            two[k] = draw(other(z))
    if draw(st.integers(0, 3)) == 0:
        two["Extra/New"] = draw(zone())
    if not two:
        two["Extra/New"] = draw(zone())
    lo, hi = draw(years(one))
    return {"one": one, "two": two, "lo": lo, "hi": hi, "verbose": draw(st.booleans()), "quiet": draw(st.booleans()),
            "filter": draw(st.lists(st.sampled_from(NAMES + ["None/Such"]), max_size=3, unique=True)) if draw(st.integers(0, 2)) == 0 else [],
            "skip": draw(st.sampled_from([[], [], [], ["Europe/"], ["Sub/Four", "Three"]])), "pick": draw(st.sampled_from([[], [], [], [], ["America/"], ["Three", "One"]])), "gather": draw(st.booleans())}


def files(zones, gather):
    if gather:
        out = {}
        for k, z in zones.items():
            out.setdefault("all-%s.ics" % k.split("/")[0], []).append(vtz(k, z))
        out = {k: calendar(v) for k, v in out.items()}
    else:
        out = {k + ".ics": calendar([vtz(k, z)]) for k, z in zones.items()}
    out["links.txt"] = "Some/Name\tThree"
    out["Europe/notes.ics.bak"] = "nothing"
    return out


def chosen(fs, skip, pick):
    fs = [f for f in fs if f.endswith(".ics")]
    if pick:
        return [f for f in fs if any(p in f for p in pick)]
    return [f for f in fs if not any(p in f for p in skip)]


ITEM = r"\((\d{8}(?:T\d{6})?), (\d{8}T\d{6}Z), (-?[\d:]+), (-?[\d:]+)\)"


def items(text):
    xs = re.findall(ITEM, text)
    expect(", ".join("(%s, %s, %s, %s)" % x for x in xs) == text, "a list of changes", got=text)
    return xs


def item(x):
    return (stamp(x[0]), stamp(x[1]) + "Z", shown(x[2]), shown(x[3]))


def said(text, quiet, verbose):
    """what a comparison said: {what: value}"""
    r = {"missing": None, "checking": [], "matched": [], "only1": {}, "only2": {}, "dates": {}}
    cur = None
    for l in text.split("\n"):
        m = re.match(r"In calendar (\d) but not in calendar (\d) tzid=(\S+): (.*)$", l)
        if m:
            expect(m.group(1) != m.group(2), "which calendar", got=l)
            expect(m.group(3) not in r["only" + m.group(1)], "one line for each", got=text)
            r["only" + m.group(1)][m.group(3)] = items(m.group(4))
        elif l.startswith("Checking TZID: "):
            cur = l[15:]
            r["checking"].append(cur)
        elif l.startswith("Matched: "):
            r["matched"].append(l[9:])
        elif l.startswith("TZIDs in calendar 1 not in calendar 2 files: "):
            r["missing"] = l.split(": ", 1)[1].split(", ")
        elif re.match(r"Calendar [12] dates: ", l):
            r["dates"].setdefault(cur, []).append(items(l.split(": ", 1)[1]))
        else:
            expect(l in ("", "These cannot be checked."), "a line of the comparison", got=l)
    return r


def run_compare(J, case, rec):
    one, two, lo, hi = case["one"], case["two"], case["lo"], case["hi"]
    fa, fb = files(one, case["gather"]), files(two, case["gather"])
    r = J.call("tzcheck.compare", fa, fb, lo, hi, case["filter"], case["verbose"], case["quiet"], case["skip"], case["pick"])

    def there(zones, fs):
        fs = chosen(fs, case["skip"], case["pick"])
        return {k for k in zones if ("all-%s.ics" % k.split("/")[0] if case["gather"] else k + ".ics") in fs}
    ka, kb = there(one, fa), there(two, fb)
    expect(r["ids"] == [sorted(ka), sorted(kb)], "zones read", got=r["ids"], want=[sorted(ka), sorted(kb)])
    if case["verbose"]:
        got = sorted(re.findall(r"Found calendar data: /[ab]/(.*)", r["loading"]))
        expect(got == sorted(chosen(fa, case["skip"], case["pick"]) + chosen(fb, case["skip"], case["pick"])), "files found", got=got)
    elif case["quiet"]:
        expect(r["loading"] == "", "quiet", got=r["loading"])
    diff = 0
    for text, za, zb, xa, xb in ((r["said"], one, two, ka, kb), (r["back"], two, one, kb, ka)):
        s = said(text, case["quiet"], case["verbose"])
        expect((s["missing"] or []) == sorted(xa - xb), "zones missing from the second", got=s["missing"], want=sorted(xa - xb))
        common = [k for k in sorted(xa & xb) if not case["filter"] or k in case["filter"]]
        if not case["quiet"]:
            expect(s["checking"] == common, "zones compared", got=s["checking"], want=common)
        else:
            expect(s["checking"] == [] and s["matched"] == [], "quiet", got=text)
        same = []
        for k in common:
            a = [x for x in listed(za[k]) if jan1(lo) <= x[0] < jan1(hi)]
            b = [x for x in listed(zb[k]) if jan1(lo) <= x[0] < jan1(hi)]
            if case["verbose"] and not case["quiet"]:
                expect(s["dates"].get(k) == [[item(x) for x in a], [item(x) for x in b]], "changes of each", zone=k, got=s["dates"].get(k), want=[[item(x) for x in a], [item(x) for x in b]])
            ga, gb = s["only1"].pop(k, []), s["only2"].pop(k, [])
            if not ga and not gb:
                same.append(k)
            wa = [item(x) for x in a if x not in b and x[2] != x[3]]
            wb = [item(x) for x in b if x not in a and x[2] != x[3]]
            ga, gb, wa, wb = [[x for x in l if x[0][:8] != "%d0101" % lo] for l in (ga, gb, wa, wb)]
            expect(ga == wa, "changes in the first only", zone=k, lo=lo, hi=hi, want=wa, said=text)
            expect(gb == wb, "changes in the second only", zone=k, lo=lo, hi=hi, want=wb, said=text)
            diff += bool(wa or wb)
        expect(not s["only1"] and not s["only2"], "differences of other zones", got=text)
        if not case["quiet"]:
            expect(s["matched"] == same, "zones that match", got=s["matched"], want=same)
    if diff:
        rec.label("differ")
    rec.nt(diff or len(ka & kb) > 1)


# ---------------------------------------------------------------- dump
@st.composite
def dump_cases(draw):
    zones = {"z%d.ics" % i: draw(zone()) for i in range(draw(st.integers(1, 3)))}
    lo, hi = draw(years(zones))
    return {"zones": zones, "lo": lo, "hi": hi}


def run_dump(J, case, rec):
    lo, hi = case["lo"], case["hi"]
    r = J.call("tzcheck.dump", {k: calendar([vtz("Some/Zone", z)]) for k, z in case["zones"].items()}, lo, hi)
    for k, z in case["zones"].items():
        want = [x for x in listed(z) if jan1(lo) <= x[0] < jan1(hi)]
        got, text, text2 = r[k]
        expect(got == [[stamp(x[0]), stamp(x[1]) + "Z", x[2], x[3]] for x in want], "changes of a zone", zone=z, got=got, want=[item(x) for x in want])
        expect(items(text) == [item(x) for x in want] and text == text2, "text of the changes", got=text, other=text2, want=[item(x) for x in want])
        rec.nt(want)


# ---------------------------------------------------------------- against the source
@st.composite
def source_cases(draw):
    src = draw(c24.sources())
    lo = src["asks"][0][0]
    lo = max(lo, 1850)
    hi = max(src["asks"][0][1], lo + draw(st.sampled_from([1, 12, 30, 60])))
    rules = {k: [list(r) for r in v] for k, v in src["rules"].items()}
    zone = [list(z) for z in src["zone"]]
    used = [k for k in rules if any(z[1] == k for z in zone)]
    if used and draw(st.booleans()):
        r = draw(st.sampled_from(rules[draw(st.sampled_from(used))]))
        k = draw(st.integers(0, 2))
        if k == 0:
            r[4] = draw(st.sampled_from(["2:00", "1:00", "3:00"]))
        elif k == 1 and T.secs(r[5])[0]:
            r[5] = draw(st.sampled_from(["1:00", "0:30", "2:00"]))
        else:
            r[3] = draw(c24.on_day(T.MON.index(r[2])))
    else:
        z = draw(st.sampled_from(zone))
        z[0] = draw(c24.OFFS)
    for n in rules:
        ts = sorted(t for t, _ in c24.whens(rules[n]))
        assume(all(y - x > 3 * DAYS for x, y in zip(ts, ts[1:])))
    ends = [T.until_of(z[3])[0] for z in zone[:-1]]
    for i, e in enumerate(ends):
        for z in zone[i:i + 2]:
            if z[1] in rules:
                assume(all(abs(t - e) > 3 * DAYS or t == e for t, _ in c24.whens(rules[z[1]])))
    case = {"src": {"rules": src["rules"], "zone": src["zone"]}, "alt": {"rules": rules, "zone": zone}, "lo": lo, "hi": hi}
    for s in (case["src"], case["alt"]):
        for y in (lo, hi):
            assume(all(abs(x[0] - jan1(y)) > 20 * DAYS for x in T.expand(s["rules"], s["zone"], hi + 3)[1:]))
    return case


def text_of(s):
    return "\n".join([c24.rule_text(k, v, 0) for k, v in s["rules"].items() if v] + [c24.zone_text("Test/Zone_1", s["zone"], 0), ""])


def real(s, lo, hi):
    table = T.expand(s["rules"], s["zone"], hi + 3)
    out = [(y[0] + x[1], y[0], x[1], y[1]) for x, y in zip(table, table[1:]) if x[1] != y[1]]
    return [x for x in out if jan1(lo) <= x[0] < jan1(hi)]


def run_source(J, case, rec):
    lo, hi = case["lo"], case["hi"]
    r = J.call("tzcheck.source", text_of(case["src"]), text_of(case["alt"]), lo, hi)
    a, b = real(case["src"], lo, hi), real(case["alt"], lo, hi)
    for got, x in zip(r, (a, b)):
        wx, wa = [item(i) for i in x if i not in a], [item(i) for i in a if i not in x]
        for text, first, second in ((got[0], wx, wa), (got[1], wa, wx)):
            s = said(text, True, False)
            expect(s["missing"] is None, "the zone is in both", got=text)
            expect(s["only1"].get("Test/Zone_1", []) == first and s["only2"].get("Test/Zone_1", []) == second, "differences from the source", said=text, first=first, second=second)
        rec.nt(wx or wa)
    rec.nt(len(a) > 1)
    rec.label("source differs" if a != b else "same changes")


TESTS = [
    Test("compare", compare_cases(), run_compare, quick=700, thorough=20000, shards=3),
    Test("dump", dump_cases(), run_dump, quick=700, thorough=20000, shards=2),
    Test("source", source_cases(), run_source, quick=400, thorough=12000, shards=3),
]

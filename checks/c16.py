"""C16: VTIMEZONE offsets, names and transition lists against an independent reading of the observances."""
import bisect
import datetime as D

from hypothesis import assume, strategies as st

from harness import gen_rrule as G, rrule_model as M
from harness.core import Test, expect

ID = "C16"
MODNAME = "checks.c16"
RULE = ("a case is a VTIMEZONE of 1-6 observances (rule with or without UNTIL/COUNT, dates, single onset; in any file order) and a history of 1-12 queries on one object (offset of a local or UTC time, name, list of transitions, duplicate; in a third of the cases observances are added and removed in between). "
        "Non-trivial: at least two observances, two queries, and a query within two days of an onset.")
ASSUMPTIONS = ["onsets at least 40 hours apart, each observance's DTSTART matching its rule", "before the first onset the offset is zero and the name empty (the library's convention; the RFC leaves it open)", "1900-2050"]
fmt = lambda x: G.fmt(x, False)
fmtz = lambda x: G.fmt(x, False, True)


def off_text(o):
    s = "-" if o < 0 else "+"
    o = abs(o)
    t = "%s%02d%02d" % (s, o // 3600, o // 60 % 60)
    return t + ("%02d" % (o % 60) if o % 60 else "")


def lines(obs):
    out = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN", "BEGIN:VTIMEZONE", "TZID:Test/Zone"]
    for o in obs:
        out += ["BEGIN:" + o["kind"], "DTSTART:" + o["start"], "TZOFFSETFROM:" + off_text(o["from"]), "TZOFFSETTO:" + off_text(o["to"])]
        if o["name"]:
            out.append("TZNAME:" + o["name"])
        if o["rule"]:
            out.append("RRULE:" + M.text(o["rule"]))
        if o["rdates"]:
            if o["join"]:
                out.append("RDATE:" + ",".join(o["rdates"]))
            else:
                out += ["RDATE:" + x for x in o["rdates"]]
        out.append("END:" + o["kind"])
    return "\r\n".join(out + ["END:VTIMEZONE", "END:VCALENDAR", ""])


def onsets(obs, limit):
    res = []
    for o in obs:
        s = G.parse_dt(o["start"])
        xs = {s}
        if o["rule"]:
            r = dict(o["rule"])
            if r.get("until_text"):
                r["until"] = G.parse_dt(r["until_text"]) + D.timedelta(seconds=o["from"])
            xs.update(M.Rule(r, s).instances(limit_dt=limit))
        xs.update(G.parse_dt(x) for x in o["rdates"])
        for x in xs:
            res.append((x, x - D.timedelta(seconds=o["from"]), o["from"], o["to"], o["name"]))
    return sorted(res)


def desc(e):
    return "(%s)" % e[4] if e[4] else "%s%02d%02d" % ("-" if e[3] < 0 else "+", abs(e[3]) // 3600, abs(e[3]) // 60 % 60)


def run(J, case, rec):
    # the observances of the zone asked, and of that of the calendar (the same until the first is a copy)
    cur = mine = [i for i in range(len(case["obs"])) if i not in case["late"]]
    text = lines([case["obs"][i] for i in cur])
    got = J.call("tz.queries", text, [[op[0], lines([case["obs"][op[1]]])] if op[0] in ("add", "drop") else op for op in case["ops"]], case["cache"])
    near, memo = False, {}
    for n, (op, g) in enumerate(zip(case["ops"], got)):
        k = op[0]
        if k == "add":
            cur.append(op[1])
        elif k == "drop":
            cur.remove(op[1])
        elif k == "dup":
            cur = cur[:]
        which = tuple(mine if k == "cal" else cur)
        if which not in memo:
            memo[which] = onsets([case["obs"][i] for i in which], D.datetime(2055, 1, 1))
        on = memo[which]
        loc, utc = [e[0] for e in on], [e[1] for e in on]
        if k in ("offset", "cal", "name"):
            x = G.parse_dt(op[1])
            rel = k != "name" and op[2]
            keys = utc if rel else loc
            i = bisect.bisect_right(keys, x)
            w = on[i - 1][3] if i else 0
            j = bisect.bisect_right(loc, x)
            near = near or any(abs(x - y) <= D.timedelta(days=2) for y in keys[max(0, i - 1):i + 1])
            nm = desc(on[j - 1]) if j else ""
            if k == "offset":
                expect(g == w, "offset differs", op=op, got=g, want=w, history=case["ops"][:n], text=text)
            elif k == "name":
                expect(g == nm, "name differs", op=op, got=g, want=nm, history=case["ops"][:n], text=text)
            else:
                expect(g == [w, nm], "calendar's answer differs", op=op, got=g, want=[w, nm], history=case["ops"][:n], text=text)
        elif k == "list":
            b = G.parse_dt(op[2])
            a = G.parse_dt(op[1]) if op[1] else None
            w = [[fmt(e[0]), fmtz(e[1]), e[2], e[3]] + ([e[4]] if op[3] else []) for e in on if e[0] < b and (a is None or e[0] >= a)]
            expect(g == w, "transitions differ", op=op, missing=[x for x in w if x not in g][:3], extra=[x for x in g if x not in w][:3], order=sorted(g) == sorted(w), history=case["ops"][:n], text=text)
    rec.nt(near and len(case["obs"]) > 1 and len(case["ops"]) > 1)
    rec.label(*set([o[0] for o in case["ops"]] + ["rule" if o["rule"] else "dates" if o["rdates"] else "single" for o in case["obs"]] + ["until" for o in case["obs"] if o["rule"] and o["rule"].get("until_text")]
                   + ["%d observances" % len(case["obs"])] + ["seconds" for o in case["obs"] if not o["start"].endswith("00")]))


@st.composite
def rule_onset(draw, year, month):
    """a yearly rule and its first onset in `year`"""
    tod = D.timedelta(seconds=draw(st.sampled_from([0, 3600, 7200, 7200, 10800, 9000, 82800, 86340, 12 * 3600 + 238, 86399, 1801])))
    r = {"freq": "YEARLY", "interval": 1, "bymonth": [month]}
    form = draw(st.integers(0, 2))
    if month in (1, 12) and draw(st.booleans()):
        # at the turn of the year, where local and UTC years differ
        r["bymonthday"] = [1 if month == 1 else 31]
    elif form == 0:
        r["byday"] = [[draw(st.sampled_from([-1, 1, 2, 3, -2])), draw(st.integers(0, 6))]]
    elif form == 1:
        d = draw(st.integers(1, 22))
        r["bymonthday"] = list(range(d, d + 7))
        r["byday"] = [[0, draw(st.integers(0, 6))]]
    else:
        r["bymonthday"] = [draw(st.integers(1, 28))]
    i = M.Rule(r, D.datetime(year, month, 1) + tod).instances(limit_n=1)
    return r, i[0]


OFFS = [0, 3600, -18000, 19800, 36000, -12600, 45900, -36000, 50400, -43200, -17762, 1172, -900, 2677]
SAVE = [3600, 3600, 3600, 1800, 7200, -3600, 1200]


@st.composite
def zones(draw):
    obs = []
    off = draw(st.sampled_from(OFFS))
    year = draw(st.integers(1902, 2016))
    neras = draw(st.sampled_from([1, 1, 2, 2, 3]))
    if draw(st.booleans()):
        # a first fixed era
        std0 = off
        off = draw(st.sampled_from(OFFS))
        s = D.datetime(year - draw(st.integers(1, 20)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)), draw(st.sampled_from([0, 30, 59])), draw(st.sampled_from([0, 0, 30, 58, 29])))
        obs.append({"kind": "STANDARD", "start": fmt(s), "from": std0, "to": off, "name": "LMT", "rule": None, "rdates": [], "join": False})
    names = draw(st.sampled_from([("ST", "DT"), ("-03", "-02"), ("", ""), ("A B", "C")]))
    for n in range(neras):
        last = n == neras - 1
        span = draw(st.integers(1, 12))
        std, dst = off, off + draw(st.sampled_from(SAVE))
        form = draw(st.sampled_from(["rules", "rules", "rules", "dates", "single"]))
        m1 = draw(st.sampled_from([1, 1, 1] + list(range(1, 12))))
        m2 = draw(st.sampled_from(list(range(m1 + 1, 13)) + [12]))
        if form == "single":
            new = draw(st.sampled_from(OFFS))
            s = D.datetime(year, m1, draw(st.integers(1, 28)), draw(st.integers(0, 23)))
            if draw(st.integers(0, 3)) == 0:
                s = D.datetime(year, 1, 1) + D.timedelta(seconds=draw(st.sampled_from([0, 1, 1800, 3600, -1, -3600])))
            obs.append({"kind": draw(st.sampled_from(["STANDARD", "DAYLIGHT"])), "start": fmt(s), "from": off, "to": new, "name": names[0], "rule": None, "rdates": [], "join": False})
            off = new
        else:
            for month, a, b, kind, nm in ((m1, std, dst, "DAYLIGHT", names[1]), (m2, dst, std, "STANDARD", names[0])):
                if form == "rules":
                    r, s = draw(rule_onset(year, month))
                    if not last or draw(st.integers(0, 3)) == 0:
                        i = M.Rule(r, s).instances(limit_n=span)
                        if draw(st.integers(0, 4)) == 0:
                            r["count"] = span
                        else:
                            r["until_text"] = fmtz(i[-1] - D.timedelta(seconds=a))
                    elif draw(st.integers(0, 5)) == 0:
                        r["interval"] = 2
                    rd = []
                else:
                    xs = [draw(rule_onset(y, month))[1] for y in range(year, year + span)]
                    r, s, rd = None, xs[0], [fmt(x) for x in xs[draw(st.integers(0, 1)):]]
                obs.append({"kind": kind, "start": fmt(s), "from": a, "to": b, "name": nm, "rule": r, "rdates": rd, "join": draw(st.booleans())})
            off = std
        year += span
        if year > 2025:
            break
    obs = draw(st.permutations(obs))
    return list(obs)


@st.composite
def cases(draw):
    obs = draw(zones())
    on = onsets(obs, D.datetime(2046, 1, 1))
    assume(all(b[0] - a[0] > D.timedelta(hours=40) for a, b in zip(on, on[1:])))
    ops = []
    delta = st.sampled_from([0, 0, -1, 1, 30, 59, -30, 60, -60, 3600, -3600, 1800, 7200, -7200, 86400, -86400, 86400 * 45, -86400 * 45])

    lim = D.datetime(2045, 1, 1)
    lo, hi = on[0][0] - D.timedelta(days=800), min(on[-1][0] + D.timedelta(days=800), lim)

    def when(col=None):
        if draw(st.integers(0, 5)) == 0:
            return lo + D.timedelta(seconds=draw(st.integers(0, int((hi - lo).total_seconds()))))
        c = draw(st.integers(0, 1)) if col is None else col
        pool = on if draw(st.booleans()) else on[-6:] if draw(st.booleans()) else on[:6]
        return min(draw(st.sampled_from(pool))[c], lim) + D.timedelta(seconds=draw(delta))
    edited = draw(st.sampled_from([False, False, True]))
    cur = list(range(len(obs)))
    late = sorted(draw(st.sets(st.sampled_from(cur), max_size=len(obs) - 1))) if edited and len(obs) > 1 else []
    first = late[:]
    cur = [i for i in cur if i not in late]
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(["offset"] * 5 + ["name"] * 3 + ["list"] * 2 + ["cal", "dup", "key", "text"] + ["edit"] * (3 if edited else 0)))
        if k in ("offset", "cal"):
            rel = draw(st.booleans()) if k == "offset" else False
            x = when(1 if rel else 0)
            ops.append([k, fmtz(x) if rel and draw(st.booleans()) else fmt(x), rel])
            if draw(st.integers(0, 2)) == 0:
                # a neighbour, in the same minute, hour or day
                y = x + D.timedelta(seconds=draw(st.sampled_from([-1, 1, -30, 29, -59, 60, 3600])))
                ops.append([k, fmt(y), draw(st.booleans()) if k == "offset" else False])
        elif k == "name":
            ops.append([k, fmt(when(0))])
        elif k == "list":
            b = when(0) + D.timedelta(days=draw(st.integers(0, 400)))
            a = None if draw(st.integers(0, 2)) == 0 else b - D.timedelta(days=draw(st.sampled_from([1, 100, 366, 1500, 8000])))
            ops.append([k, fmt(a) if a else None, fmt(b), draw(st.booleans())])
        elif k == "edit":
            # of the observances, some come later, and may go
            if late and (len(cur) < 2 or draw(st.booleans())):
                ops.append(["add", draw(st.sampled_from(late))])
                late.remove(ops[-1][1])
                cur.append(ops[-1][1])
            elif len(cur) > 1:
                ops.append(["drop", draw(st.sampled_from(cur))])
                cur.remove(ops[-1][1])
                late.append(ops[-1][1])
        else:
            ops.append([k])
    return {"obs": obs, "ops": ops, "late": first, "cache": draw(st.sampled_from([None, None, 1, 2]))}


TESTS = [Test("queries", cases(), run, quick=2500, thorough=60000, shards=6)]

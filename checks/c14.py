"""C14: the instances of a calendar's events in a range, against an independent expansion."""
import datetime as D

from hypothesis import assume, strategies as st

from harness import gen_rrule as G, rrule_model as M, tzdefs as Z
from harness.core import Test, expect

ID = "C14"
MODNAME = "checks.c14"
RULE = ("a case is a calendar of 1-3 events (rules, RDATEs, RDATE periods, EXDATEs, EXRULEs, overrides with and without RANGE; date-only, floating, UTC and zoned) and 1-3 ranges; the list of (event, start, end) is compared with a "
        "model. Non-trivial: at least two instances in a range and at least one of RDATE, EXDATE, EXRULE, override, zone.")
ASSUMPTIONS = ["a recurring event's own instances are selected by their (recurrence-id) start, single events, overrides and RDATE periods by overlap", "zoned events: daily or rarer, at times that exist once, shorter than two hours",
               "floating times are read as UTC when compared with a UTC range", "2012-2030"]
EPOCH = D.datetime(1970, 1, 1)
posix = lambda x: int((x - EPOCH).total_seconds())


class Kind(object):
    """date / float / utc / a TZID"""
    def __init__(self, k):
        self.k = k
        self.date = k == "date"
        self.zone = k if k in Z.ZONES else None

    def prop(self, name, values, utcform=False):
        if self.date:
            return "%s;VALUE=DATE:%s" % (name, ",".join(G.fmt(v, True) for v in values))
        if self.zone and not utcform:
            return "%s;TZID=%s:%s" % (name, self.zone, ",".join(G.fmt(v, False) for v in values))
        if self.zone:
            return "%s:%s" % (name, ",".join(G.fmt(Z.to_utc(v, self.zone), False, True) for v in values))
        return "%s:%s" % (name, ",".join(G.fmt(v, False, self.k == "utc") for v in values))

    def abs(self, v):
        return Z.to_utc(v, self.zone) if self.zone else v


def P(t):
    return G.parse_dt(t)


def event_lines(e, i):
    k = Kind(e["kind"])
    out = []

    def one(start, dur, form, extra, summary):
        l = ["BEGIN:VEVENT", "UID:u%d" % i, "DTSTAMP:20200101T000000Z", k.prop("DTSTART", [start]), "SUMMARY:" + summary]
        if form == "end":
            l.append(k.prop("DTEND", [start + D.timedelta(seconds=dur)]))
        elif form == "duration":
            l.append("DURATION:" + ("P%dD" % (dur // 86400) if k.date else "PT%dS" % dur))
        return l + extra + ["END:VEVENT"]

    extra = []
    for r in e["rules"]:
        extra.append("RRULE:" + M.text(rule_for(r, k)))
    for r in e["exrules"]:
        extra.append("EXRULE:" + M.text(rule_for(r, k)))
    for name, key in (("RDATE", "rdates"), ("EXDATE", "exdates")):
        vals = [P(x) for x in e[key]]
        if not vals:
            continue
        if e["join"]:
            extra.append(k.prop(name, vals, e["utcform"] and name == "EXDATE"))
        else:
            extra += [k.prop(name, [v], e["utcform"] and name == "EXDATE" and n % 2 == 0) for n, v in enumerate(vals)]
    for s, d, form in e["rperiods"]:
        s = P(s)
        v = lambda x: G.fmt(x, False, k.k == "utc")
        extra.append("RDATE;VALUE=PERIOD%s:%s/%s" % (";TZID=" + k.zone if k.zone else "", v(s), v(s + D.timedelta(seconds=d)) if form else "PT%dS" % d))
    out += one(P(e["start"]), e["dur"], e["form"], extra, "M%d" % i)
    ov = []
    for n, o in enumerate(e["overrides"]):
        p = k.prop("RECURRENCE-ID", [P(o["rid"])], o["utcform"])
        if o["range"]:
            p = p.replace("RECURRENCE-ID", "RECURRENCE-ID;RANGE=" + o["range"], 1)
        ov.append(one(P(o["start"]), o["dur"], o["form"], [p], "O%d.%d" % (i, n)))
    blocks = [out] + ov
    if e["ovfirst"]:
        blocks.reverse()
    return [l for b in blocks for l in b]


def rule_for(r, k):
    if k.zone and r.get("until_text"):
        return dict(r, until_text=G.fmt(Z.to_utc(P(r["until_text"]), k.zone), False, True))
    return r


def calendar_text(case):
    l = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//check//EN"]
    for z in sorted(set(e["kind"] for e in case["events"] if e["kind"] in Z.ZONES)):
        l += Z.ZONES[z]
    for i, e in enumerate(case["events"]):
        l += event_lines(e, i)
    return "\r\n".join(l + ["END:VCALENDAR", ""])


def model(case, rng):
    a, b = map(P, rng)
    out = []
    for i, e in enumerate(case["events"]):
        k = Kind(e["kind"])
        ab = k.abs
        start = P(e["start"])
        dur = D.timedelta(seconds=e["dur"])
        if e["form"] == "none":
            dur = D.timedelta(days=1 if k.date else 0)
        recurring = bool(e["rules"] or e["exrules"] or e["rdates"] or e["exdates"] or e["rperiods"])
        def odur(o):
            return D.timedelta(seconds=o["dur"]) if o["form"] != "none" else D.timedelta(days=1 if k.date else 0)
        if not recurring:
            if ab(start) < b and ab(start) + dur > a:
                out.append(["M%d" % i, start, ab(start), dur, False, k])
        else:
            lim = b + D.timedelta(days=2)
            def inst(r):
                r = dict(r)
                if r.get("until_text"):
                    r["until"] = P(r["until_text"])
                return M.Rule(r, start).instances(limit_dt=lim)
            inc = {start: dur}
            for r in e["rules"]:
                for x in inst(r):
                    inc.setdefault(x, dur)
            for x in e["rdates"]:
                inc.setdefault(P(x), dur)
            periods = {}
            for s, d, _ in e["rperiods"]:
                if ab(P(s)) < b and ab(P(s)) + D.timedelta(seconds=d) > a:
                    periods[P(s)] = 1
                    inc[P(s)] = D.timedelta(seconds=d)
                elif P(s) in inc:
                    inc[P(s)] = D.timedelta(seconds=d)
            exc = set(P(x) for x in e["exdates"])
            for r in e["exrules"]:
                exc.update(inst(r))
            rids = set(P(o["rid"]) for o in e["overrides"])
            prior = sorted((P(o["rid"]), n) for n, o in enumerate(e["overrides"]) if o["range"] == "THISANDPRIOR")
            future = sorted((P(o["rid"]), n) for n, o in enumerate(e["overrides"]) if o["range"] == "THISANDFUTURE")
            for x, d in inc.items():
                if not (a <= ab(x) < b or x in periods) or x in exc or x in rids:
                    continue
                slave = None
                for r, n in prior:
                    if r > x:
                        slave = n
                        break
                for r, n in reversed(future):
                    if r < x:
                        slave = n
                        break
                if slave is None:
                    out.append(["M%d" % i, x, ab(x), d, True, k])
                else:
                    o = e["overrides"][slave]
                    y = x + (P(o["start"]) - P(o["rid"]))
                    out.append(["O%d.%d" % (i, slave), y, ab(y), odur(o), True, k])
        for n, o in enumerate(e["overrides"]):
            s = P(o["start"])
            if ab(s) < b and ab(s) + odur(o) > a:
                out.append(["O%d.%d" % (i, n), s, ab(s), odur(o), True, k])
    return sorted([[n, posix(u), posix(u + d), G.fmt(w, k.date, k.k == "utc"), rec] for n, w, u, d, rec, k in out])


def run_events(J, case, rec):
    text = calendar_text(case)
    got = J.call("cal.events", text, case["ranges"], case["top"])
    nt = False
    for rng, g in zip(case["ranges"], got):
        w = model(case, rng)
        gs = sorted([x[0], x[1][0], x[2][0], x[1][2], x[3]] for x in g)
        expect(gs == w, "instances differ", range=rng, missing=[x for x in w if x not in gs][:4], extra=[x for x in gs if x not in w][:4], got=len(gs), want=len(w), text=text[text.index("BEGIN:VEVENT"):])
        keys = [(0 if x[1][1] else 1, x[1][0]) if case["top"] else x[1][0] for x in g]
        kinds = set(e["kind"] for e in case["events"])
        # floating and zoned times compare by their local fields: no order to expect there
        if (case["top"] or "date" not in kinds) and not (kinds & {"float", "date"} and kinds & set(Z.ZONES)):
            expect(keys == sorted(keys), "events not in start order", range=rng, got=[x[:2] for x in g][:20])
        nt = nt or len(w) >= 2
    used = set()
    for e in case["events"]:
        for k in ("rules", "rdates", "exdates", "exrules", "rperiods", "overrides"):
            if e[k]:
                used.add(k)
        if e["kind"] in Z.ZONES:
            used.add("zone")
        for o in e["overrides"]:
            if o["range"]:
                used.add("RANGE")
        used.add(e["kind"] if e["kind"] not in Z.ZONES else "zone")
        used.add("length by " + e["form"])
    rec.label(*sorted(used))
    rec.nt(nt and used & {"rdates", "exdates", "exrules", "rperiods", "overrides", "zone"})


@st.composite
def event(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    k = Kind(kind)
    freqs = ["YEARLY", "MONTHLY", "MONTHLY", "WEEKLY", "WEEKLY", "WEEKLY", "DAILY", "DAILY"]
    seed = D.datetime(draw(st.integers(2014, 2022)), draw(st.integers(1, 12)), draw(st.integers(1, 28)))
    if not k.date:
        seed += D.timedelta(hours=draw(st.integers(4, 20)), minutes=draw(st.sampled_from([0, 30])))
    rules, inst = [], []
    start = seed
    for n in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2]))):
        r = draw(G.rules(dateonly=k.date, freqs=freqs, subday=False))
        if G.ambiguous(r):
            continue
        if n == 0:
            m = G.first_match(r, seed)
            if m is None:
                continue
            start = m
            i = M.Rule(r, start).instances(limit_dt=start + D.timedelta(days=2000), limit_n=25, max_periods=G.PERIODS[r["freq"]])
            if not i or i[0] != start:
                start = seed
                continue
        else:
            # only rules that the start matches have one meaning
            m = G.first_match(r, start)
            if m != start or not rules:
                continue
            i = M.Rule(r, start).instances(limit_dt=start + D.timedelta(days=2000), limit_n=25, max_periods=G.PERIODS[r["freq"]])
        e = draw(st.sampled_from(["none", "count", "until"]))
        if e == "count":
            r["count"] = draw(st.integers(1, 20))
        elif e == "until":
            r["until_text"] = G.fmt(draw(st.sampled_from(i)), k.date, kind == "utc")
        rules.append(r)
        inst = sorted(set(inst + i))
    inst = inst or [start]
    hourly = [D.timedelta(0)] if k.date else [D.timedelta(0), D.timedelta(hours=1), D.timedelta(hours=-2), D.timedelta(minutes=30)]

    def near():
        return draw(st.sampled_from(inst)) + D.timedelta(days=draw(st.integers(-3, 10))) + draw(st.sampled_from(hourly))

    durs = st.sampled_from([86400, 172800, 604800]) if k.date else st.sampled_from([900, 1800, 3600, 5400]) if k.zone else st.sampled_from([900, 3600, 7200, 86400, 90000, 200000])
    forms = st.sampled_from(["end", "end", "duration", "duration", "none"])
    form = draw(forms)
    e = {"kind": kind, "start": G.fmt(start, k.date, kind == "utc"), "dur": draw(durs), "form": form, "rules": rules, "exrules": [], "rdates": [], "exdates": [], "rperiods": [], "overrides": [],
         "join": draw(st.booleans()), "utcform": draw(st.booleans()), "ovfirst": draw(st.integers(0, 3)) == 0}
    if not rules and form == "none" and not k.date:
        e["form"] = "duration"      # a single event of no length is not in any range by overlap
    f = lambda x: G.fmt(x, k.date, kind == "utc")
    # the years are those over which the zone definitions hold
    if draw(st.integers(0, 9)) < 7:
        e["rdates"] = sorted(set(f(near()) for _ in range(draw(st.integers(0, 3)))))
        if not k.date and draw(st.integers(0, 2)) == 0:
            ps = {}
            for _ in range(draw(st.integers(1, 2))):
                ps[f(near() + D.timedelta(minutes=7))] = [draw(st.sampled_from([600, 3600, 5000])), draw(st.booleans())]
            e["rperiods"] = [[s] + v for s, v in sorted(ps.items())]
    recurring = rules or e["rdates"] or e["rperiods"]
    allx = inst + [P(x) for x in e["rdates"]]
    if recurring and draw(st.integers(0, 9)) < 6:
        e["exdates"] = sorted(set(f(draw(st.sampled_from(allx)) if draw(st.integers(0, 4)) else near()) for _ in range(draw(st.integers(1, 4)))))
    if rules and draw(st.integers(0, 9)) < 2:
        r = draw(G.rules(dateonly=k.date, freqs=["WEEKLY", "MONTHLY"], subday=False))
        r["interval"] = draw(st.sampled_from([2, 3]))
        if G.first_match(r, start) == start:
            e["exrules"] = [r]
    if recurring and draw(st.integers(0, 9)) < 6:
        rids = sorted(set(draw(st.sampled_from(allx)) for _ in range(draw(st.integers(1, 3)))))
        ranged = draw(st.integers(0, 2)) == 0
        for x in rids:
            s = x + D.timedelta(days=draw(st.sampled_from([0, 0, 0, 1, -2, 30])) if not ranged else 0) + draw(st.sampled_from(hourly))
            if ranged and k.date:
                s = x + D.timedelta(days=draw(st.integers(-1, 2)))
            of = draw(forms)
            if of == "none" and not k.date:
                of = "end"
            e["overrides"].append({"rid": f(x), "start": f(s), "dur": draw(durs), "form": of, "utcform": bool(k.zone) and draw(st.booleans()),
                                   "range": draw(st.sampled_from(["THISANDFUTURE", "THISANDFUTURE", "THISANDPRIOR", None])) if ranged else None})
    return e, inst


@st.composite
def cases(draw, kinds, n=3):
    evs, pts = [], []
    for _ in range(draw(st.integers(1, n))):
        e, inst = draw(event(kinds))
        evs.append(e)
        pts += inst
    ranges = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(st.sampled_from(pts)) + D.timedelta(days=draw(st.integers(-5, 5)))
        b = a + D.timedelta(days=draw(st.sampled_from([1, 7, 35, 200, 800])))
        if any(e["kind"] == "date" for e in evs):
            a, b = [D.datetime(x.year, x.month, x.day) for x in (a, b)]
        elif draw(st.booleans()):
            a, b = draw(st.sampled_from(pts)) + D.timedelta(hours=draw(st.sampled_from([0, 0, 1, -5]))), b
            if a >= b:
                b = a + D.timedelta(days=30)
        if all(e["kind"] == "date" for e in evs):
            ranges.append([G.fmt(a, True), G.fmt(b, True)])
        else:
            ranges.append([G.fmt(a, False, True), G.fmt(b, False, True)])
    return {"events": evs, "ranges": ranges, "top": draw(st.booleans())}


TESTS = [
    Test("plain", cases(["float", "utc", "date"]), run_events, quick=1200, thorough=30000, shards=3),
    Test("zoned", cases(sorted(Z.ZONES), 1), run_events, quick=500, thorough=12000, shards=2),
    Test("mixed", cases(["date", "utc", "float"] + sorted(Z.ZONES)), run_events, quick=500, thorough=12000, shards=2),
]

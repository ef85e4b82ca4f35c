"""Durations, periods and UTC offsets."""
from cStringIO import StringIO
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.durationvalue import DurationValue
from pycalendar.periodvalue import PeriodValue
from pycalendar.utcoffsetvalue import UTCOffsetValue
from cal import u8, dt


def _cmp(a, b):
    return [bool(a == b), bool(a != b), bool(a < b), bool(a > b), bool(a <= b), bool(a >= b), bool(hash(a) == hash(b))]


def durations(texts):
    ds = [Duration.parseText(u8(t)) for t in texts]
    out = []
    for d in ds:
        d2 = Duration(d.getTotalSeconds())
        v = DurationValue()
        v.parse(u8(texts[0]), "ical")        # a value object may be parsed into again
        v.parse(d.getText(), "ical")
        j = []
        d.writeJSON(j)
        d3 = Duration()
        d3.parseJSON(j[0])
        out.append({"secs": d.getTotalSeconds(), "fwd": bool(d.getForward()), "parts": [d.getWeeks(), d.getDays(), d.getHours(), d.getMinutes(), d.getSeconds()], "text": d.getText(),
                    "canon": d2.getText(), "canonsecs": d2.getTotalSeconds(), "reread": Duration.parseText(d.getText()).getTotalSeconds(), "canonread": Duration.parseText(d2.getText()).getTotalSeconds(),
                    "eq": _cmp(d, d2), "dup": [d.duplicate().getTotalSeconds(), d.duplicate().getText()], "value": [v.getValue().getTotalSeconds(), v.getText()], "json": [j, d3.getTotalSeconds()]})
    return out, [[_cmp(a, b) for b in ds] for a in ds]


def build(kw):
    d = Duration(**dict((str(k), v) for k, v in kw.items()))
    return [d.getTotalSeconds(), d.getText()]


def mkperiod(p):
    s = dt(p["start"])
    if p["how"] == "text":
        return Period.parseText(u8(p["start"] + "/" + p["end"]))
    if p["how"] == "value":
        v = PeriodValue()
        v.parse("20000101T000000Z/PT1H", "ical")
        v.parse(u8(p["start"] + "/" + p["end"]), "ical")
        return v.getValue()
    if p["end"][0] in "P+-":
        return Period(s, duration=Duration.parseText(u8(p["end"])))
    return Period(s, dt(p["end"]))


def state(p):
    j = []
    p.writeJSON(j)
    q = Period()
    q.parseJSON(j[0])
    r = Period.parseText(p.getText())
    return {"start": p.getStart().getText(), "end": p.getEnd().getText(), "dur": p.getDuration().getTotalSeconds(), "text": p.getText(), "use": bool(p.getUseDuration()),
            "eq": [bool(p == r), bool(p == q), hash(p) == hash(r), hash(p) == hash(q), not (p != r)], "reread": r.getText(), "json": q.getText()}


def periods(ps, ops, points):
    objs = [mkperiod(p) for p in ps]
    # hashes of values that nothing was asked of yet
    fresh = [hash(mkperiod(p)) for p in ps]
    out = []
    for i, op in ops:
        p = objs[i]
        if op == "dup":
            objs[i] = p.duplicate()
            # the copy is its own: changing the first leaves it alone
            p.getStart().offsetDay(5)
            p.getEnd().offsetDay(7)
        elif op == "use":
            p.setUseDuration(True)
        elif op == "nouse":
            p.setUseDuration(False)
        elif op == "end":
            p.getEnd()
        elif op == "duration":
            p.getDuration()
        elif op == "utc":
            p.adjustToUTC()
        elif op == "float":
            # all become floating, at the same local times
            for x in objs:
                x.setTimezoneID(None)
        elif op == "hash":
            hash(p)
        out.append(state(objs[i]) if op == "state" else None)
    final = [state(p) for p in objs]
    pts = [dt(x) for x in points]
    rel = [[[bool(p.isDateWithinPeriod(x)), bool(p.isDateBeforePeriod(x)), bool(p.isDateAfterPeriod(x))] for x in pts] for p in objs]
    pair = [[_cmp(a, b) + [bool(a.isPeriodOverlap(b)), fresh[i] == fresh[j] == hash(b)] for j, b in enumerate(objs)] for i, a in enumerate(objs)]
    order = [objs.index(x) for x in sorted(objs)]
    return {"ops": out, "final": final, "rel": rel, "pair": pair, "sorted": [state(x)["text"] for x in sorted(objs)]}


def offsets(items):
    out = []
    for value, texts, full in items:
        v = UTCOffsetValue(value)
        o = StringIO()
        v.generate(o)
        f = StringIO()
        v.generate(f, fullISO=True)
        j = []
        v.writeJSONValue(j)
        r = UTCOffsetValue()
        r.parse(o.getvalue(), "ical")
        q = UTCOffsetValue()
        q.parse(f.getvalue(), "vcard")
        k = UTCOffsetValue()
        k.parseJSONValue(j[0])
        d = v.duplicate()
        alts = []
        for t in texts:
            a = UTCOffsetValue()
            a.parse(u8(t), "vcard" if full else "ical")
            alts.append([a.getValue(), bool(a == v), bool(a != v), hash(a) == hash(v)])
        out.append({"text": o.getvalue(), "full": f.getvalue(), "back": [r.getValue(), q.getValue(), k.getValue(), d.getValue()], "json": j, "eq": [bool(v == r), bool(v != r), hash(v) == hash(d)], "alts": alts})
    return out

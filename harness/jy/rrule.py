"""Recurrence-rule operations run against the library."""
from pycalendar.datetime import DateTime
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.exceptions import TooManyInstancesError
from pycalendar.period import Period


def dt(text):
    return DateTime.parseText(text)


def rule(text):
    r = Recurrence()
    r.parse(text)
    return r


def expand(text, start, ranges, limit=None, float_offset=0):
    """expand(rule, start, range) on one rule object for each range in turn"""
    r = rule(text)
    s = dt(start)
    out = []
    for a, b in ranges:
        items = []
        try:
            complete = r.expand(s, Period(dt(a), dt(b)), items, float_offset=float_offset, maxInstances=limit)
            out.append([[i.getText() for i in items], bool(complete)])
        except TooManyInstancesError:
            out.append("too many")
    return out


def fields(r):
    """the rule as plain values, taken from its written text"""
    return r.getText()


def roundtrip(text):
    r = rule(text)
    t1 = r.getText()
    t2 = rule(t1).getText()
    j = []
    r.writeJSON(j)
    import json
    j = json.loads(json.dumps(j))
    r2 = Recurrence()
    r2.parseJSON(j[0])
    d = r.duplicate()
    return {"text": t1, "again": t2, "json": j[0], "from_json": r2.getText(), "json_eq": bool(r2 == r), "dup": d.getText(), "dup_eq": bool(d == r),
            "hash": hash(r) == hash(rule(t1)) == hash(d) == hash(r2), "ui": r.getUIDescription(), "has_by": r.hasBy(), "simple": r.isSimpleRule()}


def from_json(j):
    r = Recurrence()
    r.parseJSON(j)
    return r.getText()


def compare(a, b):
    x, y = rule(a), rule(b)
    return [bool(x == y), bool(y == x), bool(x != y), bool(y != x), hash(x) == hash(y), len(set([x, y]))]


def rejects(text):
    try:
        rule(text)
        return False
    except ValueError:
        return True


FREQS = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]


def apply_setters(r, steps):
    from pycalendar.icalendar import definitions
    for name, v in steps:
        if name == "freq":
            r.setFreq(getattr(definitions, "eRecurrence_" + v))
        elif name == "until":
            r.setUntil(dt(v) if v else None)
        elif name == "byday":
            r.setByDay([tuple(x) for x in v])
        else:
            {"useuntil": r.setUseUntil, "usecount": r.setUseCount, "count": r.setCount, "interval": r.setInterval, "bymonth": r.setByMonth,
             "bymonthday": r.setByMonthDay, "byyearday": r.setByYearDay, "bysetpos": r.setBySetPos}[name](v)


def history(text, ops):
    """a sequence of calls on one rule object; every expansion is repeated on a rule made afresh from the current text"""
    r = rule(text)
    others = []
    out = []
    last = None
    laststart = None
    for op in ops:
        n = op[0]
        if n == "expand":
            _, start, a, b, limit = op
            s, p = dt(start), Period(dt(a), dt(b))
            items, fresh = [], []
            try:
                r.expand(s, p, items, maxInstances=limit)
                got = [i.getText() for i in items]
            except TooManyInstancesError:
                got = "too many"
                items = []
            f = rule(r.getText())
            try:
                f.expand(dt(start), Period(dt(a), dt(b)), fresh, maxInstances=limit)
                want = [i.getText() for i in fresh]
            except TooManyInstancesError:
                want = "too many"
            out.append(["expand", got, want])
            last, laststart, lastp = items, s, p
        elif n == "mutate_items":
            for i in last or []:
                i.offsetDay(op[1])
        elif n == "mutate_start":
            if laststart is not None:
                laststart.offsetDay(op[1])
        elif n == "mutate_range":
            if laststart is not None:
                lastp.getStart().offsetDay(op[1])
                lastp.getEnd().offsetDay(op[1])
        elif n == "set":
            apply_setters(r, op[1])
            f = rule(r.getText())
            out.append(["text", r.getText(), bool(r == f) and bool(f == r) and not (r != f) and hash(r) == hash(f)])
        elif n == "dup":
            others.append(r)
            r = r.duplicate()
        elif n == "swap":
            if others:
                others.append(r)
                r = others.pop(0)
        elif n == "clear":
            r.clear()
    return out


def exclude_future(text, start, a, b, exclude):
    r = rule(text)
    s = dt(start)
    before = []
    r.expand(s, Period(dt(a), dt(b)), before)
    r.excludeFutureRecurrence(dt(exclude))
    after = []
    r.expand(dt(start), Period(dt(a), dt(b)), after)
    fresh = []
    rule(r.getText()).expand(dt(start), Period(dt(a), dt(b)), fresh)
    t = lambda l: [i.getText() for i in l]
    return [t(before), t(after), t(fresh), r.getText()]

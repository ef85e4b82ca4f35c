"""C27: lists for display follow the data and the clock, in order."""
import calendar as C
import datetime as D

from hypothesis import strategies as st

from checks.c23 import NY, dline, dtext, durtext, shift, when
from harness import tzdefs
from harness.core import Test, expect

ID = "C27"
MODNAME = "checks.c27"
RULE = ("`months`: month tables of 1-4 months under a set clock, against Python's calendar. `events`: 0-6 events (single or daily; all-day, UTC, floating or zoned) listed for a period in either order. `todos`: 0-6 to-dos listed for due dates, "
        "their states, texts and order under a set clock. `dates`: one date in every display form. Non-trivial: today is in or next to a table; two listed events share a day; two to-dos share a status; the date has a time.")
ASSUMPTIONS = ["today is the platform's local date; the checks run with TZ=UTC",
               "times are in one zone, or floating and UTC, wherever their order is judged across a calendar (floating times match every zone, so order is not transitive otherwise)",
               "years from 1800 to 2200", "which of several to-dos equal in all that orders them comes first is open, as it is for events",
               "a to-do without STATUS needs action; priorities are judged among to-dos that all have one", "the number of days in the text of an overdue to-do may count the day it was due"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


# ---------------------------------------------------------------- months
def run_months(J, case, rec):
    r = J.call("lists.months", case["asks"], case["now"])
    today = D.datetime.strptime(r["today"], "%Y%m%d").date()
    expect(today == D.datetime.fromtimestamp(case["now"], D.timezone.utc).date(), "today", got=r["today"])
    for (month, year, weekstart), (rows, mark) in zip(case["asks"], r["tables"]):
        weeks = C.Calendar((weekstart - 1) % 7).monthdatescalendar(year, month)
        want = [[[d.year, d.month, d.day if d.month == month else -d.day] for d in w] for w in weeks]
        expect(rows == want, "month table", month=month, year=year, weekstart=weekstart, got=rows, want=want)
        at = [[i, w.index(today)] for i, w in enumerate(weeks) if today in w] or [[-1, -1]]
        expect(mark == at[0], "today in the month table", month=month, year=year, weekstart=weekstart, today=r["today"], got=mark, want=at[0])
        if at[0] != [-1, -1]:
            rec.nt()
            rec.label("today in the month" if today.month == month else "today beside the month")
        else:
            rec.nt(abs((today - D.date(year, month, 1)).days) < 80)


def ask_for(now):
    d = D.datetime.fromtimestamp(now, D.timezone.utc).date()

    def near(delta):
        n = d.year * 12 + d.month - 1 + delta
        return [n % 12 + 1, n // 12]
    return st.tuples(st.one_of(st.integers(-2, 2).map(near), st.integers(-1, 1).map(near), st.tuples(st.integers(1, 12), st.integers(1800, 2200)).map(list)), st.integers(0, 6)).map(lambda t: t[0] + [t[1]])


NOWS = st.one_of(st.integers(1577836800, 1577836800 + 70 * 86400), st.integers(0, 4000000000),
                 st.builds(lambda y, m, d: C.timegm((y, m, d, 12, 0, 0)), st.integers(1990, 2030), st.integers(1, 12), st.sampled_from([1, 2, 27, 28])))
MONTHCASE = NOWS.flatmap(lambda n: st.fixed_dictionaries({"now": st.just(n), "asks": st.lists(ask_for(n), min_size=1, max_size=4)}))


# ---------------------------------------------------------------- events
def zone():
    return tzdefs.ZONES[NY]


def cal(lines):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//v//v//EN"] + zone() + lines + ["END:VCALENDAR", ""])


def event_lines(e):
    s = e["start"]
    out = ["BEGIN:VEVENT", "COMMENT:" + e["mark"], "UID:" + e["mark"], "DTSTAMP:" + e["stamp"] + "Z", dline("DTSTART", s), "DURATION:" + durtext(e["len"]) if e["dur"] else dline("DTEND", shift(s, secs=e["len"]))]
    if e["n"] > 1:
        out.append("RRULE:FREQ=DAILY;COUNT=%d" % e["n"])
    return out + ["END:VEVENT"]


def zform(d):
    return [dtext(d), {"Z": "Z", "N": NY}.get(d["f"], ""), d["f"] == "D"]


def run_events(J, case, rec):
    evs = case["events"]
    now = D.datetime.fromtimestamp(case["now"], D.timezone.utc).replace(tzinfo=None)
    inst = {}
    want = []
    for e in evs:
        for i in range(e["n"]):
            s = shift(e["start"], days=i)
            end = shift(s, secs=e["len"])
            k = e["mark"] + s["t"]
            if s["f"] == "D":
                live = when(s).date() <= now.date() < when(end).date()
            else:
                live = when(s) <= now < when(end)
            inst[k] = (s, end, e["stamp"])
            want.append([e["mark"], zform(s), zform(end), live, True, e["mark"]])
    top = case["top"]
    r = J.call("lists.events", cal([l for e in evs for l in event_lines(e)]), ["20191220T000000Z", "20200201T000000Z"], bool(top), case["now"], top is not None)
    if top is None:
        top = True
    got = r["items"]
    expect(sorted(got) == sorted(want), "events listed", got=sorted(got), want=sorted(want))
    copies = [g[:] for g in got]
    expect(r["copies"] == copies, "copies of what is listed", got=r["copies"], want=copies)

    def key(g):
        s, end, stamp = inst[g[0] + (g[1][0].rstrip("Z") if not g[1][2] else g[1][0] + "T000000")]
        if top:
            return (0, when(s)) if s["f"] == "D" else (1, when(s), -when(end).timestamp(), stamp)
        return (when(s).date(), 0) if s["f"] == "D" else (when(s).date(), 1, when(s))
    keys = [key(g) for g in got]
    expect(keys == sorted(keys), "order of the events listed", all_day_at_top=top, got=got)
    rec.nt(len(set(g[0] for g in got)) > 1 and len(set(g[1][0][:8] for g in got)) < len(got))
    if any(g[3] for g in got):
        rec.label("now")
    if len(set(g[1][2] for g in got)) == 2:
        rec.label("all-day and timed")
    if len(set(k[:2] for k in keys)) < len(keys):
        rec.label("same start")


T = st.builds(lambda d, h: (D.datetime(2020, 1, 1) + D.timedelta(days=d, minutes=h)).strftime("%Y%m%dT%H%M%S"), st.integers(0, 6), st.sampled_from([0, 0, 1, 540, 600, 600, 630, 1380, 1439]))


@st.composite
def events(draw):
    forms = draw(st.sampled_from(["DZF", "ZF", "D", "ZN", "ZN", "DZ", "DZF"]))
    evs = []
    for i in range(draw(st.integers(0, 6))):
        f = draw(st.sampled_from(list(forms)))
        t = draw(T)
        s = {"f": f, "t": t[:8] + "T000000" if f == "D" else t}
        if evs and draw(st.booleans()):
            o = draw(st.sampled_from(evs))["start"]
            if o["f"] != "D" and f != "D":
                s = dict(o)
        evs.append({"mark": "e%d" % i, "start": s, "len": draw(st.sampled_from([86400, 172800])) if f == "D" else draw(st.sampled_from([1800, 3600, 3600, 7200, 86400, 90000])),
                    "dur": draw(st.booleans()), "n": draw(st.sampled_from([1, 1, 1, 2, 4])), "stamp": draw(st.sampled_from(["20190101T000000", "20190102T000000", "20190101T120000"]))})
    return {"events": evs,
            "top": draw(st.sampled_from([None, True, False])), "now": 1577836800 + draw(st.integers(0, 8 * 96)) * 900}


# ---------------------------------------------------------------- to-dos
STATUS = {"NONE": 0, "NEEDS-ACTION": 1, "IN-PROCESS": 2, "COMPLETED": 3, "CANCELLED": 4}


def todo_lines(t):
    out = ["BEGIN:VTODO", "COMMENT:" + t["mark"], "UID:" + t["mark"]]
    if t["start"]:
        out.append(dline("DTSTART", t["start"]))
    if t["due"]:
        out.append(dline("DUE", t["due"]) if not t["dur"] else "DURATION:" + durtext(int((when(t["due"]) - when(t["start"])).total_seconds())))
    if t["status"] != "NONE":
        out.append("STATUS:" + t["status"])
    if t["completed"]:
        out.append("COMPLETED:" + dtext(t["completed"]))
    if t["prio"] is not None:
        out.append("PRIORITY:%d" % t["prio"])
    return out + ["END:VTODO"]


def compare(x, y):
    """as date-times compare: by date when either is one"""
    if x["f"] == "D" or y["f"] == "D":
        a, b = x["t"][:8], y["t"][:8]
    else:
        a, b = when(x), when(y)
    return (a > b) - (a < b)


def spec_of(text):
    return {"f": "D", "t": text + "T000000"} if len(text) == 8 else {"f": "Z" if text.endswith("Z") else "F", "t": text.rstrip("Z")}


def numeric(d):
    w = D.datetime.strptime(d["t"], "%Y%m%dT%H%M%S")
    return "%d/%d/%d" % (w.month, w.day, w.year)


def run_todos(J, case, rec):
    todos = case["todos"]
    r = J.call("lists.todos", cal([l for t in todos for l in todo_lines(t)]), case["now"], case["asks"])
    nowdt = D.datetime.fromtimestamp(case["now"], D.timezone.utc).replace(tzinfo=None)
    today = {"f": "D", "t": nowdt.strftime("%Y%m%dT000000")}
    expect(r["today"] == today["t"][:8], "today", got=r["today"])
    by = {t["mark"]: t for t in todos}
    expect(sorted(x[0] for x in r["state"]) == sorted(by), "to-dos in the calendar")
    for mark, state, text, status in r["state"]:
        t = by[mark]
        expect(status == STATUS[t["status"]], "status", todo=t, got=status)
        due = t["due"]
        if t["status"] == "CANCELLED":
            want, ok = 4, text == "Cancelled"
        elif t["status"] == "COMPLETED":
            want, ok = 3, text == ("Completed: " + numeric(t["completed"]) if t["completed"] else "Completed")
        elif not due:
            want, ok = 1, text == "Not Completed"
        else:
            c = compare(due, today)
            want = 2 if c > 0 else 1 if c == 0 else 0
            secs = (when({"f": "Z", "t": due["t"]}) - when(today)).total_seconds()      # the wall clocks' difference
            if c == 0:
                ok = text == "Due today"
            elif c > 0:
                d = int(secs // 86400)
                ok = text == "Due: " + numeric(due) or text == "Due: %d days" % d and d <= 7
                if d in (1, 2, 3, 4, 5, 6) and due["f"] != "N":
                    ok = text == "Due: %d days" % d
            else:
                d = int(-secs // 86400)
                ok = text in ["Overdue: %d days" % n for n in (d, d + 1)] or d % 7 == 0 and d and text == "Overdue: %d weeks" % (d // 7)
                if due["f"] == "N" and not ok:
                    ok = text.startswith("Overdue: ")
        expect(state == want, "completion state", todo=t, got=state, want=want, today=r["today"])
        expect(ok, "status text", todo=t, got=text, today=r["today"])
    for (only_due, all_dates, upto), got in zip(case["asks"], r["asks"]):
        u = spec_of(upto)
        want = []
        for t in todos:
            if only_due and (t["status"] == "CANCELLED" or t["status"] == "COMPLETED" and (not t["completed"] or when(t["completed"]) < nowdt - D.timedelta(days=1))):
                continue
            if not all_dates and compare(t["due"] or today, u) > 0:
                continue
            want.append(t["mark"])
        expect(sorted(got) == sorted(want), "to-dos listed", only_due=only_due, all_dates=all_dates, upto=upto, got=got, want=want, now=str(nowdt))
        if 0 < len(want) < len(todos):
            rec.label("some listed")
    names = r["names"]
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            x, y, c = by[a], by[b], r["cmp"][i][j]
            expect(c == -r["cmp"][j][i], "order of two to-dos depends on which is first", one=x, other=y)
            w = before(x, y, today)
            if w is not None:
                expect(c == w, "order of two to-dos", one=x, other=y, got=c, want=w, today=r["today"])
                if i < j and x["status"] == y["status"]:
                    rec.nt()
    if len(set(t["due"]["f"] == "D" for t in todos if t["due"])) < 2 and not (any(t["due"] and t["due"]["f"] == "F" for t in todos) and any(t["due"] and t["due"]["f"] == "N" for t in todos)):
        for l in r["sorted"]:
            for i, a in enumerate(l):
                for b in l[i + 1:]:
                    w = before(by[a], by[b], today)
                    expect(w is None or w <= 0, "to-dos sorted for display", got=l, one=by[a], other=by[b], today=r["today"])


def before(x, y, today):
    """-1, 0 or 1, or None where it is open"""
    s, u = [max(1, STATUS[t["status"]]) for t in (x, y)]
    if s != u:
        return -1 if s < u else 1
    if s == 4:
        return compare(y["start"], x["start"]) if x["start"] and y["start"] else None
    if s == 3:
        return compare(y["completed"], x["completed"]) if x["completed"] and y["completed"] else None
    if bool(x["due"]) != bool(y["due"]):
        if x["due"]:
            return -1 if compare(x["due"], today) <= 0 else 1
        return -1 if compare(today, y["due"]) < 0 else 1
    if x["due"]:
        c = compare(x["due"], y["due"])
        if c:
            return c
    p, q = x["prio"], y["prio"]
    if p != q:
        return None if not p or not q else -1 if p < q else 1
    if x["start"] and y["start"]:
        return compare(x["start"], y["start"])
    return None


TT = st.builds(lambda d, h: (D.datetime(2020, 1, 1) + D.timedelta(days=d, minutes=h)).strftime("%Y%m%dT%H%M%S"), st.one_of(st.integers(-3, 3), st.integers(-40, 40)), st.sampled_from([0, 0, 1, 600, 630, 1439]))


@st.composite
def todo(draw, i, timed, dates):
    def when_(forms):
        f = draw(st.sampled_from(forms))
        t = draw(TT)
        return {"f": f, "t": t[:8] + "T000000" if f == "D" else t}
    start = when_("D" if dates == "D" else timed) if draw(st.booleans()) else None
    due = dur = None
    if draw(st.integers(0, 3)):
        if start and draw(st.booleans()):
            due, dur = shift(start, secs=draw(st.sampled_from([86400, 172800, 604800] if start["f"] == "D" else [3600, 86400, 90000]))), draw(st.booleans())
        else:
            due, dur = when_("D" if dates == "D" else timed if dates == "T" else "D" + timed), False
    status = draw(st.sampled_from(["NONE", "NEEDS-ACTION", "NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "COMPLETED", "CANCELLED"]))
    completed = when_("Z") if status == "COMPLETED" and draw(st.integers(0, 3)) or draw(st.integers(0, 9)) == 0 else None
    return {"mark": "t%d" % i, "start": start, "due": due, "dur": bool(dur), "status": status, "completed": completed, "prio": draw(st.sampled_from([None, 0, 1, 5, 5, 9]))}


@st.composite
def todo_case(draw):
    timed, dates = draw(st.sampled_from(["ZF", "Z", "N", "NZ"])), draw(st.sampled_from(["D", "T", "T", "DT"]))
    todos = [draw(todo(i, timed, dates)) for i in range(draw(st.integers(0, 6)))]
    upto = st.one_of(TT.map(lambda t: t[:8]), TT.map(lambda t: t + "Z"))
    return {"todos": todos, "now": 1577836800 + draw(st.one_of(st.integers(-3 * 96, 3 * 96), st.integers(-40 * 96, 40 * 96))) * 900,
            "asks": draw(st.lists(st.tuples(st.booleans(), st.booleans(), upto).map(list), min_size=1, max_size=4))}


# ---------------------------------------------------------------- dates
def run_dates(J, case, rec):
    text, kind, z = case["text"], case["kind"], case["tzid"]
    r = J.call("lists.show", text, kind, z, "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//v//v//EN"] + tzdefs.ZONES[z] + ["END:VCALENDAR", ""]) if z else None)
    timed = len(text) > 8
    w = D.datetime.strptime(text[:15], "%Y%m%dT%H%M%S") if timed else D.datetime.strptime(text, "%Y%m%d")
    day, month = DAYS[w.weekday()], MONTHS[w.month - 1]
    full, short, num = "%s, %s %d" % (day, month, w.day), "%s, %s %d" % (day[:3], month[:3], w.day), "%d/%d" % (w.month, w.day)
    dates = ["%s, %d" % (full, w.year), "%s, %d" % (short, w.year), "%s/%d" % (num, w.year), full, short, num]
    expect(r["dates"] == dates, "dates shown", got=r["dates"], want=dates)
    expect(r["months"] == [month[:3], month] and r["day"] == day[:3], "names shown", got=[r["months"], r["day"]], want=[month, day])
    if kind == "utc":
        desc = "(UTC)"
    elif kind == "offset":
        desc = text[15:]
    elif kind == "tzid":
        desc = "(%s)" % w.replace(tzinfo=tzdefs.ZoneInfo(z)).tzname()
    else:
        desc = ""
    if timed or kind != "tzid":
        expect(r["desc"] == desc, "time zone shown", got=r["desc"], want=desc)
    else:
        desc = r["desc"]
    i = 0
    for secs in (False, True):
        for ampm in (False, True):
            for tz in (False, True):
                t = (w.strftime("%I").lstrip("0") if ampm else w.strftime("%H")) + w.strftime(":%M:%S" if secs else ":%M") + (w.strftime(" %p") if ampm else "") + (" " + desc if tz and desc else "")
                expect(r["times"][i] == t, "time shown", seconds=secs, am_pm=ampm, zone=tz, got=r["times"][i], want=t)
                expect(r["both"][i] == [d + " " + t for d in dates], "date and time shown", got=r["both"][i])
                i += 1
    expect(r["text"] == text, "showing changed it", got=r["text"])
    ids = case["defaults"]
    got = J.call("lists.default_zone", ids)
    want = [[t, t == "UTC", None if t == "UTC" else t] * 1 + [t == "UTC", None if t == "UTC" else t] for t in ids]
    expect(got == want, "default time zone", got=got, want=want)
    rec.nt(timed)
    rec.label(kind)


@st.composite
def date_case(draw):
    kind = draw(st.sampled_from(["date", "floating", "utc", "offset", "tzid", "tzid"]))
    y = draw(st.integers(2013, 2037) if kind == "tzid" else st.integers(1800, 2200))
    d = D.datetime(y, draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.sampled_from([0, 1, 9, 11, 12, 13, 22, 23])), draw(st.sampled_from([0, 5, 9, 10, 59])), draw(st.sampled_from([0, 5, 9, 10, 59])))
    if draw(st.booleans()):
        d = (d.replace(day=28) + D.timedelta(days=draw(st.integers(0, 3))))
    z = draw(st.sampled_from(sorted(tzdefs.ZONES))) if kind == "tzid" else None
    text = d.strftime("%Y%m%d") if kind == "date" else d.strftime("%Y%m%dT%H%M%S")
    if kind == "utc":
        text += "Z"
    elif kind == "offset":
        text += draw(st.sampled_from(["+0000", "+0100", "-0500", "+0530", "-0330", "-0030", "+1345", "-1200"]))
    return {"text": text, "kind": kind, "tzid": z, "defaults": draw(st.lists(st.sampled_from(["UTC", "America/New_York", "Europe/London", "X-None"]), max_size=3))}


TESTS = [
    Test("months", MONTHCASE, run_months, quick=1500, thorough=40000, shards=2),
    Test("events", events(), run_events, quick=1500, thorough=30000, shards=2),
    Test("todos", todo_case(), run_todos, quick=1500, thorough=40000, shards=2),
    Test("dates", date_case(), run_dates, quick=1500, thorough=40000, shards=2),
]

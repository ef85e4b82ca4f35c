"""C23: edits through the API reach the written form and the cached values alike."""
import datetime as D
import re

from hypothesis import strategies as st

from harness import icanon, ical, tzdefs
from harness.core import Test, expect

ID = "C23"
MODNAME = "checks.c23"
RULE = ("a case is a calendar with an event, an override, a to-do, a journal, a free-busy component (some of them) and alarms, and 1-8 edits of them; the caller changes the objects it passed after each edit. "
        "After each edit the written calendar must be the model's, and every getter, recurrence set and expansion that of the written calendar read afresh. Non-trivial: at least two edits, one of them of timing, recurrence, status or an alarm.")
ASSUMPTIONS = ["an event or to-do has a start whenever its duration or recurrences matter; a start and the end, exclusion or rules given with it are both dates or both date-times",
               "components whose properties are replaced directly are finalised afterwards, as the library itself does",
               "edits use the edit methods; the plain setters of cached values (setSummary, setStatus, setName) are no edits",
               "which instances a recurrence set has is C11's and C14's subject; here excluding the future must leave those before the date (and the start), and everything else must agree with the written form"]
NY = "America/New_York"
TEXTS = st.one_of(st.none(), st.sampled_from(["", "plain", "a;b,c\\d", "line\nBEGIN:VEVENT", "caf\u00e9 \u2603", "x" * 90, "\"q\"", " lead", "a:b;c=d", "\U0001f600", "None"]), st.text(st.characters(codec="utf-8", exclude_categories=("Cc", "Cs"), exclude_characters="\u2028\u2029\x85"), max_size=12))


def esc(t):
    return ical.escape(t)


def dtext(d):
    return d["t"][:8] if d["f"] == "D" else d["t"] + ("Z" if d["f"] == "Z" else "")


def dline(name, d):
    return name + {"D": ";VALUE=DATE", "N": ";TZID=" + NY}.get(d["f"], "") + ("" if name != "TRIGGER" else ";VALUE=DATE-TIME") + ":" + dtext(d)


def durtext(s):
    n = abs(s)
    if n and n % 604800 == 0:
        t = "P%dW" % (n // 604800)
    else:
        d, r = divmod(n, 86400)
        t = "P" + ("%dD" % d if d else "") + ("T%dS" % r if r or not d else "")
    return ("-" if s < 0 else "") + t


def when(d):
    """instant, as the library compares: floating and date-only as if in UTC"""
    w = D.datetime.strptime(d["t"], "%Y%m%dT%H%M%S")
    return tzdefs.to_utc(w, NY) if d["f"] == "N" else w


def shift(d, days=0, midnight=False, secs=0):
    w = D.datetime.strptime(d["t"], "%Y%m%dT%H%M%S") + D.timedelta(days=days, seconds=secs)
    if midnight:
        w = w.replace(hour=0, minute=0, second=0)
    return {"f": d["f"], "t": w.strftime("%Y%m%dT%H%M%S")}


def pname(l):
    return re.split("[;:]", l, 1)[0].upper()


class Model(object):
    def __init__(self, case):
        self.comps = {}
        self.order = []
        self.alarms = {}
        self.cut = set()
        self.start = {}         # the start in force, as a date spec
        for c in case["comps"]:
            self.order.append(c["mark"])
            self.comps[c["mark"]] = {"kind": c["kind"], "lines": ["COMMENT:" + c["mark"], "UID:" + c["uid"]] + list(c["lines"]), "alarms": [a["mark"] for a in c["alarms"]], "status": c["status"]}
            self.start[c["mark"]] = c["start"]
            for a in c["alarms"]:
                self.alarms[a["mark"]] = ["COMMENT:" + a["mark"]] + list(a["lines"])
        self.cal = list(case["cal"])

    def text(self):
        out = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + self.cal + tzdefs.ZONES[NY]
        for m in self.order:
            c = self.comps[m]
            out += ["BEGIN:" + c["kind"]] + c["lines"]
            for a in c["alarms"]:
                out += ["BEGIN:VALARM"] + self.alarms[a] + ["END:VALARM"]
            out.append("END:" + c["kind"])
        return "\r\n".join(out + ["END:VCALENDAR", ""])

    def lines(self, mark):
        return self.alarms[mark] if mark in self.alarms else self.comps[mark]["lines"]

    def drop(self, mark, *names):
        l = self.lines(mark)
        l[:] = [x for x in l if pname(x) not in names]

    def put(self, mark, *lines):
        self.lines(mark).extend(lines)

    def text_prop(self, mark, name, t):
        self.drop(mark, name)
        if t:
            self.put(mark, name + ":" + esc(t))

    def recurring(self, mark):
        return any(pname(x) in ("RRULE", "RDATE", "EXRULE", "EXDATE") for x in self.lines(mark))

    def timing(self, mark, *lines):
        self.drop(mark, "DTSTART", "DTEND", "DUE", "DURATION")
        self.put(mark, *lines)

    def apply(self, op):
        """Returns names of properties whose value is adopted from what was written: [name, check]"""
        k, v = op[0], op[2:]
        if k == "name":
            self.cal = [x for x in self.cal if pname(x) != "X-WR-CALNAME"] + (["X-WR-CALNAME:" + esc(op[1])] if op[1] else [])
            return []
        if k == "desc":
            self.cal = [x for x in self.cal if pname(x) != "X-WR-CALDESC"] + (["X-WR-CALDESC:" + esc(op[1])] if op[1] else [])
            return []
        if k == "uid":
            for c in self.comps.values():
                c["lines"][:] = ["UID:" + op[2] if x == "UID:" + op[1] else x for x in c["lines"]]
            return []
        if k == "look":
            return []
        m = op[1]
        kind = self.comps[m]["kind"] if m in self.comps else "VALARM"
        end = "DUE" if kind == "VTODO" else "DTEND"
        if k == "summary":
            self.text_prop(m, "SUMMARY", v[0])
        elif k == "details":
            self.text_prop(m, "DESCRIPTION", v[0])
            self.text_prop(m, "LOCATION", v[1])
        elif k == "timing":
            self.timing(m)
            self.start[m] = None
        elif k == "due":
            self.timing(m, dline("DUE", v[0]))
            self.start[m] = None
        elif k == "startend":
            s, e = v
            if when(e) <= when(s):
                e = shift(s, days=1, midnight=s["f"] != "D")
            one = s["f"] == "D" and when(e) == when(shift(s, days=1)) and kind == "VEVENT"
            self.timing(m, dline("DTSTART", s), *([] if one else [dline(end, e)]))
            self.start[m] = s
        elif k == "startdur":
            s, n = v
            one = s["f"] == "D" and n == 86400 and kind == "VEVENT"
            self.timing(m, dline("DTSTART", s), *([] if one else ["DURATION:" + durtext(n)]))
            self.start[m] = s
        elif k == "recur":
            self.drop(m, "RRULE", "EXRULE", "RDATE", "EXDATE")
            self.put(m, *["RRULE:" + x for x in v[0]])
            self.put(m, *["EXRULE:" + x for x in v[1]])
            self.put(m, *[dline("RDATE", x) for x in v[2]])
            self.put(m, *[dline("RDATE", p[0]).replace("RDATE", "RDATE;VALUE=PERIOD", 1) + "/" + durtext(p[1]) for p in v[3]])
            self.put(m, *[dline("EXDATE", x) for x in v[4]])
        elif k == "exclude":
            if self.recurring(m):
                self.put(m, dline("EXDATE", v[0]))
            elif m in self.cut:         # nothing was left: whether that is excluded again is open
                return [(m, "EXDATE", None)]
        elif k == "future":
            if self.recurring(m):
                self.cut.add(m)
                return [(m, "RRULE", None), (m, "RDATE", None)]
        elif k == "status":
            c = self.comps[m]
            if c["status"] != v[0]:
                c["status"] = v[0]
                self.drop(m, "STATUS")
                if kind == "VTODO":
                    self.drop(m, "COMPLETED")
                if v[0] != "NONE":
                    self.put(m, "STATUS:" + v[0])
                if kind == "VTODO" and v[0] == "COMPLETED":
                    return [(m, "COMPLETED", "now")]
        elif k == "completed":
            self.drop(m, "COMPLETED")
            self.put(m, "COMPLETED:" + when(v[0]).strftime("%Y%m%dT%H%M%SZ"))
        elif k == "seq":
            self.drop(m, "SEQUENCE")
            self.put(m, "SEQUENCE:%d" % v[0])
        elif k == "stamp":
            return [(m, "DTSTAMP", "now")]
        elif k == "modified":
            return [(m, "LAST-MODIFIED", "now")]
        elif k == "drop":
            self.drop(m, v[0])
            if v[0] == "STATUS":
                self.comps[m]["status"] = "NONE"
        elif k == "put":
            self.drop(m, pname(v[0]))
            self.put(m, v[0])
            if pname(v[0]) == "STATUS":
                self.comps[m]["status"] = v[0][7:]
        elif k == "action":
            old = [x[7:] for x in self.lines(m) if pname(x) == "ACTION"]
            own = {"AUDIO": ["X-MULBERRY-SPEAK-TEXT"], "DISPLAY": ["DESCRIPTION"], "EMAIL": ["DESCRIPTION", "SUMMARY", "ATTENDEE"], "URI": ["URL"]}
            self.drop(m, "ACTION", *(own.get(old[0] if old else "DISPLAY", []) + own.get(v[0], [])))
            self.put(m, "ACTION:" + v[0])
            for n, t in zip(own.get(v[0], []), v[1:]):
                if n == "ATTENDEE":
                    self.put(m, *["ATTENDEE:" + x for x in t or ()])
                elif t is not None:
                    self.put(m, (n + ":" + t) if n == "URL" else n + ":" + esc(t))
        elif k == "trigon":
            self.drop(m, "TRIGGER")
            self.put(m, dline("TRIGGER", v[0]))
        elif k == "trigby":
            self.drop(m, "TRIGGER")
            self.put(m, "TRIGGER;RELATED=%s:%s" % ("START" if v[1] else "END", durtext(v[0])))
        elif k == "repeat":
            self.drop(m, "REPEAT", "DURATION")
            if v[0] > 0:
                self.put(m, "REPEAT:%d" % v[0], "DURATION:" + durtext(v[1]))
        elif k == "astatus":
            self.drop(m, "X-MULBERRY-ALARM-STATUS")
            self.put(m, "X-MULBERRY-ALARM-STATUS:" + v[0])
        return []


# ---------------------------------------------------------------- generation
DATES = st.builds(lambda d, h, m: "202001%02dT%02d%02d00" % (d, h, m), st.integers(1, 12), st.sampled_from([0, 8, 10, 12, 23]), st.sampled_from([0, 30]))


def spec(forms="DFZN"):
    return st.builds(lambda f, t: {"f": f, "t": t if f != "D" else t[:8] + "T000000"}, st.sampled_from(list(forms)), DATES)


def like(d):
    return spec("D" if d["f"] == "D" else d["f"] * 3 + "Z" if d["f"] != "F" else "F")


@st.composite
def end_for(draw, s):
    if s["f"] == "D":
        return shift(s, days=draw(st.sampled_from([1, 1, 2, 7, 0, -1])))
    e = shift(s, secs=draw(st.sampled_from([3600, 1800, 86400, 90000, 0, -3600])))
    if s["f"] == "N" and draw(st.booleans()):
        e = {"f": "Z", "t": when(e).strftime("%Y%m%dT%H%M%S")}
    return e


def length_for(s):
    return st.sampled_from([86400, 86400, 172800, 604800, 259200] if s["f"] == "D" else [3600, 1800, 86400, 90061, 604800, 5400])


@st.composite
def rule_for(draw, s):
    r = "FREQ=" + draw(st.sampled_from(["DAILY", "DAILY", "WEEKLY", "MONTHLY"]))
    n = draw(st.sampled_from([1, 1, 2, 3]))
    if n > 1:
        r += ";INTERVAL=%d" % n
    lim = draw(st.sampled_from(["", "", "count", "until"]))
    if lim == "count":
        r += ";COUNT=%d" % draw(st.integers(1, 8))
    elif lim == "until":
        u = shift(s, days=draw(st.sampled_from([0, 3, 10, 60])))
        r += ";UNTIL=" + (dtext({"f": "Z", "t": when(u).strftime("%Y%m%dT%H%M%S")}) if u["f"] == "N" else dtext(u))
    if draw(st.booleans()) and draw(st.booleans()):
        r += ";BYDAY=MO,WE,FR" if "MONTHLY" not in r else ";BYMONTHDAY=1,15"
    return r


@st.composite
def sets_for(draw, s):
    same = st.builds(lambda n: shift(s, days=n), st.integers(0, 12))
    rules = draw(st.lists(rule_for(s), max_size=2))
    ex = draw(st.one_of(st.just([]), st.just([]), st.lists(rule_for(s), max_size=1)))
    dates = draw(st.lists(st.one_of(same, like(s)), max_size=2))
    periods = [] if s["f"] == "D" else draw(st.one_of(st.just([]), st.lists(st.tuples(st.one_of(same, like(s)), st.sampled_from([3600, 5400, 5400, 90000, 259200])).map(list), max_size=2)))
    exd = draw(st.lists(same, max_size=2))
    return [rules, ex, dates, periods, exd]


@st.composite
def alarm(draw, mark):
    lines = []
    a = draw(st.sampled_from(["DISPLAY", "AUDIO", "EMAIL", "URI", "NONE", "PROCEDURE", None]))
    if a:
        lines.append("ACTION:" + a)
    for l in draw(st.lists(st.sampled_from(["DESCRIPTION:d", "SUMMARY:s", "URL:http://h/", "ATTENDEE:mailto:a@b", "X-MULBERRY-SPEAK-TEXT:say", "ATTACH:http://h/x"]), max_size=3, unique=True)):
        lines.append(l)
    t = draw(st.sampled_from(["", "TRIGGER:-PT15M", "TRIGGER;RELATED=END:PT5M", "TRIGGER;RELATED=START:-P1D", "TRIGGER;VALUE=DATE-TIME:20200110T090000Z", "TRIGGER;RELATED=end:PT0S"]))
    if t:
        lines.append(t)
    if draw(st.booleans()):
        lines += ["REPEAT:%d" % draw(st.integers(1, 4)), "DURATION:PT%dM" % draw(st.integers(1, 30))]
    return {"mark": mark, "lines": lines}


@st.composite
def comp(draw, mark, kind, rid=None):
    s = draw(spec())
    if rid is not None:
        s = rid
    lines = []
    start = s
    how = draw(st.sampled_from(["end", "end", "dur", "none", "nostart"]))
    if kind == "VTODO" and how == "nostart":
        lines.append(dline("DUE", s))
        start = None
    elif kind in ("VJOURNAL", "VFREEBUSY") and how == "nostart":
        start = None
    else:
        if rid is not None:
            lines.append(dline("RECURRENCE-ID", rid).replace(":", draw(st.sampled_from([":", ":", ";RANGE=THISANDFUTURE:"])), 1))
        lines.append(dline("DTSTART", s))
        if kind == "VJOURNAL":
            pass
        elif how == "end" or rid is not None:
            e = draw(end_for(s))
            if when(e) <= when(s):
                e = shift(s, days=1)
            lines.append(dline("DUE" if kind == "VTODO" else "DTEND", e))
        elif how == "dur":
            lines.append("DURATION:" + durtext(draw(length_for(s))))
        if kind in ("VEVENT", "VTODO") and rid is None and draw(st.integers(0, 2)):
            r = draw(sets_for(s))
            if r[0] or r[2] or r[3]:
                lines += ["RRULE:" + x for x in r[0]] + ["EXRULE:" + x for x in r[1]]
                if r[2]:
                    lines += [dline("RDATE", x) for x in r[2]]
                lines += [dline("RDATE", p[0]).replace("RDATE", "RDATE;VALUE=PERIOD", 1) + "/" + durtext(p[1]) for p in r[3]]
                lines += [dline("EXDATE", x) for x in r[4]]
    status = "NONE"
    if kind in ("VEVENT", "VTODO") and draw(st.booleans()):
        status = draw(st.sampled_from(["CONFIRMED", "TENTATIVE", "CANCELLED"] if kind == "VEVENT" else ["NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "CANCELLED"]))
        lines.append("STATUS:" + status)
    if kind == "VTODO" and draw(st.booleans()):
        lines.append("COMPLETED:20200105T120000Z")
    more = ["DTSTAMP:20200101T000000Z", "SEQUENCE:3", "LAST-MODIFIED:20200101T000000Z", "CLASS:PUBLIC", "X-KEEP;X-P=1:kept"]
    if kind != "VFREEBUSY":
        more += ["SUMMARY:old", "SUMMARY:None", "DESCRIPTION:old\\, too", "LOCATION:here", "PRIORITY:2", "PERCENT-COMPLETE:40"]
    seen = set()
    for l in draw(st.lists(st.sampled_from(more), max_size=5, unique=True)):
        if pname(l) not in seen:
            seen.add(pname(l))
            lines.append(l)
    alarms = [draw(alarm(mark + "-a%d" % i)) for i in range(draw(st.integers(0, 2)))] if kind in ("VEVENT", "VTODO") else []
    return {"mark": mark, "kind": kind, "uid": "u-" + mark[0], "lines": lines, "alarms": alarms, "status": status, "start": start}


DROPS = ["SUMMARY", "DESCRIPTION", "LOCATION", "STATUS", "SEQUENCE", "DTSTAMP", "PRIORITY", "PERCENT-COMPLETE", "COMPLETED"]


@st.composite
def cases(draw):
    comps = []
    kinds = draw(st.lists(st.sampled_from(["VEVENT", "VEVENT", "VEVENT", "VTODO", "VTODO", "VJOURNAL", "VFREEBUSY"]), min_size=1, max_size=3))
    for i, k in enumerate(kinds):
        m = "abc"[i] + "1"
        comps.append(draw(comp(m, k)))
        c = comps[-1]
        if k == "VEVENT" and c["start"] and any(x.startswith("RRULE") for x in c["lines"]) and draw(st.booleans()):
            comps.append(draw(comp("abc"[i] + "2", "VEVENT", shift(c["start"], days=draw(st.integers(0, 4))))))
    case = {"comps": comps, "cal": draw(st.sampled_from([[], [], ["X-WR-CALNAME:old"], ["X-WR-CALDESC:old", "METHOD:PUBLISH"]]))}
    model = Model(case)
    ops = []
    used = {c["uid"] for c in comps}
    fresh_uid = iter("v%d" % i for i in range(99))
    for _ in range(draw(st.integers(1, 8))):
        c = draw(st.sampled_from(comps))
        m, kind = c["mark"], c["kind"]
        s = model.start[m]
        over = any(x.startswith("RECURRENCE-ID") for x in c["lines"])
        ks = ["seq", "stamp", "modified", "drop", "put", "name", "desc", "uid", "look"]
        if kind != "VFREEBUSY":
            ks += ["summary"] * 2 + ["details"] * 2
        if kind in ("VEVENT", "VTODO", "VFREEBUSY"):
            ks += ["startend"] * 5 + ["startdur"] * 5
            if not over and kind != "VEVENT" or kind == "VEVENT" and not over and not model.recurring(m):
                ks += ["timing"]
        if kind == "VTODO":
            ks += ["due"] * 3 + ["completed"] * 3
        if kind in ("VEVENT", "VTODO"):
            ks += ["status"] * 4
            if s is not None and not over:
                ks += ["recur"] * 4 + ["exclude"] * 3 + ["future"] * 4
        if c["alarms"]:
            ks += ["action"] * 3 + ["trigon", "trigby"] * 2 + ["repeat"] * 3 + ["astatus", "adrop"]
        k = draw(st.sampled_from(ks))
        if k in ("name", "desc"):
            op = [k, draw(TEXTS) or ""]
        elif k == "uid":
            now = [x[4:] for x in model.comps[m]["lines"] if x.startswith("UID:")][0]
            op = [k, now, next(fresh_uid)]
        elif k == "look":
            op = [k]
        elif k == "summary":
            op = [k, m, draw(TEXTS)]
        elif k == "details":
            op = [k, m, draw(TEXTS), draw(TEXTS)]
        elif k in ("timing", "stamp", "modified"):
            op = [k, m]
        elif k == "due":
            op = [k, m, draw(spec())]
        elif k in ("startend", "startdur"):
            n = draw(like(s)) if s is not None and (over or model.recurring(m) or draw(st.booleans())) else draw(spec())
            op = [k, m, n, draw(end_for(n) if k == "startend" else length_for(n))]
        elif k == "recur":
            op = [k, m] + [draw(sets_for(s))]
            op = [k, m] + op[2]
        elif k == "exclude":
            op = [k, m, shift(s, days=draw(st.integers(0, 12)))]
        elif k == "future":
            op = [k, m, draw(st.one_of(st.builds(lambda n: shift(s, days=n), st.integers(-2, 12)), st.builds(lambda n, h: shift(s, days=n, secs=0 if s["f"] == "D" else h), st.integers(-1, 12), st.sampled_from([1, -1, 1800, -1800, 5000])), like(s)))]
        elif k == "status":
            op = [k, m, draw(st.sampled_from(["NONE", "CONFIRMED", "TENTATIVE", "CANCELLED"] if kind == "VEVENT" else ["NONE", "NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "COMPLETED", "CANCELLED"]))]
        elif k == "completed":
            op = [k, m, draw(spec("ZN"))]
        elif k == "seq":
            op = [k, m, draw(st.integers(0, 9))]
        elif k == "drop":
            op = [k, m, draw(st.sampled_from(DROPS))]
        elif k == "put":
            op = [k, m, draw(st.sampled_from(["PRIORITY:7", "CLASS:PRIVATE", "X-NEW:v", "CATEGORIES:a,b"] + (["SUMMARY:put"] if kind != "VFREEBUSY" else []) + (["STATUS:CANCELLED"] if kind in ("VEVENT", "VTODO") else [])))]
        else:
            a = draw(st.sampled_from(c["alarms"]))["mark"]
            if k == "action":
                w = draw(st.sampled_from(["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE", "PROCEDURE"]))
                v = {"AUDIO": [draw(TEXTS)], "DISPLAY": [draw(TEXTS)], "EMAIL": [draw(TEXTS), draw(TEXTS), draw(st.one_of(st.none(), st.lists(st.sampled_from(["mailto:a@b", "mailto:c@d"]), max_size=2)))], "URI": [draw(st.sampled_from([None, "http://h/y"]))]}.get(w, [])
                op = [k, a, w] + v
            elif k == "trigon":
                op = [k, a, draw(spec("ZZN"))]
            elif k == "trigby":
                op = [k, a, draw(st.sampled_from([-900, 0, 3600, -86400, 604800])), draw(st.booleans())]
            elif k == "repeat":
                op = [k, a, draw(st.integers(0, 4)), draw(st.sampled_from([60, 300, 3600]))]
            elif k == "astatus":
                op = [k, a, draw(st.sampled_from(["PENDING", "COMPLETED", "DISABLED"]))]
            else:
                op = ["drop", a, draw(st.sampled_from(["ACTION", "TRIGGER", "REPEAT", "X-MULBERRY-ALARM-STATUS", "DESCRIPTION"]))]
        ops.append(op)
        model.apply(op)
    case["ops"] = ops
    case["copy"] = draw(st.one_of(st.none(), st.none(), st.integers(0, len(ops) - 1)))
    return case


# ---------------------------------------------------------------- judgement
def comp_nodes(text):
    """mark -> node, for components and alarms; and the rest"""
    top = ical.parse(text)
    expect(len(top) == 1, "one calendar", text=text)
    out = {}

    def rec(n):
        c = n.value("COMMENT")
        if c is not None:
            expect(c not in out, "a component written twice", mark=c)
            out[c] = n
        for s in n.subs:
            rec(s)
    rec(top[0])
    return top[0], out


def props_of(n):
    return sorted((icanon.prop(p[1], p[2], p[3]) for p in n.props), key=icanon.key)


def run(J, case, rec):
    model = Model(case)
    r = J.call("edits.history", model.text(), case["ops"], case["copy"])
    judge(model, r["first"], ["read"], None)
    last = r["first"]
    for op, got in zip(case["ops"], r["looks"]):
        before = {m: list(l) for m, l in [(m, c["lines"]) for m, c in model.comps.items()]}
        adopt = model.apply(op)
        if adopt:
            _, nodes = comp_nodes(got["text"])
            for m, name, how in adopt:
                found = nodes[m].get(name)
                if how == "now":
                    expect(len(found) == 1 and re.fullmatch(r"20\d{6}T\d{6}Z", found[0][3]), "the time now, in UTC", name=name, found=found)
                    w = D.datetime.strptime(found[0][3], "%Y%m%dT%H%M%SZ").replace(tzinfo=D.timezone.utc)
                    expect(abs((D.datetime.now(D.timezone.utc) - w).total_seconds()) < 3600, "the time now", name=name, found=found)
                model.drop(m, name)
                for p in found:
                    model.put(m, name + "".join(";%s=%s" % (n, ",".join(v)) for n, v in p[2]) + ":" + p[3])
        judge(model, got, op, last)
        if op[0] == "seq":
            was, *q = got["seqs"]
            expect(q == [was, was, op[2], op[2]], "the sequence number read is not kept, in the component or its copy", op=op, got=got["seqs"])
        if op[0] == "future":
            future(model, last, got, op, before)
        last = got
    names = [o[0] for o in case["ops"]]
    for n in names:
        rec.label(n)
    rec.nt(len(names) > 1 and any(n in ("timing", "due", "startend", "startdur", "recur", "exclude", "future", "status", "completed", "action", "trigon", "trigby", "repeat") for n in names))


def future(model, last, got, op, before):
    m, cut = op[1], op[2]
    old = [s[2:] for s in last["spans"] if s[0] == m and s[1] == m]
    new = [s[2:] for s in got["spans"] if s[0] == m and s[1] == m]
    if not any(pname(l) in ("RRULE", "RDATE", "EXRULE", "EXDATE") for l in before[m]):
        expect(old == new, "nothing to exclude", op=op, old=old, new=new)
        return
    form = model.start[m]["f"]

    def at(t):
        if len(t) == 8:
            return D.datetime.strptime(t, "%Y%m%d")
        w = D.datetime.strptime(t.rstrip("Z"), "%Y%m%dT%H%M%S")
        return w if t.endswith("Z") or form != "N" else tzdefs.to_utc(w, NY)
    st0 = at(dtext(model.start[m]))
    want = sorted(s for s in old if at(s[0]) < when(cut) or at(s[0]) == st0)
    if st0 >= when(cut):        # a period that started with the item is gone, and its length with it
        new, want = [s[0] for s in new], [s[0] for s in want]
    else:                       # (whether they still recur is judged against the written form)
        new, want = [[at(x) for x in s[:2]] for s in new], [[at(x) for x in s[:2]] for s in want]
    expect(sorted(new) == sorted(want), "instances left after excluding the future", op=op, got=new, want=want, old=old, lines=before[m])


def judge(model, got, op, last):
    w = dict(after=op)
    root, nodes = comp_nodes(got["text"])
    want = icanon.from_text(model.text())[0]
    have = icanon.from_text(got["text"])[0]
    if want != have:
        wroot, wnodes = comp_nodes(model.text())
        for m in wnodes:
            expect(m in nodes, "a component is missing", mark=m, **w)
            expect(props_of(wnodes[m]) == props_of(nodes[m]), "properties written", mark=m, got=[x for x in props_of(nodes[m]) if x not in props_of(wnodes[m])],
                   want=[x for x in props_of(wnodes[m]) if x not in props_of(nodes[m])], **w)
        expect(False, "calendar written", got=got["text"], want=model.text(), **w)
    for m, g in got["get"].items():
        f = got["fresh"].get(m)
        expect(g == f, "values reported differ from those of the written form", mark=m, got={k: v for k, v in g.items() if f.get(k) != v}, fresh={k: v for k, v in f.items() if g.get(k) != v}, text=got["text"], **w)
    expect(got["name"] == got["freshname"], "calendar name and description", got=got["name"], fresh=got["freshname"], **w)
    expect(got["spans"] == got["freshspans"], "expansion differs from that of the written form", got=[x for x in got["spans"] if x not in got["freshspans"]], fresh=[x for x in got["freshspans"] if x not in got["spans"]], **w)
    expect(got["again"], "written again the text differs", text=got["text"], **w)
    expect(got["equal"], "not equal to its written form", text=got["text"], **w)
    expect(got["sets"], "recurrence sets not equal to those of the written form", text=got["text"], **w)
    for m, c in model.comps.items():
        ends = sorted(x for x in map(pname, c["lines"]) if x in ("DTEND", "DUE", "DURATION"))
        expect(len([p for p in nodes[m].props if p[1] in ("DTEND", "DUE", "DURATION")]) <= 1, "one end at most", mark=m, got=ends, **w)
        g = got["get"][m]
        if c["kind"] == "VFREEBUSY":
            continue
        text = {pname(x): ical.unescape(x.split(":", 1)[1]) for x in c["lines"] if pname(x) in ("SUMMARY", "DESCRIPTION", "LOCATION")}
        expect([g["summary"], g["description"], g["location"]] == [text.get("SUMMARY"), text.get("DESCRIPTION", ""), text.get("LOCATION", "")], "texts reported", mark=m, got=g, want=text, **w)
        s = model.start[m]
        expect(g["hasstart"] == (s is not None), "start reported", mark=m, got=g, **w)
        if s is not None:
            expect(g["start"] == [dtext(s), NY if s["f"] == "N" else None, s["f"] == "D", s["f"] == "Z"], "start reported", mark=m, got=g["start"], want=s, **w)


TESTS = [Test("edits", cases(), run, quick=2400, thorough=40000, shards=8)]

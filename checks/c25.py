"""C25: free-busy and alarm times follow from the component data."""
import calendar as C
import datetime as D
import re

from hypothesis import strategies as st

from checks.c23 import dline, dtext, durtext, pname, shift, spec, when
from harness import icanon, ical, tzdefs
from harness.core import Test, expect

ID = "C25"
MODNAME = "checks.c25"
RULE = ("`busy`: a calendar of 0-4 events (single, daily with exceptions, additions and overrides; timed in UTC, a zone or floating, or all-day; any status and transparency), 0-3 free-busy components and bystanders, asked for "
        "its free-busy over 1-3 ranges between edits. Non-trivial: some range is partly busy. `alarms`: an event or to-do with 1-2 alarms and a history of clock changes, triggerings, edits of alarm and owner, copies and re-readings; after each, first and next trigger and "
        "status are compared with the model. Non-trivial: the history has a triggering or an edit and the alarm repeats or is relative.")
ASSUMPTIONS = ["dates lie in January and February 2020, so that no offset changes (instances across changes are C14's)",
               "a free-busy component's start and end, when given, surround its periods",
               "floating times count as UTC, the library's default zone, and are published as they are; an all-day item's alarms are relative to 00:00",
               "the trigger due is the last one not after now, or the first; when that is the one last triggered, or is over 24 hours ago, the one after it, and when there is none the alarm is completed",
               "a recurring event's own instances count when they start in the range, as expansion selects them (C14)",
               "an alarm is triggered at its next trigger time, up to the one after; a live alarm's answer is judged when the clock alone has not changed it",
               "published free-busy (getVFreeBusyFB) has one type, and leaves out cancelled events as getFreeBusy does"]
NY = "America/New_York"


def epoch(d):
    return C.timegm(d.timetuple())


def ep(s):
    return epoch(when(s))


def utext(t):
    return D.datetime.fromtimestamp(t, D.timezone.utc).strftime("%Y%m%dT%H%M%SZ")


# ---------------------------------------------------------------- free-busy
def event_lines(e):
    s = e["start"]
    out = ["COMMENT:" + e["mark"], "UID:" + e["uid"], dline("DTSTART", s), "DURATION:" + durtext(e["len"]) if e["dur"] else dline("DTEND", shift(s, secs=e["len"]))]
    if e.get("rid"):
        out.append(dline("RECURRENCE-ID", e["rid"]))
    if e["n"] > 1:
        out.append("RRULE:FREQ=DAILY;COUNT=%d" % e["n"] + (";INTERVAL=%d" % e["step"] if e["step"] > 1 else ""))
    out += [dline("EXDATE", shift(s, days=i * e["step"])) for i in e["ex"]]
    out += [dline("RDATE", shift(s, days=i)) for i in e["extra"]]
    if e["status"] != "NONE":
        out.append("STATUS:" + e["status"])
    if e["transp"]:
        out.append("TRANSP:" + e["transp"])
    return ["BEGIN:VEVENT"] + out + ["END:VEVENT"]


def instances(e, overs, a, b):
    days = set(i * e["step"] for i in range(e["n"])) - set(i * e["step"] for i in e["ex"]) | set(e["extra"])
    out = []
    for i in sorted(days):
        s = shift(e["start"], days=i)
        if s not in [o["rid"] for o in overs] and (e["n"] == 1 or a <= ep(s) < b):
            out.append((ep(s), ep(s) + e["len"], e))
    for o in overs:
        out.append((ep(o["start"]), ep(o["start"]) + o["len"], o))
    return [x for x in out if x[2]["start"]["f"] != "D" and (x[2]["transp"] or "").upper() != "TRANSPARENT" and x[2]["status"] != "CANCELLED"]


class Fb(object):
    def __init__(self, f):
        self.mark = f["mark"]
        self.span = f["span"]
        self.props = list(f["props"])

    def periods(self):
        out = []
        for p in self.props:
            t = kind(p)
            if t != "FREE":
                out += [(t, a, b) for a, b, _ in p["periods"]]
        return out

    def between(self):
        ps = self.periods()
        s, e = self.span or (None, None)
        return (ep(s) if s else min(a for t, a, b in ps)), (ep(e) if e else max(b for t, a, b in ps))


def kind(p):
    t = (p["type"] or "BUSY").upper()
    return t if t in ("FREE", "BUSY", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE") else "BUSY"


def fb_line(p):
    return "FREEBUSY" + (";FBTYPE=" + p["type"] if p["type"] else "") + ":" + ",".join(utext(a) + "/" + (durtext(b - a) if dur else utext(b)) for a, b, dur in p["periods"])


def fb_lines(f):
    out = ["COMMENT:" + f["mark"], "UID:" + f["mark"]]
    if f["span"]:
        out += [dline(n, x) for n, x in zip(("DTSTART", "DTEND"), f["span"]) if x]
    return ["BEGIN:VFREEBUSY"] + out + [fb_line(p) for p in f["props"]] + ["END:VFREEBUSY"]


BASE = epoch(D.datetime(2020, 1, 6))
HOURS = st.integers(0, 14 * 24 * 2).map(lambda n: BASE + n * 1800)
TIMES = st.builds(lambda d, h: "202001%02dT%02d%02d00" % (d, h // 2, h % 2 * 30), st.integers(6, 16), st.sampled_from([0, 2, 17, 18, 19, 20, 24, 40, 47]))


@st.composite
def event(draw, mark):
    f = draw(st.sampled_from("ZZNNFD"))
    t = draw(TIMES)
    s = {"f": f, "t": t if f != "D" else t[:8] + "T000000"}
    e = {"mark": mark, "uid": "u-" + mark, "start": s, "len": draw(st.sampled_from([86400, 172800] if f == "D" else [1800, 3600, 5400, 86400, 93600, 1])), "dur": draw(st.booleans()),
         "n": draw(st.sampled_from([1, 1, 2, 4])), "step": draw(st.sampled_from([1, 1, 2])), "ex": [], "extra": [],
         "status": draw(st.sampled_from(["NONE", "NONE", "CONFIRMED", "TENTATIVE", "CANCELLED"])), "transp": draw(st.sampled_from([None, None, None, "OPAQUE", "TRANSPARENT", "transparent"]))}
    out = [e]
    if e["n"] > 1:
        e["ex"] = draw(st.lists(st.integers(1, e["n"] - 1), max_size=1))
        e["extra"] = draw(st.lists(st.sampled_from([7, 9]), max_size=1))
        for i in draw(st.lists(st.integers(0, e["n"] - 1), max_size=2, unique=True)):
            if i in e["ex"]:
                continue
            rid = shift(s, days=i * e["step"])
            n = shift(rid, secs=draw(st.sampled_from([0, 3600, -3600, 1800, 86400])) if f != "D" else draw(st.sampled_from([0, 86400])))
            if f == "N" and draw(st.booleans()):
                n = {"f": "Z", "t": when(n).strftime("%Y%m%dT%H%M%S")}
            out.append(dict(e, mark="%s-o%d" % (mark, i), start=n, rid=rid, n=1, ex=[], extra=[], len=draw(st.sampled_from([86400] if f == "D" else [1800, 7200])),
                            status=draw(st.sampled_from(["NONE", "CONFIRMED", "TENTATIVE", "CANCELLED"])), transp=draw(st.sampled_from([None, None, "TRANSPARENT", "OPAQUE"]))))
    return out


@st.composite
def fbprop(draw):
    ps = []
    for _ in range(draw(st.integers(1, 3))):
        a = draw(HOURS)
        ps.append([a, a + draw(st.sampled_from([1800, 3600, 86400, 5400, 1, 86400 * 9])), draw(st.booleans())])
    return {"type": draw(st.sampled_from([None, None, "BUSY", "BUSY-TENTATIVE", "BUSY-UNAVAILABLE", "FREE", "X-OUT", "busy-tentative", "Free"])), "periods": ps}


def surround(draw, props):
    ps = [p for q in props for p in q["periods"]]
    if not ps:
        return None
    a, b = min(p[0] for p in ps), max(p[1] for p in ps)
    a -= draw(st.sampled_from([0, 3600, 86400]))
    b += draw(st.sampled_from([0, 3600, 86400]))
    return [{"f": "Z", "t": utext(x)[:-1]} for x in (a, b)]


@st.composite
def busy_cases(draw):
    events = [draw(event("e%d" % i)) for i in range(draw(st.integers(0, 3)))]
    fbs = []
    for i in range(draw(st.integers(0, 2))):
        props = draw(st.lists(fbprop(), max_size=3))
        fbs.append({"mark": "f%d" % i, "props": props, "span": surround(draw, props) if draw(st.booleans()) else None})
        if fbs[-1]["span"] and draw(st.integers(0, 2)) == 0:
            fbs[-1]["span"][draw(st.integers(0, 1))] = None
    other = draw(st.lists(st.sampled_from(["VTODO", "VJOURNAL"]), max_size=1))
    order = draw(st.permutations([["e", i] for i in range(len(events))] + [["f", i] for i in range(len(fbs))]))
    model = {f["mark"]: dict(f) for f in fbs}
    alive = [e["mark"] for g in events for e in g]

    def rng():
        near = [x for f in model.values() for q in f["props"] for p in q["periods"] for x in p[:2]]
        if near and draw(st.booleans()):
            # just inside or just outside the first or last busy time, or next to any
            a = draw(st.sampled_from([min(near), max(near), max(near)] + near)) + draw(st.sampled_from([-1800, 0, -3600, -1]))
        else:
            a = draw(HOURS)
        return ["ask", [utext(a), utext(a + draw(st.sampled_from([1800, 86400, 86400 * 3, 86400 * 30, 7200])))]]
    ops = [rng()]
    for _ in range(draw(st.integers(0, 4))):
        ks = ["copy"] + (["status"] * 2 + ["transp"] * 2 if alive else []) + (["add", "add", "drop", "startend", "nospan"] if model else []) + (["remove"] if model else [])
        k = draw(st.sampled_from(ks))
        if k == "copy":
            ops.append(["copy"])
        elif k == "status":
            ops.append(["status", draw(st.sampled_from(alive)), draw(st.sampled_from(["NONE", "CONFIRMED", "TENTATIVE", "CANCELLED"]))])
        elif k == "transp":
            m = draw(st.sampled_from(alive))
            ops.append(["drop", m, "TRANSP"])
            if draw(st.booleans()):
                ops.append(["add", m, "TRANSP:" + draw(st.sampled_from(["OPAQUE", "TRANSPARENT"]))])
        else:
            m = draw(st.sampled_from(sorted(model)))
            f = model[m]
            if k == "remove":
                del model[m]
                ops.append(["remove", m])
            elif k == "add":
                p = draw(fbprop())
                f["props"] = f["props"] + [p]
                if f["span"]:
                    f["span"] = surround(draw, f["props"])
                    ops.append(["startend", m] + f["span"])
                ops.append(["add", m, fb_line(p), p])
            elif k == "drop":
                f["props"] = []
                ops.append(["drop", m, "FREEBUSY"])
            elif k == "nospan":
                f["span"] = None
                ops += [["drop", m, "DTSTART"], ["drop", m, "DTEND"]]
            elif f["props"]:
                f["span"] = surround(draw, f["props"])
                ops.append(["startend", m] + f["span"])
        if draw(st.booleans()):
            ops.append(rng())
    if ops[-1][0] != "ask":
        ops.append(rng())
    return {"events": events, "fbs": fbs, "other": other, "order": order, "ops": ops}


def clip(ps, a, b):
    """sorted disjoint closed-open union within the range"""
    out = []
    for s, e in sorted((max(s, a), min(e, b)) for s, e in ps if s < b and e > a):
        if out and s <= out[-1][1]:
            out[-1][1] = max(out[-1][1], e)
        else:
            out.append([s, e])
    return out


def parse_utc(t):
    expect(re.fullmatch(r"\d{8}T\d{6}Z?", t), "a UTC (or floating) time in published free-busy", got=t)
    return epoch(D.datetime.strptime(t.rstrip("Z"), "%Y%m%dT%H%M%S"))


def run_busy(J, case, rec):
    out = []
    for k, i in case["order"]:
        if k == "e":
            for e in case["events"][i]:
                out += event_lines(e)
        else:
            out += fb_lines(case["fbs"][i])
    for o in case["other"]:
        out += ["BEGIN:" + o, "COMMENT:other", "UID:other", "DTSTART:20200108T100000Z", "RRULE:FREQ=DAILY"] + (["DURATION:PT5H"] if o == "VTODO" else []) + ["END:" + o]
    text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + tzdefs.ZONES[NY] + out + ["END:VCALENDAR", ""])
    got = J.call("busy.busy", text, case["ops"])
    events = {e["mark"]: dict(e) for g in case["events"] for e in g}
    groups = [[e["mark"] for e in g] for g in case["events"]]
    fbs = {f["mark"]: Fb(f) for f in case["fbs"]}
    n = 0
    for op in case["ops"]:
        k = op[0]
        if k == "ask":
            partly = judge_busy(op, got[n], groups, events, fbs, case)
            rec.nt(partly)
            n += 1
        elif k == "status":
            events[op[1]]["status"] = op[2]
        elif k == "drop" and op[2] == "TRANSP":
            events[op[1]]["transp"] = None
        elif k == "drop" and op[2] == "FREEBUSY":
            fbs[op[1]].props = []
        elif k == "drop":
            fbs[op[1]].span = None
        elif k == "add" and op[1] in fbs:
            fbs[op[1]].props.append(op[3])
        elif k == "add":
            events[op[1]]["transp"] = op[2][7:]
        elif k == "startend":
            fbs[op[1]].span = op[2:]
        elif k == "remove":
            del fbs[op[1]]
        rec.label(k)


def judge_busy(op, got, groups, events, fbs, case):
    a, b = [parse_utc(t) for t in op[1]]
    inst = []
    for g in groups:
        inst += instances(events[g[0]], [events[m] for m in g[1:]], a, b)
    want = {"BUSY": [], "BUSY-TENTATIVE": [], "BUSY-UNAVAILABLE": []}
    for s, e, ev in inst:
        want["BUSY-TENTATIVE" if ev["status"] == "TENTATIVE" else "BUSY"].append((s, e))
    for m, f in fbs.items():
        for t, s, e in f.periods():
            want[t].append((s, e))
    for i in got["items"]:
        expect(i[0] in want, "type of a busy item", item=i)
    for t in want:
        w = clip(want[t], a, b)
        g = clip([(i[1], i[2]) for i in got["items"] if i[0] == t], a, b)
        expect(w == g, "busy time of the calendar", type=t, range=op[1], got=[[utext(x) for x in p] for p in g], want=[[utext(x) for x in p] for p in w])
    # published
    w = clip([(s, e) for s, e, ev in inst], a, b)
    have = []
    for l in got["made"]:
        expect(l.startswith("FREEBUSY:"), "published free-busy", got=l)
        s, e = l[9:].split("/")
        have.append((parse_utc(s), parse_utc(e)))
    expect(have == sorted(have) and all(x[1] < y[0] for x, y in zip(have, have[1:])) and all(s < e for s, e in have), "published periods are sorted and apart", got=got["made"])
    g = clip(have, a, b)
    expect(w == g, "published free-busy", range=op[1], got=got["made"], want=[[utext(x) for x in p] for p in w])
    # components
    listed = []
    for m, f in fbs.items():
        ps = f.periods()
        part, cached = got["parts"][m]
        on = False
        if ps:
            s, e = f.between()
            on = s < b and e > a
        if on:
            listed.append(m)
        expect(sorted(part) == (sorted([t, s, e] for t, s, e in ps) if on else []), "busy periods of a component", mark=m, range=op[1], got=sorted(part), want=sorted(ps))
        expect(sorted(cached) == sorted([t, s, e] for t, s, e in ps), "busy times cached by a component", mark=m, got=sorted(cached), want=sorted(ps))
        for t in want:
            expect(clip([(x[1], x[2]) for x in part if x[0] == t], a, b) == clip([(s, e) for q, s, e in ps if q == t], a, b), "busy time of a component", mark=m, range=op[1])
    expect(sorted(got["listed"]) == sorted(listed), "components with busy time in the range", range=op[1], got=got["listed"], want=listed)
    total = sum(e - s for t in want for s, e in clip(want[t], a, b))
    return 0 < total < b - a


# ---------------------------------------------------------------- alarms
DAY = 86400


class Alarm(object):
    def __init__(self, a, owner):
        self.owner = owner
        self.lines = list(a["lines"])
        self.trig = a["trig"]
        self.repeat = a["repeat"]
        self.status = a["status"]
        self.last = a["last"]

    def first(self):
        if self.trig[0] == "on":
            return ep(self.trig[1])
        o = self.owner
        base = ep(o["start"]) if self.trig[2] else o["end"]
        return base + self.trig[1]

    def at(self, now):
        """(status, next)"""
        if self.status == "COMPLETED":
            return "COMPLETED", None, None
        r, n = self.repeat if self.repeat[0] else [0, 300]
        t = self.first()
        k = 0
        while k < r and t + (k + 1) * n <= now:
            k += 1
        if t + k * n == self.last or now - (t + k * n) > DAY:
            if k == r:
                return "COMPLETED", None, None
            k += 1
        return self.status, t + k * n, k


@st.composite
def owner_timing(draw, forms):
    f = draw(st.sampled_from(list(forms)))
    t = draw(TIMES)
    s = {"f": f, "t": t if f != "D" else t[:8] + "T000000"}
    n = draw(st.sampled_from([86400, 172800] if f == "D" else [3600, 5400, 86400]))
    return s, n


def timing_of(s, n):
    return {"start": s, "end": ep(s) + n}


TRIGBY = st.sampled_from([-900, -900, 0, 300, -3600, 3600, -86400, -604800, 90061, -5400])


@st.composite
def trig(draw, on):
    if draw(st.integers(0, 3)) == 0:
        return ["on", draw(spec(on))]
    return ["by", draw(TRIGBY), draw(st.booleans())]


REPEAT = st.tuples(st.sampled_from([0, 0, 1, 2, 5]), st.sampled_from([60, 300, 3600, 86400, 100000])).map(list)


def trig_line(t, style):
    if t[0] == "on":
        return dline("TRIGGER", t[1])
    rel = {True: ["", ";RELATED=START", ";related=start"], False: [";RELATED=END", ";RELATED=end", ";related=END"]}[t[2]]
    return "TRIGGER" + rel[style % 3] + ":" + durtext(t[1])


@st.composite
def alarm_cases(draw):
    kind = draw(st.sampled_from(["VEVENT", "VEVENT", "VTODO"]))
    # floating and zoned times do not meet in one history
    forms = draw(st.sampled_from(["ZN", "ZN", "ZFD"]))
    s, n = draw(owner_timing(forms))
    how = draw(st.sampled_from(["end", "dur"] + (["none"] if s["f"] == "D" and n == DAY and kind == "VEVENT" else []) + (["due"] if kind == "VTODO" else [])))
    als = []
    for i in range(draw(st.integers(1, 2))):
        t = draw(trig(forms[:2].strip("F")))
        if how == "due" and t[0] == "by":
            t[2] = False
        r = draw(REPEAT)
        a = {"mark": "a%d" % i, "trig": t, "style": draw(st.integers(0, 2)), "repeat": r, "status": draw(st.sampled_from(["PENDING"] * 5 + ["COMPLETED", "DISABLED"])), "last": None, "lines": []}
        first = Alarm(a, timing_of(s, n)).first()
        if draw(st.integers(0, 3)) == 0:
            a["last"] = first + r[1] * draw(st.integers(0, r[0])) + draw(st.sampled_from([0, 0, 0, 1, -300]))
        als.append(a)
    case = {"kind": kind, "start": s, "len": n, "how": how, "alarms": als, "lastform": draw(st.sampled_from(list(forms[:2].strip("F"))))}
    owner = timing_of(s, n)
    if how == "due":
        owner["start"] = None
    models = {a["mark"]: Alarm(a, owner) for a in als}

    def moment(m):
        x = models[m]
        r, i = x.repeat if x.repeat[0] else [0, 300]
        t = x.first() + i * draw(st.integers(-1, r + 1))
        return t + draw(st.sampled_from([0, 0, -1, 1, DAY, DAY + 1, -3600, 5 * DAY, 60, i // 2]))
    now = moment("a0")
    ops = [["clock", now]]
    for _ in range(draw(st.integers(0, 6))):
        m = draw(st.sampled_from(sorted(models)))
        x = models[m]
        k = draw(st.sampled_from(["clock", "clock", "trigger", "trigger", "trigger", "trigon", "trigby", "repeat", "astatus", "startend", "startdur", "reread", "copy"] + (["due"] if kind == "VTODO" else [])))
        if k == "clock":
            now = moment(m)
            ops += [["clock", now]]
            if draw(st.booleans()):
                ops += [["reread"]]
            continue
        if k == "trigger":
            status, t, i = x.at(now)
            if t is None or status == "DISABLED":
                continue
            if ops[-1][0] != "reread" and ops[-1][1:2] != [m]:
                ops += [["reread"]]
            later = x.repeat[1] if x.repeat[0] else DAY
            if now < t or now >= t + later:
                now = t + draw(st.sampled_from([0, 0, 1, min(later, DAY) - 1, 59 if later > 60 else 0]))
            ops.append([k, m, now])
            x.last = t
            x.status = "PENDING" if i < x.repeat[0] else "COMPLETED"
            # the other alarms' live answers depend on when they were last asked
            continue
        if k == "trigon":
            op = [k, m, draw(spec(forms[:2].strip("F")))]
        elif k == "trigby":
            op = [k, m, draw(TRIGBY), draw(st.booleans()) if owner["start"] else False]
        elif k == "repeat":
            op = [k, m] + draw(REPEAT)
        elif k == "astatus":
            op = [k, m, draw(st.sampled_from(["PENDING", "PENDING", "COMPLETED", "DISABLED"]))]
        elif k in ("startend", "startdur"):
            s, n = draw(owner_timing(forms))
            op = [k, "o", s, shift(s, secs=n) if k == "startend" else n]
        elif k == "due":
            if any(y.trig[0] == "by" and y.trig[2] for y in models.values()):
                continue
            op = [k, "o", draw(spec(forms))]
        else:
            op = [k]
        apply(op, owner, models)
        ops.append(op)
    case["ops"] = ops
    return case


def apply(op, owner, models):
    k = op[0]
    if k == "trigon":
        models[op[1]].trig = ["on", op[2]]
    elif k == "trigby":
        models[op[1]].trig = ["by", op[2], op[3]]
    elif k == "repeat":
        models[op[1]].repeat = op[2:]
    elif k == "astatus":
        models[op[1]].status = op[2]
    elif k == "startend":
        owner.update(start=op[2], end=ep(op[3]))
    elif k == "startdur":
        owner.update(start=op[2], end=ep(op[2]) + op[3])
    elif k == "due":
        owner.update(start=None, end=ep(op[2]))


def run_alarms(J, case, rec):
    s, n = case["start"], case["len"]
    end = "DUE" if case["kind"] == "VTODO" else "DTEND"
    out = ["BEGIN:" + case["kind"], "COMMENT:o", "UID:o"]
    e = shift(s, secs=n)
    if case["how"] == "due":
        out.append(dline("DUE", e))
    else:
        out.append(dline("DTSTART", s))
        out += {"end": [dline(end, e)], "dur": ["DURATION:" + durtext(n)], "none": []}[case["how"]]
    for a in case["alarms"]:
        out += ["BEGIN:VALARM", "COMMENT:" + a["mark"], "ACTION:AUDIO", trig_line(a["trig"], a["style"])]
        if a["repeat"][0]:
            out += ["REPEAT:%d" % a["repeat"][0], "DURATION:" + durtext(a["repeat"][1])]
        if a["status"] != "PENDING" or a["style"] == 0:
            out.append("X-MULBERRY-ALARM-STATUS:" + a["status"])
        if a["last"] is not None:
            u = {"f": "Z", "t": utext(a["last"])[:-1]}
            if case["lastform"] == "N":
                u = {"f": "N", "t": tzdefs.from_utc(when(u), NY).strftime("%Y%m%dT%H%M%S")}
            out.append(dline("X-MULBERRY-LAST-TRIGGER", u).replace("TRIGGER", "TRIGGER;VALUE=DATE-TIME", 1))
        out.append("END:VALARM")
    out.append("END:" + case["kind"])
    text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + tzdefs.ZONES[NY] + out + ["END:VCALENDAR", ""])
    got = J.call("busy.alarms", text, case["ops"])
    owner = {"start": s if case["how"] != "due" else None, "end": ep(s) + n}
    models = {a["mark"]: Alarm(a, owner) for a in case["alarms"]}
    live = {}
    now = 0
    interesting = False
    for op, r in zip(case["ops"], got):
        k = op[0]
        if k == "clock":
            now = op[1]
        elif k == "trigger":
            now = op[2]
            m = models[op[1]]
            before = live.get(op[1])
            t, i = before[1], before[2]
            m.last = t
            m.status = "PENDING" if i < m.repeat[0] else "COMPLETED"
            more = m.status == "PENDING"
            expect(r["at"] == t, "next trigger before triggering", op=op, got=r["at"], want=t)
            expect(r["more"] is more, "triggering says whether there is another", op=op, got=r["more"], want=more)
            if more:
                expect(r["then"] == t + m.repeat[1], "triggering gives the next trigger", op=op, got=utext(r["then"]), want=utext(t + m.repeat[1]))
            expect(r["state"] == ["X-MULBERRY-ALARM-STATUS:" + m.status], "status written", op=op, got=r["state"], want=m.status)
            expect(len(r["last"]) == 1 and last_instant(r["last"][0]) == t, "last trigger written", op=op, got=r["last"], want=utext(t))
            interesting = True
        else:
            apply(op, owner, models)
            interesting = interesting or k not in ("reread", "copy")
        for m, x in models.items():
            w = x.at(now)
            show = dict(op=op, mark=m, now=utext(now), first=utext(x.first()), trigger=x.trig, repeat=x.repeat, last=x.last and utext(x.last))
            expect(r["fresh"][m]["first"] == x.first(), "first trigger", got=utext(r["fresh"][m]["first"]), **show)
            expect(r["live"][m]["first"] == x.first(), "first trigger of the live alarm", got=utext(r["live"][m]["first"]), **show)
            expect(not r["live"][m]["dateonly"], "a trigger is a time", **show)
            expect([r["fresh"][m]["status"], r["fresh"][m]["next"]] == list(w[:2]), "status and next trigger", got=r["fresh"][m], want=w, **show)
            # a live alarm answers as of when it last worked out its trigger
            redo = k in ("reread", "startend", "startdur", "due") or len(op) > 1 and op[1] == m and k != "clock"
            if redo or m not in live:
                live[m] = w
            elif live[m] != w and k == "copy":
                live[m] = None
            if live[m] == w:
                expect([r["live"][m]["status"], r["live"][m]["next"]] == list(w[:2]), "status and next trigger of the live alarm", got=r["live"][m], want=w, **show)
        rec.label(k)
    rec.nt(interesting and any(x.repeat[0] or x.trig[0] == "by" for x in models.values()))


def last_instant(l):
    m = re.fullmatch(r"X-MULBERRY-LAST-TRIGGER((?:;VALUE=DATE-TIME|;TZID=America/New_York|;VALUE=DATE)*):(\d{8}T\d{6})(Z?)", l)
    expect(m, "last trigger written", got=l)
    w = D.datetime.strptime(m.group(2), "%Y%m%dT%H%M%S")
    return epoch(tzdefs.to_utc(w, NY) if "TZID" in m.group(1) else w)


TESTS = [Test("busy", busy_cases(), run_busy, quick=2000, thorough=40000, shards=4),
         Test("alarms", alarm_cases(), run_alarms, quick=2500, thorough=40000, shards=4)]

"""Histories of edits through the API, with what the object says after each and what its written form says when read afresh."""
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.period import Period
from pycalendar.timezone import Timezone


def u8(s):
    return s.encode("utf-8")


def enc(v):
    return v.decode("utf-8") if isinstance(v, str) else v


EVENT = {"NONE": 0, "CONFIRMED": 1, "TENTATIVE": 2, "CANCELLED": 3}
TODO = {"NONE": 0, "NEEDS-ACTION": 1, "IN-PROCESS": 2, "COMPLETED": 3, "CANCELLED": 4}
ACTIONS = {"AUDIO": 0, "DISPLAY": 1, "EMAIL": 2, "PROCEDURE": 3, "URI": 5, "NONE": 6}
ALARM = {"PENDING": 0, "COMPLETED": 1, "DISABLED": 2}


class Args(object):
    """Makes the objects passed to an edit, and changes them afterwards."""

    def __init__(self):
        self.made = []

    def dt(self, d):
        t = d["t"]
        a = [int(t[0:4]), int(t[4:6]), int(t[6:8])]
        if d["f"] == "D":
            r = DateTime(*a)
        else:
            a += [int(t[9:11]), int(t[11:13]), int(t[13:15])]
            r = DateTime(*a, tzid={"F": None, "Z": Timezone(utc=True), "N": Timezone(tzid="America/New_York")}[d["f"]])
        self.made.append(r)
        return r

    def dur(self, s):
        r = Duration(duration=s)
        self.made.append(r)
        return r

    def rule(self, text):
        r = Recurrence()
        r.parse(str(text))
        self.made.append(r)
        return r

    def period(self, p):
        r = Period(start=self.dt(p[0]), duration=self.dur(p[1]))
        self.made.append(r)
        return r

    def spoil(self):
        for m in self.made:
            if isinstance(m, DateTime):
                m.offsetDay(3)
                if not m.isDateOnly():
                    m.offsetHours(1)
            elif isinstance(m, Duration):
                m.setDuration(77)
            elif isinstance(m, Recurrence):
                m.setInterval(7)
                m.setUseCount(True)
                m.setCount(2)


def mark(c):
    p = c.findFirstProperty("COMMENT")
    return None if p is None else p.getTextValue().getValue()


def walk(cal):
    for c in cal.getComponents():
        if mark(c):
            yield c
            for a in c.getComponents():
                if mark(a):
                    yield a


def dtx(d):
    return [d.getText(), d.getTimezoneID(), d.isDateOnly(), d.getTimezoneUTC()]


def opt(f, v):
    return None if v is None else f(v)


RANGE = ((2019, 12, 1), (2021, 3, 1))


def spans(cal):
    out = []
    p = Period(DateTime(*(RANGE[0] + (0, 0, 0))), DateTime(*(RANGE[1] + (0, 0, 0))))
    for c in cal.getComponents():
        if c.getType() not in ("VEVENT", "VTODO") or not c.hasStart():
            continue
        got = []
        c.expandPeriod(p, got)
        out += [[mark(c), mark(x.getOwner()), x.getInstanceStart().getText(), x.getInstanceEnd().getText(), x.recurring()] for x in got]
    return sorted(out)


def getters(c):
    t = c.getType()
    if t == "VALARM":
        d = c.getActionData()
        data = [d.getType()]
        for g in ("getSpeakText", "getDescription", "getSummary", "getURI"):
            if hasattr(d, g):
                v = getattr(d, g)()
                data.append([g, opt(enc, v)])
        if hasattr(d, "getAttendees"):
            data.append([enc(x) for x in d.getAttendees() or ()])
        r = {"action": c.getAction(), "data": data, "absolute": c.isTriggerAbsolute(), "repeats": c.getRepeats(), "status": c.getAlarmStatus(), "key": c.getMapKey()}
        if c.isTriggerAbsolute():
            r["on"] = dtx(c.getTriggerOn())
        else:
            r["by"] = c.getTriggerDuration().getTotalSeconds()
            r["onstart"] = c.isTriggerOnStart()
        if c.getRepeats() > 0:
            r["interval"] = c.getInterval().getTotalSeconds()
        return r
    r = {"uid": c.getUID(), "seq": c.getSeq(), "type": t, "key": c.getMapKey()}
    if t == "VFREEBUSY":
        r["hasstart"], r["hasend"], r["usedur"] = c.hasStart(), c.hasEnd(), c.useDuration()
        if c.hasStart():
            r["start"] = dtx(c.getStart())
            r["end"] = dtx(c.getEnd())
        return r
    r["summary"] = opt(enc, c.getSummary())
    r["description"] = enc(c.getDescription())
    r["location"] = enc(c.getLocation())
    r["hasstamp"] = c.hasStamp()
    if c.hasStamp():
        r["stamp"] = dtx(c.getStamp())
    r["hasstart"], r["hasend"], r["usedur"] = c.hasStart(), c.hasEnd(), c.useDuration()
    if c.hasStart():
        r["start"] = dtx(c.getStart())
    if c.hasEnd() or c.hasStart():
        r["end"] = dtx(c.getEnd())
    r["instance"] = [c.isRecurrenceInstance(), c.isAdjustFuture(), c.isAdjustPrior(), opt(dtx, c.getRecurrenceID())]
    r["recurring"] = c.isRecurring()
    s = c.getRecurrenceSet()
    if s is not None:
        r["set"] = [[x.getText() for x in s.getRules()], [x.getText() for x in s.getExrules()], sorted(dtx(x) for x in s.getDates()),
                    sorted(dtx(x) for x in s.getExdates()), sorted(x.getText() for x in s.getPeriods()), s.isSimpleUI(), s.isAdvancedUI(), s.getUIDescription(), opt(lambda x: x.getText(), s.getUIRecurrence())]
        if not any(r["set"][:5]):
            # a set without anything in it is the same as none
            del r["set"]
    if t in ("VEVENT", "VTODO"):
        r["status"] = c.getStatus()
    if t == "VTODO":
        r["priority"] = c.getPriority()
        r["state"] = c.getCompletionState()
        r["hascompleted"] = c.hasCompleted()
        if c.hasCompleted():
            r["completed"] = dtx(c.getCompleted())
    return r


def sets_equal(cal, fresh):
    """The library's own comparison of recurrence sets"""
    other = dict((mark(c), c) for c in walk(fresh))
    out = []
    for c in walk(cal):
        if hasattr(c, "getRecurrenceSet") and c.getRecurrenceSet() is not None:
            a, b = c.getRecurrenceSet(), other[mark(c)].getRecurrenceSet()
            if b is None:
                # a set without anything in it is the same as none
                out.append(not any(x() for x in (a.getRules, a.getExrules, a.getDates, a.getExdates, a.getPeriods)))
            else:
                out.append(a.equals(b) and b.equals(a))
    return all(out)


def look(cal):
    text = cal.getText(includeTimezones=Calendar.NO_TIMEZONES)
    fresh = Calendar.parseText(text)
    r = {"text": enc(text), "again": fresh.getText(includeTimezones=Calendar.NO_TIMEZONES) == text, "equal": cal == fresh and fresh == cal,
         "get": dict((mark(c), getters(c)) for c in walk(cal)), "fresh": dict((mark(c), getters(c)) for c in walk(fresh)),
         "name": [enc(cal.getName()), enc(cal.getDescription())], "freshname": [enc(fresh.getName()), enc(fresh.getDescription())],
         "spans": spans(cal), "freshspans": spans(fresh), "sets": sets_equal(cal, fresh)}
    return r


def edit(cal, op, a):
    k = op[0]
    if k == "name":
        return cal.editName(u8(op[1]))
    if k == "desc":
        return cal.editDescription(u8(op[1]))
    if k == "uid":
        return cal.changeUID(str(op[1]), str(op[2]))
    if k == "look":
        return spans(cal)
    c = [x for x in walk(cal) if mark(x) == op[1]][0]
    v = op[2:]
    if k == "summary":
        c.editSummary(opt(u8, v[0]))
    elif k == "details":
        c.editDetails(opt(u8, v[0]), opt(u8, v[1]))
    elif k == "timing":
        c.editTiming()
    elif k == "due":
        c.editTimingDue(a.dt(v[0]))
    elif k == "startend":
        c.editTimingStartEnd(a.dt(v[0]), a.dt(v[1]))
    elif k == "startdur":
        c.editTimingStartDuration(a.dt(v[0]), a.dur(v[1]))
    elif k == "recur":
        s = RecurrenceSet()
        for x in v[0]:
            s.addRule(a.rule(x))
        for x in v[1]:
            s.subtractRule(a.rule(x))
        for x in v[2]:
            s.addDT(a.dt(x))
        for x in v[3]:
            s.addPeriod(a.period(x))
        for x in v[4]:
            s.subtractDT(a.dt(x))
        c.editRecurrenceSet(s)
    elif k == "exclude":
        c.excludeRecurrence(a.dt(v[0]))
    elif k == "future":
        c.excludeFutureRecurrence(a.dt(v[0]))
    elif k == "status":
        c.editStatus((EVENT if c.getType() == "VEVENT" else TODO)[v[0]])
    elif k == "completed":
        c.editCompleted(a.dt(v[0]))
    elif k == "seq":
        was = c.getOriginalSeq()
        c.setSeq(v[0])
        d = c.duplicate()
        a.seq = [was, c.getOriginalSeq(), d.getOriginalSeq(), c.getSeq(), d.getSeq()]
    elif k == "stamp":
        c.initDTSTAMP()
    elif k == "modified":
        c.updateLastModified()
    elif k == "drop":
        c.removeProperties(str(v[0]))
        c.finalise()
    elif k == "put":
        c.removeProperties(str(v[0]).split(":")[0].split(";")[0])
        c.addProperty(Property.parseText(u8(v[0])))
        c.finalise()
    elif k == "action":
        t = lambda x: opt(u8, x)
        if v[0] == "AUDIO":
            d = VAlarm.VAlarmAudio(t(v[1]))
        elif v[0] == "DISPLAY":
            d = VAlarm.VAlarmDisplay(t(v[1]))
        elif v[0] == "EMAIL":
            d = VAlarm.VAlarmEmail(t(v[1]), t(v[2]), None if v[3] is None else [u8(x) for x in v[3]])
        elif v[0] == "URI":
            d = VAlarm.VAlarmURI(t(v[1]))
        elif v[0] == "NONE":
            d = VAlarm.VAlarmNone()
        else:
            d = VAlarm.VAlarmUnknown()
        c.editAction(ACTIONS[v[0]], d)
    elif k == "trigon":
        c.editTriggerOn(a.dt(v[0]))
    elif k == "trigby":
        c.editTriggerBy(a.dur(v[0]), v[1])
    elif k == "repeat":
        c.editRepeats(v[0], a.dur(v[1]))
    elif k == "astatus":
        c.editStatus(ALARM[v[0]])
    else:
        raise AssertionError(k)


def history(text, ops, copy):
    cal = Calendar.parseText(u8(text))
    first = look(cal)
    out = []
    for n, op in enumerate(ops):
        if n == copy:
            cal = cal.duplicate()
        a = Args()
        edit(cal, op, a)
        a.spoil()
        out.append(look(cal))
        if op[0] == "seq":
            out[-1]["seqs"] = a.seq
    return {"first": first, "looks": out}

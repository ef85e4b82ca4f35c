"""Free-busy of calendars, and alarm triggers under a clock the check sets."""
import time

from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.vfreebusy import VFreeBusy
from pycalendar.period import Period

import edits

TYPES = {FreeBusy.FREE: "FREE", FreeBusy.BUSY: "BUSY", FreeBusy.BUSYTENTATIVE: "BUSY-TENTATIVE", FreeBusy.BUSYUNAVAILABLE: "BUSY-UNAVAILABLE"}
STATES = {0: "PENDING", 1: "COMPLETED", 2: "DISABLED"}
mark = edits.mark


class Clock(object):
    """time.time() as the library sees it"""

    def __init__(self):
        self.real = time.time
        self.now = 0

    def __enter__(self):
        time.time = self
        return self

    def __call__(self):
        return self.now

    def __exit__(self, *a):
        time.time = self.real


def instant(d):
    return int(d.getPosixTime())


def item(fb):
    return [TYPES.get(fb.getType(), fb.getType()), instant(fb.getPeriod().getStart()), instant(fb.getPeriod().getEnd())]


def ask(cal, rng):
    a, b = [DateTime.parseText(str(x)) for x in rng]
    r = {}
    fb = []
    cal.getFreeBusy(Period(a, b), fb)
    r["items"] = [item(f) for f in fb]
    # what was handed out is the caller's
    for f in fb:
        f.setType(FreeBusy.FREE)
        f.getPeriod().getStart().offsetDay(-400)
    listed = []
    cal.getVFreeBusyList(Period(a, b), listed)
    r["listed"] = [mark(c) for c in listed]
    r["parts"] = {}
    for c in cal.getComponents("VFREEBUSY"):
        fb = []
        c.expandPeriodFB(Period(a, b), fb)
        r["parts"][mark(c)] = [item(f) for f in fb]
        fb = []
        for f in (c.getBusyTime() or ()):
            fb.append(item(f))
        r["parts"][mark(c)] = [r["parts"][mark(c)], fb]
    comp = VFreeBusy(parent=cal)
    cal.getVFreeBusyFB(Period(a, b), comp)
    r["made"] = [x.rstrip("\r\n") for x in (str(p) for p in comp.getProperties("FREEBUSY"))]
    return r


def busy(text, ops):
    cal = Calendar.parseText(edits.u8(text))
    out = []
    for op in ops:
        k = op[0]
        if k == "ask":
            out.append(ask(cal, op[1]))
            continue
        if k == "copy":
            cal = cal.duplicate()
        else:
            c = [x for x in cal.getComponents() if mark(x) == op[1]][0]
            if k == "add":
                c.addProperty(Property.parseText(str(op[2])))
                c.finalise()
            elif k == "drop":
                c.removeProperties(str(op[2]))
                c.finalise()
            elif k == "startend":
                a = edits.Args()
                c.editTimingStartEnd(a.dt(op[2]), a.dt(op[3]))
                a.spoil()
            elif k == "status":
                c.editStatus(edits.EVENT[op[2]])
            elif k == "remove":
                cal.removeComponent(c)
            else:
                raise AssertionError(k)
    return out


# ---------------------------------------------------------------- alarms
def trigger(a):
    d = DateTime()
    a.getNextTrigger(d)
    f = DateTime()
    a.getFirstTrigger(f)
    status = STATES.get(a.getAlarmStatus())
    return {"status": status, "next": None if status == "COMPLETED" else instant(d), "first": instant(f), "dateonly": f.isDateOnly()}


def find(cal, m):
    return [x for x in edits.walk(cal) if mark(x) == m][0]


def alarms(text, ops):
    cal = Calendar.parseText(edits.u8(text))
    out = []
    with Clock() as clock:
        for op in ops:
            k = op[0]
            r = {}
            if k == "clock":
                clock.now = op[1] + 0.25
            elif k == "reread":
                cal = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
            elif k == "copy":
                cal = cal.duplicate()
            elif k == "trigger":
                clock.now = op[2] + 0.75
                a = find(cal, op[1])
                d = DateTime()
                a.getNextTrigger(d)
                r["at"] = instant(d)
                r["more"] = a.alarmTriggered(d)
                r["then"] = instant(d)
                d.offsetDay(9)
                r["last"] = [str(p).rstrip("\r\n") for p in a.getProperties("X-MULBERRY-LAST-TRIGGER")]
                r["state"] = [str(p).rstrip("\r\n") for p in a.getProperties("X-MULBERRY-ALARM-STATUS")]
            else:
                args = edits.Args()
                edits.edit(cal, op, args)
                args.spoil()
            fresh = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
            ms = [mark(x) for x in edits.walk(cal) if x.getType() == "VALARM"]
            r["fresh"] = dict((m, trigger(find(fresh, m))) for m in ms)
            r["live"] = dict((m, trigger(find(cal, m))) for m in ms)
            out.append(r)
    return out

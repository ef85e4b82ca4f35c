"""Whole-calendar operations."""
from cStringIO import StringIO
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.timezone import Timezone


def u8(t):
    return t.encode("utf-8") if isinstance(t, unicode) else t


def dt(text, tzid=None):
    d = DateTime.parseText(u8(text))
    if tzid:
        d.setTimezoneID(u8(tzid))
    return d


def parse(text):
    return Calendar.parseText(u8(text))


def stamp(d):
    """[UTC seconds, date-only?, wall text]"""
    return [int(d.getPosixTime()), bool(d.isDateOnly()), d.getText()]


def events(text, ranges, allday_top=True):
    cal = parse(text)
    out = []
    for a, b in ranges:
        items = []
        cal.getVEvents(Period(dt(a), dt(b)), items, allday_top)
        out.append([[i.getOwner().loadValueString("SUMMARY"), stamp(i.getInstanceStart()), stamp(i.getInstanceEnd()), bool(i.recurring())] for i in items])
    return out


def derive(text, rids, ranges):
    """Derive each recurrence-id from a fresh calendar; what it is and what it did."""
    out = []
    for r, tzid in rids:
        cal = parse(text)
        before = cal.getText()
        d = cal.deriveComponent(dt(r, tzid))
        after = cal.getText()
        if d is None:
            out.append(None)
            continue
        item = {"text": str(d), "same": before == after, "start": stamp(d.getStart()), "end": stamp(d.getEnd()), "recurring": bool(d.isRecurring())}
        # the derived component stands in for the instance
        cal = parse(text)
        a = _exp(cal, ranges)
        cal.addComponent(cal.deriveComponent(dt(r, tzid)))
        item["before"] = a
        item["after"] = _exp(cal, ranges)
        # its properties are its own: moving the start leaves the recurrence-id
        d.loadValueDateTime("DTSTART").offsetDay(3)
        item["rid_after"] = d.loadValueDateTime("RECURRENCE-ID").getText()
        # asking again gives the same, also after use
        item["again"] = str(parse(text).deriveComponent(dt(r, tzid))) == item["text"]
        out.append(item)
    return out


def _exp(cal, ranges):
    res = []
    for a, b in ranges:
        items = []
        cal.getVEvents(Period(dt(a), dt(b)), items, False)
        res.append(sorted([[i.getOwner().loadValueString("SUMMARY"), stamp(i.getInstanceStart()), stamp(i.getInstanceEnd())] for i in items]))
    return res

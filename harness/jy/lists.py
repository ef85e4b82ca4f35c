"""Lists for display: events, to-dos, months and dates, under a clock the check sets."""
import time

from pycalendar import utils
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.period import Period
from pycalendar.timezone import Timezone

import edits
from busy import Clock

mark = edits.mark


def local_day(now):
    t = time.localtime(now)
    return "%04d%02d%02d" % (t.tm_year, t.tm_mon, t.tm_mday)


def form(d):
    tz = "Z" if d.getTimezoneUTC() else (d.getTimezoneID() or "")
    return [d.getText(), tz, bool(d.isDateOnly())]


def months(asks, now):
    out = []
    with Clock() as clock:
        clock.now = now
        for month, year, weekstart in asks:
            table, today = utils.getMonthTable(month, year, weekstart, None, None)
            rows = []
            for row in table:
                cells = []
                for c in row:
                    u = [0, 0, 0]
                    utils.unpackDate(c, u)
                    assert u == [utils.unpackDateYear(c), utils.unpackDateMonth(c), utils.unpackDateDay(c)]
                    cells.append(u)
                rows.append(cells)
            out.append([rows, list(today)])
        day = local_day(now)
    return {"tables": out, "today": day}


def events(text, rng, top, now, given):
    cal = Calendar.parseText(text.encode("utf-8"))
    a, b = [DateTime.parseText(str(x)) for x in rng]
    with Clock() as clock:
        clock.now = now
        items = []
        cal.getVEvents(Period(a, b), items, top) if given else cal.getVEvents(Period(a, b), items)
        out = [[mark(i.getOwner()), form(i.getInstanceStart()), form(i.getInstanceEnd()), bool(i.isNow()), i.getMaster() is i.getOwner(), mark(i.getTrueMaster())] for i in items]
        copies = [i.duplicate() for i in items]
        same = [[mark(i.getOwner()), form(i.getInstanceStart()), form(i.getInstanceEnd()), bool(i.isNow()), i.getMaster() is i.getOwner(), mark(i.getTrueMaster())] for i in copies]
    return {"items": out, "copies": same}


def todos(text, now, asks):
    cal = Calendar.parseText(text.encode("utf-8"))
    out = []
    with Clock() as clock:
        clock.now = now
        r = {"state": [], "asks": [], "today": local_day(now)}
        comps = cal.getComponents("VTODO")
        for c in comps:
            r["state"].append([mark(c), c.getCompletionState(), c.getStatusText(), c.getStatus()])
        for only_due, all_dates, upto in asks:
            got = []
            cal.getVToDos(only_due, all_dates, DateTime.parseText(str(upto)), got)
            r["asks"].append([mark(i.getOwner()) for i in got])
        every = []
        cal.getVToDos(False, True, None, every)
        r["cmp"] = [[cmp(VToDo.sort_for_display(x, y), 0) for y in every] for x in every]
        r["names"] = [mark(i.getOwner()) for i in every]
        lists = []
        for step in (1, -1):
            l = every[::step]
            l.sort(VToDo.sort_for_display)
            lists.append([mark(i.getOwner()) for i in l])
        r["sorted"] = lists
    return r


def show(text, kind, tzid, zone):
    if zone:
        Calendar.parseText(zone.encode("utf-8"))
    d = DateTime.parseText(str(text), fullISO=kind == "offset")
    if kind == "tzid":
        d.setTimezoneID(str(tzid))
    r = {"dates": [d.getLocaleDate(f) for f in (DateTime.FULLDATE, DateTime.ABBREVDATE, DateTime.NUMERICDATE, DateTime.FULLDATENOYEAR, DateTime.ABBREVDATENOYEAR, DateTime.NUMERICDATENOYEAR)],
         "months": [d.getMonthText(True), d.getMonthText(False)], "day": d.getDayOfWeekText(d.getDayOfWeek()), "times": [], "both": []}
    for secs in (False, True):
        for ampm in (False, True):
            for tz in (False, True):
                t = d.getTime(secs, ampm, tz)
                r["times"].append(t)
                r["both"].append([d.getLocaleDateTime(f, secs, ampm, tz) for f in range(6)])
    r["desc"] = d.timeZoneDescriptor()
    r["text"] = d.getText()
    return r


def default_zone(ids):
    """what the manager says the default time zone is, after each setting"""
    from pycalendar.manager import CalendarManager
    m = CalendarManager.sICalendarManager
    out = []
    for t in ids:
        m.setDefaultTimezoneID(str(t))
        a = Timezone()
        out.append([m.getDefaultTimezoneID(), bool(m.getDefaultTimezone().getUTC()), m.getDefaultTimezone().getTimezoneID(), bool(a.getUTC()), a.getTimezoneID()])
    return out

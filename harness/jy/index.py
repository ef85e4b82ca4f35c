"""Histories over the components of one calendar."""
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.period import Period


def make(cal, kind, uid, rid, mark, extra):
    c = Component.makeComponent(str(kind), cal)
    c.addProperty(Property("COMMENT", str(mark)))
    c.addProperty(Property("TZID" if kind == "VTIMEZONE" else "UID", str(uid)))
    c.addProperty(Property("DTSTART", DateTime(2020, 1, 1 + extra, 10, 0, 0)))
    if rid is not None:
        c.addProperty(Property("RECURRENCE-ID", DateTime(2020, 1, 1 + rid, 10, 0, 0)))
    elif extra == 0:
        c.addProperty(Property.parseText("RRULE:FREQ=DAILY;COUNT=6"))
    c.finalise()
    return c


def mark(c):
    p = c.findFirstProperty("COMMENT")
    return None if p is None else p.getTextValue().getValue()


def marks(cs):
    return [mark(c) for c in cs]


def spans(cal):
    out = []
    cal.getVEvents(Period(DateTime(2019, 12, 1, 0, 0, 0), DateTime(2020, 3, 1, 0, 0, 0)), out)
    return sorted([mark(x.getOwner()), x.getInstanceStart().getText(), x.getInstanceEnd().getText()] for x in out)


def look(cal, uids):
    r = {"all": marks(cal.getComponents()), "types": dict((t, marks(cal.getComponents(t))) for t in ("VEVENT", "vtodo", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "X-COMP"))}
    r["count"] = dict((t, [cal.countComponents(t), cal.hasComponent(t)]) for t in ("vevent", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "X-COMP"))
    m = cal.masterComponent()
    r["master"] = None if m is None else mark(m)
    r["items"], r["ids"] = {}, {}
    for u in uids:
        items, ids = [], []
        cal.getRecurrenceInstancesItems("VEVENT", str(u), items)
        cal.getRecurrenceInstancesIds("VEVENT", str(u), ids)
        r["items"][u] = sorted(marks(items))
        r["ids"][u] = sorted(i.getText() for i in ids)
        assert all(any(i is c for c in cal.getComponents()) for i in items), "an instance that is not in the calendar"
    maps = getattr(cal, "mMasterComponentsByTypeAndUID", None)
    if maps is not None:
        r["masters"] = sorted([t, u, mark(c) if c else None] for t, us in maps.items() for u, c in us.items())
    over = getattr(cal, "mOverriddenComponentsByUID", None)
    if over is not None:
        r["overs"] = sorted([u, mark(c)] for u, cs in over.items() for c in cs)
    r["uids"] = dict((mark(c), c.getUID()) for c in cal.getComponents() if c.getType() != "VTIMEZONE")
    r["keys"] = dict((mark(c), mark(cal.getComponentByKey(c.getMapKey()))) for c in cal.getComponents())
    r["text"] = cal.getText(includeTimezones=Calendar.NO_TIMEZONES)
    r["parents"] = all(c.getParentComponent() is cal for c in cal.getComponents())
    r["spans"] = spans(cal)
    r["fresh"] = spans(Calendar.parseText(r["text"]))
    return r


def history(ops, uids):
    cal = Calendar()
    held = {}
    old = []
    out = []
    for op in ops:
        k = op[0]
        if k == "add":
            c = make(cal, *op[1:])
            held[op[4]] = c
            cal.addComponent(c)
        elif k == "remove":
            cal.removeComponent(held.pop(op[1]))
        elif k == "bykey":
            c = held.pop(op[1])
            cal.removeComponentByKey(c.getMapKey())
        elif k == "all":
            if op[1] is None:
                cal.removeAllComponent()
            else:
                cal.removeAllComponent(str(op[1]))
            held = dict((m, c) for m, c in held.items() if m not in op[2])
        elif k == "uid":
            cal.changeUID(str(op[1]), str(op[2]))
        elif k == "copy":
            old.append([cal, cal.getText()])
            cal = cal.duplicate()
            held = dict((mark(c), c) for c in cal.getComponents())
        elif k == "parse":
            cal = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
            held = dict((mark(c), c) for c in cal.getComponents())
        elif k == "back":
            # a component taken out and put in again
            c = held[op[1]]
            cal.removeComponent(c)
            cal.addComponent(c)
        out.append(look(cal, uids))
    return {"looks": out, "old": all(c.getText() == t for c, t in old)}


def made(asks):
    """components whose UIDs the library makes up, at the times given"""
    from busy import Clock
    cal = Calendar()
    out = []
    with Clock() as clock:
        for i, (kind, now, had, none) in enumerate(asks):
            clock.now = now
            c = make(cal, kind, str(had or "x"), None, "m%d" % i, 0)
            if not had:
                c.removeProperties("UID")
            c.setUID(None if none else "")
            cal.addComponent(c)
            again = cal.getComponentByKey(c.getMapKey())
            out.append([c.getUID(), again is c, [p.getTextValue().getValue() for p in c.getProperties("UID")]])
    back = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
    return {"made": out, "back": dict((mark(c), c.getUID()) for c in back.getComponents())}

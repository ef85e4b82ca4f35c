"""Time zone definitions: offsets, names and transition lists."""
from cal import u8, parse, dt


def _find(cal):
    from pycalendar.icalendar import definitions
    return cal.getComponents(definitions.cICalComponent_VTIMEZONE)[0]


def queries(text, ops, cache=None):
    from pycalendar.icalendar.vtimezone import VTimezone
    VTimezone.UTCOFFSET_CACHE_MAX_ENTRIES = cache or 100000
    cal = parse(text)
    tz = _find(cal)
    out = []
    for op in ops:
        k = op[0]
        if k == "offset":
            out.append(tz.getTimezoneOffsetSeconds(dt(op[1]), op[2]))
        elif k == "name":
            out.append(tz.getTimezoneDescriptor(dt(op[1])))
        elif k == "list":
            r = tz.expandAll(dt(op[1]) if op[1] else None, dt(op[2]), op[3])
            out.append([[i[0].getText(), i[1].getText()] + list(i[2:]) for i in r])
        elif k == "dup":
            tz = tz.duplicate()
            out.append(None)
        elif k in ("add", "drop"):
            c = _find(parse(op[1])).getComponents()[0]
            if k == "add":
                tz.addComponent(c.duplicate(tz))
            else:
                tz.removeComponent([x for x in tz.getComponents() if str(x) == str(c)][0])
            out.append(None)
        elif k == "key":
            tz.getUTCOffsetSortKey()
            out.append(None)
        elif k == "cal":
            out.append([cal.getTimezoneOffsetSeconds(tz.getID(), dt(op[1]), op[2]), cal.getTimezoneDescriptor(tz.getID(), dt(op[1]))])
        elif k == "text":
            out.append(str(tz))
    return out

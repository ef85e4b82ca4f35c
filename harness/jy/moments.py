"""Comparing and converting date-times."""
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from cal import u8, parse


def tzof(z):
    if z == "utc":
        return Timezone(utc=True)
    if z is None:
        return Timezone(utc=False)
    return Timezone(utc=False, tzid=z if isinstance(z, int) else u8(z))


def mk(v):
    """v = [y, m, d, H, M, S] or [y, m, d], zone, how"""
    f, z, how = v
    if how == "text" and len(f) == 6 and isinstance(z, int):
        o = abs(z)
        return DateTime.parseText("%04d-%02d-%02dT%02d:%02d:%02d" % tuple(f) + "%s%02d:%02d" % ("-" if z < 0 else "+", o // 3600, o // 60 % 60), True)
    if how == "text":
        t = "%04d%02d%02d" % tuple(f[:3]) + ("T%02d%02d%02d" % tuple(f[3:]) if len(f) > 3 else "") + ("Z" if z == "utc" else "")
        d = DateTime.parseText(t)
        if z not in (None, "utc"):
            d.setTimezoneID(u8(z))
        return d
    if len(f) == 3:
        return DateTime(*f)
    return DateTime(*f, tzid=tzof(z)) if z is not None else DateTime(*f)


def compare(zones, vals, warm):
    cal = parse(zones)
    ds = [mk(v) for v in vals]
    for i in warm:
        ds[i].getPosixTime()
        ds[i].timeZoneSecondsOffset()
    n = range(len(ds))
    out = [[[cmp(ds[i].compareDateTime(ds[j]), 0), bool(ds[i] == ds[j]), bool(ds[i] != ds[j]), bool(ds[i] < ds[j]), bool(ds[i] > ds[j]), bool(ds[i] <= ds[j]), bool(ds[i] >= ds[j]),
             hash(ds[i]) == hash(ds[j]), (ds[i] - ds[j]).getTotalSeconds(), bool(ds[i].compareDate(ds[j])), cmp(DateTime.sort(ds[i], ds[j]), 0)] for j in n] for i in n]
    return {"pairs": out, "posix": [int(d.getPosixTime()) for d in ds], "sorted": [ds.index(x) for x in sorted(ds)], "again": [int(d.getPosixTime()) for d in ds], "text": [d.getText() for d in ds]}


def obs(d):
    z = "utc" if d.getTimezoneUTC() else d.getTimezoneID()
    return [d.getXMLText()[:19], z if not isinstance(z, long) else int(z), int(d.getPosixTime()), bool(d.utc()), bool(d.local()), bool(d.floating())]


def history(zones, val, ops):
    cal = parse(zones)
    d = mk(val)
    out = []
    for op in ops:
        k = op[0]
        keep = None
        if k == "utc":
            d.adjustToUTC()
        elif k == "dupUTC":
            keep = d
            d = d.duplicateAsUTC()
        elif k == "zone":
            d.adjustTimezone(tzof(op[1]))
        elif k == "adjusted":
            keep = d
            d = d.getAdjustedTime(tzof(op[1]))
        elif k == "set":
            d.setTimezone(tzof(op[1]))
        elif k == "setid":
            d.setTimezoneID(u8(op[1]))
        elif k == "setutc":
            d.setTimezoneUTC(True)
        elif k == "dup":
            keep = d
            d = d.duplicate()
        elif k == "posix":
            d.getPosixTime()
        elif k == "hash":
            hash(d)
        elif k == "offset":
            out.append(int(d.timeZoneSecondsOffset()))
            continue
        elif k == "hms":
            d.setHHMMSS(*op[1])
        elif k == "ymd":
            d.setYYMMDD(*op[1])
        elif k == "day":
            d.offsetDay(op[1])
        elif k == "hour":
            d.offsetHours(op[1])
        elif k == "minutes":
            d.setMinutes(op[1])
        elif k == "add":
            keep = d
            d = d + Duration(op[1])
        elif k == "sub":
            keep = d
            d = d - Duration(op[1])
        elif k == "equals":
            bool(d == mk(val))
        out.append([obs(d) if op[-1] != "quiet" else None, obs(keep) if keep is not None else None])
    return {"ops": out, "end": obs(d)}


def defaults(zones, vals, ops):
    """date-times asked for their instant while the default time zone changes"""
    from pycalendar.manager import CalendarManager
    m = CalendarManager.sICalendarManager
    was = Timezone.sDefaultTimezone
    cal = parse(zones)
    ds = [mk(v) for v in vals]
    out = []
    try:
        m.setDefaultTimezone(Timezone(utc=True))
        for op in ops:
            k = op[0]
            if k == "default":
                if op[2] == "id":
                    m.setDefaultTimezoneID("UTC" if op[1] == "utc" else u8(op[1]))
                else:
                    m.setDefaultTimezone(tzof(op[1]))
                out.append([m.getDefaultTimezoneID(), Timezone().getTimezoneID(), bool(Timezone().getUTC())])
                continue
            d = ds[op[1]]
            if k == "posix":
                out.append(int(d.getPosixTime()))
            elif k == "offset":
                out.append(int(d.timeZoneSecondsOffset()))
            elif k == "name":
                o = d.duplicate()
                o.setTimezone(Timezone())
                out.append([d.timeZoneDescriptor(), o.timeZoneDescriptor()])
            elif k == "hash":
                out.append(hash(d) == hash(mk([[d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds()], "utc" if d.getTimezoneUTC() else d.getTimezoneID(), "init"])))
            elif k == "dup":
                ds[op[1]] = d.duplicate()
                out.append(None)
            elif k == "day":
                d.offsetDay(op[2])
                out.append(None)
            elif k == "here":
                d.setTimezone(Timezone())
                out.append(None)
            elif k == "utc":
                d.adjustToUTC()
                out.append(None)
            elif k == "float":
                d.adjustTimezone(Timezone(utc=False))
                out.append(None)
            elif k == "minus":
                out.append(int((d - ds[op[2]]).getTotalSeconds()))
        return {"ops": out, "end": [d.getText() for d in ds]}
    finally:
        Timezone.sDefaultTimezone = was

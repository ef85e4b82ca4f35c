# Operations on DateTime / Duration / Period / UTCOffsetValue for the harness.
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.icalendar import definitions
import cStringIO as StringIO

FREQ = {
    "SECONDLY": definitions.eRecurrence_SECONDLY, "MINUTELY": definitions.eRecurrence_MINUTELY,
    "HOURLY": definitions.eRecurrence_HOURLY, "DAILY": definitions.eRecurrence_DAILY,
    "WEEKLY": definitions.eRecurrence_WEEKLY, "MONTHLY": definitions.eRecurrence_MONTHLY,
    "YEARLY": definitions.eRecurrence_YEARLY,
}


def mk(f):
    y, m, d, H, M, S, kind = f
    tz = None
    if kind == "utc":
        tz = Timezone(utc=True)
    if kind == "date":
        return DateTime(y, m, d)
    return DateTime(y, m, d, H, M, S, tzid=tz)


def fields(dt):
    return [dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds(), bool(dt.isDateOnly())]


def run(init, ops):
    """Apply ops to one DateTime, recording the fields after each op and the answer of each query."""
    dt = mk(init)
    out = []
    for op in ops:
        name, args = op[0], op[1:]
        ans = None
        if name.startswith("offset"):
            getattr(dt, str(name))(args[0])
        elif name in ("setYear", "setMonth", "setDay", "setHours", "setMinutes", "setSeconds"):
            getattr(dt, str(name))(args[0])
        elif name in ("setYYMMDD", "setHHMMSS"):
            getattr(dt, str(name))(*args)
        elif name == "setDateOnly":
            dt.setDateOnly(args[0])
        elif name == "add":
            dt = dt + Duration(duration=args[0])
        elif name == "sub":
            dt = dt - Duration(duration=args[0])
        elif name == "subdt":
            other = mk(args[0])
            ans = [(dt - other).getTotalSeconds(), (other - dt).getTotalSeconds()]
        elif name == "dup":
            dt2 = dt.duplicate()
            dt.offsetDay(3)
            dt = dt2
        elif name in ("setYearDay", "setMonthDay", "setWeekNo"):
            getattr(dt, str(name))(args[0])
        elif name == "setDayOfWeekInYear":
            dt.setDayOfWeekInYear(args[0], args[1])
        elif name == "setDayOfWeekInMonth":
            dt.setDayOfWeekInMonth(args[0], args[1])
        elif name == "setNextDayOfWeek":
            dt.setNextDayOfWeek(args[0], args[1])
        elif name == "recur":
            dt.recur(FREQ[args[0]], args[1], allow_invalid=True)
        elif name == "q_posix":
            ans = dt.getPosixTime()
        elif name == "q_dow":
            ans = dt.getDayOfWeek()
        elif name == "q_yday":
            ans = dt.getYearDay()
        elif name == "q_week":
            ans = dt.getWeekNo()
        elif name == "q_invalid":
            ans = bool(dt.invalid())
        elif name == "q_isMonthDay":
            ans = bool(dt.isMonthDay(args[0]))
        elif name == "q_isWeekNo":
            ans = bool(dt.isWeekNo(args[0]))
        elif name == "q_isDayOfWeekInMonth":
            ans = bool(dt.isDayOfWeekInMonth(args[0], args[1]))
        elif name == "q_text":
            ans = [dt.getText(), dt.getXMLText()]
            p1 = DateTime.parseText(ans[0])
            p2 = DateTime.parseText(ans[1], True)
            p3 = DateTime.parseText(ans[0], True)
            ans = ans + [fields(p1) + [bool(p1.utc())], fields(p2) + [bool(p2.utc())], fields(p3) + [bool(p3.utc())]]
        elif name == "q_locale":
            ans = [dt.getLocaleDate(DateTime.FULLDATE), dt.getLocaleDate(DateTime.ABBREVDATE), dt.getLocaleDate(DateTime.NUMERICDATE),
                   dt.getLocaleDate(DateTime.FULLDATENOYEAR), dt.getLocaleDate(DateTime.ABBREVDATENOYEAR), dt.getLocaleDate(DateTime.NUMERICDATENOYEAR),
                   dt.getTime(True, False, False), dt.getTime(False, True, False)]
        elif name == "q_compareDate":
            ans = bool(dt.compareDate(mk(args[0])))
        else:
            raise RuntimeError("bad op %s" % name)
        out.append([fields(dt), ans])
    return out


def run_many(jobs):
    return [run(*j) for j in jobs]

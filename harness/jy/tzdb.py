"""Histories of the time zone database, over a scratch directory. Octets travel as latin-1 text."""
import os
import shutil
import tempfile
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar import definitions
from pycalendar.icalendar.property import Property
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase


def b(t):
    return t.encode("latin-1")


def zone(tzid, tag, offset):
    tag = str(tag)
    return ("BEGIN:VTIMEZONE\r\nTZID:%s\r\nX-TAG:%s\r\nBEGIN:STANDARD\r\nDTSTART:19000101T000000\r\nTZNAME:%s\r\nTZOFFSETFROM:+0000\r\nTZOFFSETTO:%s\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
            % (tzid.replace("\\", "\\\\").replace("\n", "\\n").replace(",", "\\,").replace(";", "\\;"), tag, tag, "%s%02d%02d" % ("-" if offset < 0 else "+", abs(offset) // 60, abs(offset) % 60)))


def vcal(body):
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//x//y//EN\r\n" + body + "END:VCALENDAR\r\n"


def tag(tz):
    if tz is None:
        return None
    p = tz.getProperties("X-TAG")
    return [tz.getID(), p[0].getTextValue().getValue() if p else None]


def history(files, dirs, ops):
    """files: [relative path, tzid ("{root}" stands for the scratch root) or None, tag, offset, raw text]"""
    root = os.path.realpath(tempfile.mkdtemp(prefix="tzdb"))
    cwd = os.getcwd()
    saved = TimezoneDatabase.sTimezoneDatabase
    try:
        def real(s):
            return b(s).replace("{root}", root)
        for d in dirs:
            os.makedirs(os.path.join(root, d))
        for path, tzid, t, off, raw in files:
            p = os.path.join(root, b(path))
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            f = open(p, "wb")
            f.write(b(raw) if tzid is None else vcal(zone(real(tzid), t, off)))
            f.close()
        os.chdir(os.path.join(root, "db"))
        TimezoneDatabase.sTimezoneDatabase = None
        out = []
        for op in ops:
            k = op[0]
            try:
                if k == "create":
                    TimezoneDatabase.createTimezoneDatabase(None if op[1] is None else real(op[1]))
                    r = None
                elif k == "clear":
                    r = TimezoneDatabase.clearTimezoneDatabase()
                elif k in ("putfile", "rmfile"):
                    p = os.path.join(root, b(op[1]), b(op[2]) + ".ics")
                    if k == "rmfile":
                        if os.path.exists(p):
                            os.remove(p)
                    else:
                        if not os.path.isdir(os.path.dirname(p)):
                            os.makedirs(os.path.dirname(p))
                        f = open(p, "wb")
                        f.write(vcal(zone(b(op[2]), op[3], op[4])))
                        f.close()
                    r = None
                elif k == "lookup":
                    r = tag(TimezoneDatabase.getTimezone(real(op[1])))
                elif k == "standard":
                    r = bool(TimezoneDatabase.isStandardTimezone(real(op[1])))
                elif k == "offset":
                    r = [TimezoneDatabase.getTimezoneOffsetSeconds(real(op[1]), DateTime(2020, 6, 1, 12, 0, 0)), TimezoneDatabase.getTimezoneDescriptor(real(op[1]), DateTime(2020, 6, 1, 12, 0, 0)),
                         DateTime(2020, 6, 1, 12, 0, 0, tzid=Timezone(tzid=real(op[1]))).getPosixTime()]
                elif k == "incal":
                    cal = TimezoneDatabase.getTimezoneInCalendar(real(op[1]))
                    if cal is None:
                        r = None
                    else:
                        tzs = cal.getComponents(definitions.cICalComponent_VTIMEZONE)
                        r = [tag(t) for t in tzs]
                        read = Calendar.parseText(cal.getText(includeTimezones=Calendar.NO_TIMEZONES))
                        r.append(read == cal)
                        # what was handed out belongs to the caller
                        tzs[0].removeProperties("X-TAG")
                        tzs[0].addProperty(Property("X-TAG", "SPOILT"))
                        tzs[0].getComponents()[0].getProperties("TZOFFSETTO")[0].getValue().setValue(1)
                        cal.removeComponent(tzs[0])
                elif k in ("add", "merge", "addstd"):
                    src = Calendar()
                    text = vcal(zone(real(op[1]), op[2], op[3]))
                    # read without telling the database
                    keep = TimezoneDatabase.mergeTimezones
                    TimezoneDatabase.mergeTimezones = staticmethod(lambda cal, tzs: None)
                    try:
                        src = Calendar.parseText(text)
                    finally:
                        TimezoneDatabase.mergeTimezones = staticmethod(keep)
                    tz = src.getComponents(definitions.cICalComponent_VTIMEZONE)[0]
                    db = TimezoneDatabase.getTimezoneDatabase()
                    if k == "add":
                        db.addTimezone(tz)
                    elif k == "addstd":
                        db._addStandardTimezone(tz)
                    else:
                        TimezoneDatabase.mergeTimezones(src, [tz])
                    tz.removeProperties("X-TAG")
                    tz.addProperty(Property("X-TAG", "SPOILT"))
                    r = tag(tz)[1] == "SPOILT"
                elif k in ("parse", "parsecomp", "bad"):
                    body = "".join(zone(real(i), t, o) for i, t, o in op[1])
                    event = "BEGIN:VEVENT\r\nUID:1\r\nDTSTART;TZID=\"%s\":20200601T120000\r\nEND:VEVENT\r\n" % real(op[2])
                    body = event + body if op[3] else body + event
                    if k == "bad":
                        try:
                            Calendar.parseText(vcal(body)[:-15] + "BEGIN:VEVENT\r\nnonsense\r\n")
                            r = "no error"
                        except Exception as e:
                            r = None
                    elif k == "parse":
                        cal = Calendar.parseText(vcal(body))
                        r = [cal.getComponents("VEVENT")[0].getStart().getPosixTime(), [tag(t) for t in cal.getComponents("VTIMEZONE")]]
                    else:
                        import cStringIO
                        cal = Calendar()
                        cal.parseComponent(cStringIO.StringIO(vcal(body)))
                        r = [cal.getComponents("VEVENT")[0].getStart().getPosixTime(), [tag(t) for t in cal.getComponents("VTIMEZONE")]]
                out.append(r)
            except Exception as e:
                import traceback
                out.append(["raises", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-600:]])
        return [root, out]
    finally:
        TimezoneDatabase.sTimezoneDatabase = saved
        os.chdir(cwd)
        shutil.rmtree(root)

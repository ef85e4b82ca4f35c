"""Which time zone definitions a calendar is written with. Octets travel as latin-1 text."""
import json
import os
import shutil
import tempfile
from tzdb import b, zone, vcal
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

MODES = {"all": Calendar.ALL_TIMEZONES, "nonstd": Calendar.NONSTD_TIMEZONES, "none": Calendar.NO_TIMEZONES, "default": None}


def history(std, added, text, ops):
    root = tempfile.mkdtemp(prefix="tzincl")
    try:
        for i, t, o in std:
            p = os.path.join(root, b(i) + ".ics")
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            f = open(p, "wb")
            f.write(vcal(zone(b(i), t, o)))
            f.close()
        TimezoneDatabase.createTimezoneDatabase(root)
        for i, t, o in added:
            # definitions that came with other data
            Calendar.parseText(vcal(zone(b(i), t, o)))
        cal = Calendar.parseText(b(text))
        out = []
        for op in ops:
            k = op[0]
            if k == "write":
                mode = MODES[op[2]]
                if op[1] == "text":
                    r = cal.getText(includeTimezones=mode)
                elif op[1] == "json":
                    r = cal.getTextJSON(includeTimezones=mode)
                elif op[1] == "jsonf":
                    r = cal.getText(includeTimezones=mode, format=Calendar.sFormatJSON)
                elif op[1] == "generate":
                    from cStringIO import StringIO
                    s = StringIO()
                    cal.generate(s, includeTimezones=mode)
                    r = s.getvalue()
                else:
                    r = cal.getTextXML(includeTimezones=mode)
                out.append(r.decode("latin-1") if isinstance(r, str) else r.encode("utf-8").decode("latin-1"))
            elif k == "strip":
                out.append(bool(cal.stripStandardTimezones()))
            elif k == "str":
                out.append(str(cal).decode("latin-1"))
            elif k == "include":
                cal.includeMissingTimezones(MODES[op[1]])
                out.append(None)
            elif k == "spoil":
                # the calendar's own copy changes; the database's must not
                for c in cal.getComponents("VTIMEZONE"):
                    if c.getID() == b(op[1]):
                        from pycalendar.icalendar.property import Property
                        c.addProperty(Property("X-SPOILT", "1"))
                out.append(None)
            elif k == "add":
                other = Calendar.parseText(vcal(b(op[1])))
                for c in other.getComponents():
                    cal.addComponent(c)
                out.append(None)
        parents = all(c.getParentComponent() is cal for c in cal.getComponents("VTIMEZONE"))
        return [out, parents]
    finally:
        shutil.rmtree(root)

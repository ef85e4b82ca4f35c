"""Comparing and dumping sets of time zones, from files below a scratch directory."""
import os
import shutil
import sys
import tempfile
from cStringIO import StringIO

from pycalendar.datetime import DateTime

from zonal import tzconvert, tzdump, tzverify


def put(root, name, files):
    d = os.path.join(root, name)
    os.makedirs(d)
    for path, text in files.items():
        p = os.path.join(d, str(path))
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, "wb") as f:
            f.write(text.encode("utf-8"))
    return d


class Said(object):
    def __enter__(self):
        self.saved, self.out = sys.stdout, StringIO()
        sys.stdout = self.out
        return self.out

    def __exit__(self, *a):
        sys.stdout = self.saved


def year(y):
    return DateTime(year=y, month=1, day=1)


def compare(one, other, lo, hi, only, verbose, quiet, skips, pick):
    root = tempfile.mkdtemp(prefix="tzcheck")
    try:
        a, b = put(root, "a", one), put(root, "b", other)
        with Said() as out:
            x = tzverify.loadCalendarFromZoneinfo(a, skips=[str(s) for s in skips], only=[str(s) for s in pick], verbose=verbose, quiet=quiet)
            y = tzverify.loadCalendarFromZoneinfo(b, skips=[str(s) for s in skips], only=[str(s) for s in pick], verbose=verbose, quiet=quiet)
        loading = out.getvalue().replace(root, "")
        with Said() as out:
            tzverify.compareCalendars(x, y, year(lo), year(hi), filterTzids=[str(s) for s in only], verbose=verbose, quiet=quiet)
        first = out.getvalue()
        with Said() as out:
            tzverify.compareCalendars(y, x, year(lo), year(hi), filterTzids=[str(s) for s in only], verbose=verbose, quiet=quiet)
        return {"loading": loading, "said": first, "back": out.getvalue(), "ids": [sorted(x.getTZIDs()), sorted(y.getTZIDs())]}
    finally:
        shutil.rmtree(root, True)


def dump(files, lo, hi):
    root = tempfile.mkdtemp(prefix="tzcheck")
    try:
        d = put(root, "a", files)
        r = {}
        for n in files:
            cal = tzdump.loadCalendar(os.path.join(d, str(n)), False)
            got = tzdump.getExpandedDates(cal, year(lo), year(hi))
            r[n] = [[[t[0].getText(), t[1].getText(), t[2], t[3]] for t in got], tzdump.formattedExpandedDates(got), tzverify.formattedExpandedDates(set(got))]
        return r
    finally:
        shutil.rmtree(root, True)


def source(text, other, lo, hi):
    """what was compiled from the source, and from another one, against the source"""
    root = tempfile.mkdtemp(prefix="tzcheck")
    try:
        d = put(root, "src", {"zones": text, "others": other})
        zones = tzverify.parseTZData(d, ["zones"])
        r = []
        for n in ("zones", "others"):
            p = tzconvert.tzconvert()
            p.parse(os.path.join(d, n))
            files = put(root, n, dict((z + ".ics", p.vtimezones(lo - 1, hi + 1, filterzones=[z])) for z in p.getZoneNames()))
            with Said() as out:
                cal = tzverify.loadCalendarFromZoneinfo(files, quiet=True)
                tzverify.compareCalendars(cal, zones, year(lo), year(hi), quiet=True)
                out.write("--\n")
                tzverify.compareCalendars(zones, cal, year(lo), year(hi), quiet=True)
            r.append(out.getvalue().split("--\n"))
        return r
    finally:
        shutil.rmtree(root, True)

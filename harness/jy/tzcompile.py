"""Compiling tz source. Files are written only below a scratch directory; the deletions that the
compiler makes are refused outside it."""
import __builtin__
import os
import shutil
import sys
import tempfile

from pycalendar.icalendar.calendar import Calendar

from zonal import tzconvert as TC
from zonal.rule import RuleSet
from zonal.zone import Zone


def ask(zone, rules, asks):
    out = []
    for lo, hi in asks:
        out.append({"list": [[t[0].getText(), t[1], t[2]] for t in zone.expand(rules, lo, hi)], "vtz": str(zone.vtimezone(Calendar(), rules, lo, hi))})
    return out


def direct(rules, zone, asks):
    """rules: list of texts, one for each set"""
    def load(rules, zone):
        table = {}
        for r in rules:
            rs = RuleSet()
            rs.parse(str(r))
            table[rs.name] = rs
        z = Zone()
        z.parse(str(zone))
        return table, z
    table, z = load(rules, zone)
    first = ask(z, table, asks)
    text = [str(table[k]) for k in sorted(table)], str(z)
    table2, z2 = load(*text)
    again = ask(z2, table2, asks[::-1])[::-1]
    return {"asks": first, "again": again == first, "text": text, "same": [z == z2 and not z != z2 and table == table2, [str(table2[k]) for k in sorted(table2)] == text[0] and str(z2) == text[1]]}


def files(texts, asks, lo, hi, links, only):
    """compile files of tz source; then write everything below a directory and read it back"""
    root = tempfile.mkdtemp(prefix="tzcompile")
    refused = []

    def guard(real):
        def call(path, *a):
            if not os.path.abspath(path).startswith(root + "/out/"):
                refused.append(path)
                return None
            return real(path, *a)
        return call

    def guarded_open(path, mode="r"):
        if mode != "r" and not os.path.abspath(path).startswith(root + "/out/"):
            refused.append(path)
            raise IOError(path)
        return __builtin__.open(path, mode)
    saved = os.remove, os.rmdir, os.makedirs, sys.stdout
    try:
        parser = TC.tzconvert()
        for i, t in enumerate(texts):
            path = os.path.join(root, "f%d" % i)
            with __builtin__.open(path, "wb") as f:
                f.write(t.encode("utf-8"))
            parser.parse(path)
        names = sorted(parser.getZoneNames())
        res = {"names": names, "links": sorted(parser.links.items()), "rules": sorted(str(parser.rules[k]) for k in parser.rules), "sets": sorted((k, parser.rules[k].name) for k in parser.rules)}
        res["asks"] = [[n, dict(ask(parser.zones[n], parser.rules, [r])[0])] for n, r in asks]
        res["lists"] = [[[t[0].getText(), t[1], t[2]] for t in parser.expandZone(n, r[0], r[1])] for n, r in asks]
        res["all"] = parser.vtimezones(lo, hi, filterzones=only)
        out = os.path.join(root, "out")
        os.makedirs(os.path.join(out, "Old"))
        for n in ("old.ics", "Old/old.ics"):
            with __builtin__.open(os.path.join(out, n), "w") as f:
                f.write("old")
        os.remove, os.rmdir, os.makedirs = [guard(f) for f in saved[:3]]
        TC.open = guarded_open
        sys.stdout = sys.stderr
        parser.generateZoneinfoFiles(out, lo, hi, links=links, filterzones=only)
        os.remove, os.rmdir, os.makedirs, sys.stdout = saved
        res["files"] = {}
        for d, _, ns in os.walk(out):
            for n in ns:
                p = os.path.join(d, n)
                with __builtin__.open(p, "rb") as f:
                    res["files"][os.path.relpath(p, out)] = f.read().decode("utf-8")
        res["refused"] = refused
        return res
    finally:
        os.remove, os.rmdir, os.makedirs, sys.stdout = saved
        TC.__dict__.pop("open", None)
        shutil.rmtree(root, True)

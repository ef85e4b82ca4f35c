"""Filtered output. Octets travel as latin-1 text."""
from cStringIO import StringIO
import json
import xml.etree.cElementTree as XML
from pycalendar import xmlutils
from pycalendar.icalendar import xmldefinitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter
from pycalendar.vcard.card import Card


def b(t):
    return t.encode("latin-1")


def l1(s):
    if isinstance(s, unicode):
        s = s.encode("utf-8")
    return s.decode("latin-1")


def build(f):
    o = OutputFilter(str(f["type"]))
    for op in f["ops"]:
        if op[0] == "allprops":
            o.setAllProperties()
        elif op[0] == "prop":
            o.addProperty(str(op[1]), op[2])
        elif op[0] == "allcomps":
            o.setAllSubComponents()
        else:
            o.addSubComponent(build(op[1]))
    return o


def text(c, f):
    s = StringIO()
    if f is None:
        c.generate(s, includeTimezones=Calendar.NO_TIMEZONES) if isinstance(c, Calendar) else c.generate(s)
    else:
        c.generateFiltered(s, f)
    return l1(s.getvalue())


def jsn(c, f):
    j = []
    if f is None:
        c.writeJSON(j, includeTimezones=Calendar.NO_TIMEZONES) if isinstance(c, Calendar) else c.writeJSON(j)
    else:
        c.writeJSONFiltered(j, f)
    return [l1(json.dumps(x)) for x in j]


def xml(c, f):
    ns = xmldefinitions.iCalendar20_namespace
    if f is None and isinstance(c, Calendar):
        root = c.writeXML(includeTimezones=Calendar.NO_TIMEZONES)
    else:
        root = XML.Element(xmlutils.makeTag(ns, xmldefinitions.icalendar))
        if f is None:
            c.writeXML(root, ns)
        else:
            c.writeXMLFiltered(root, ns, f)
    return l1(xmlutils.toString(root))


def run(data, kind, path, filters, order):
    """each filter, in each format, in the order given, after the unfiltered output and before it again"""
    c = Card.parseText(b(data)) if kind == "card" else Calendar.parseText(b(data))
    for i in path:
        c = c.getComponents()[i]
    fs = [build(f) for f in filters]
    w = {"text": text, "json": jsn, "xml": xml}
    res = {"full": dict((k, w[k](c, None)) for k in set(o[0] for o in order) | set(["text"])), "out": []}
    for fmt, i in order:
        res["out"].append(w[fmt](c, fs[i]))
    res["again"] = dict((k, w[k](c, None)) for k in res["full"])
    return res


def predicates(f, comps, props):
    o = build(f)
    return {"type": o.getType(), "self": [o.testComponent(str(c)) for c in comps], "sub": [o.testSubComponent(str(c)) for c in comps],
            "prop": [list(o.testPropertyValue(str(p))) for p in props], "allprops": o.isAllProperties(), "allcomps": o.isAllSubComponents()}

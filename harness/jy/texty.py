"""Parse / write / re-parse in the text, jCal and xCal formats. Octets travel as latin-1 text."""
import json
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card


def b(t):
    return t.encode("latin-1")


def l1(s):
    if isinstance(s, unicode):
        s = s.encode("utf-8")
    return s.decode("latin-1")


def roundtrip(text, *others):
    cal = Calendar.parseText(b(text))
    out = cal.getText()
    cal2 = Calendar.parseText(out)
    res = {"out": l1(out), "eq": cal == cal2, "eq2": cal2 == cal, "ne": cal != cal2, "out2": l1(cal2.getText()), "again": l1(cal.getText()), "others": []}
    for o in others:
        c = Calendar.parseText(b(o))
        res["others"].append([c == cal, cal == c, l1(c.getText())])
    return res


def jcal(text):
    cal = Calendar.parseText(b(text))
    out = cal.getText()
    j = cal.getTextJSON()
    cal2 = Calendar.parseJSONData(j if isinstance(j, str) else j.encode("utf-8"))
    j2 = cal2.getTextJSON()
    return {"json": l1(j), "eq": cal == cal2, "eq2": cal2 == cal, "out": l1(out), "out2": l1(cal2.getText()), "json2": l1(j2), "after": l1(cal.getText())}


def xcal(text):
    cal = Calendar.parseText(b(text))
    before = cal.getText()
    x = cal.getTextXML()
    return {"xml": l1(x), "again": l1(cal.getTextXML()), "before": l1(before), "out": l1(cal.getText())}


def lines(text):
    cal = Calendar.parseText(b(text))
    return l1(cal.getText())


def folds(text, others, vcard):
    """text -> written form, and whether each other layout is read as an equal object and written identically"""
    if vcard:
        c = Card.parseMultipleTextData(b(text))
        w = lambda x: "".join(i.getText() for i in x)
        parse = Card.parseMultipleTextData
    else:
        c = Calendar.parseText(b(text))
        w = lambda x: x.getText()
        parse = Calendar.parseText
    out = w(c)
    res = {"out": l1(out), "out2": l1(w(parse(out))), "others": []}
    for o in others:
        x = parse(b(o))
        res["others"].append([x == c, l1(w(x)) == l1(out)])
    return res

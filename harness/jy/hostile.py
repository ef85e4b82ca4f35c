"""Reading damaged data. Octets travel as latin-1 text."""
from cStringIO import StringIO
import json
import re
from pycalendar.exceptions import InvalidComponent, InvalidData, InvalidProperty
from pycalendar.icalendar.calendar import Calendar
from pycalendar.parser import ParserContext
from pycalendar.vcard.card import Card

DOCUMENTED = (InvalidData, InvalidComponent, InvalidProperty)


def b(t):
    return t.encode("latin-1")


ODD = re.compile("[\x00-\x08\x0b\x0c\x0e-\x1f]|[;:]\t")      # white space and controls, where names may not be names in JSON


def l1(s):
    return s.decode("latin-1") if isinstance(s, str) else s.encode("utf-8").decode("latin-1")


def utf8(s):
    try:
        s.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


class Trickle(object):
    """a stream that is not a string"""

    def __init__(self, data):
        self.ins = StringIO(data)

    def readline(self):
        return self.ins.readline()

    def read(self):
        return self.ins.read()


def read(data, kind, how):
    C = Card if kind == "card" else Calendar
    if how == "text":
        return [C.parseText(data)]
    if how == "stream":
        return [C.parseData(Trickle(data))]
    if how == "multiple":
        return Card.parseMultipleData(data, Card.sFormatText)
    if how == "component":
        return [Calendar().parseComponent(Trickle(data))]
    if how == "json":
        return [C.parseData(data, C.sFormatJSON)]
    if how == "jsons":
        return Card.parseMultipleData(data, Card.sFormatJSON)


def run(data, kind, how, options={}):
    for k, v in options.items():
        assert hasattr(ParserContext, k)
        setattr(ParserContext, str(k), v)
    data = b(data)
    try:
        objs = read(data, kind, how)
    except DOCUMENTED as e:
        str(e)
        return {"err": e.__class__.__name__}
    out = []
    for o in objs:
        if o is None:
            out.append(None)
            continue
        r = {}
        t = str(o)
        r["text"] = l1(t)
        r["again"] = l1(str(o))
        if how == "component":
            wrapped = "BEGIN:VCALENDAR\r\nVERSION:2.0\r\n" + t + "END:VCALENDAR\r\n"
            p = Calendar().parseComponent(StringIO(wrapped))
        else:
            p = o.__class__.parseText(t)
        r["text2"] = l1(str(p))
        if how != "component":
            r["equal"] = (p == o)
            if utf8(t) and kind == "cal" and not ODD.search(data):
                j = o.getTextJSON()
                o.__class__.parseJSONData(j)
                o.getTextXML() if hasattr(o, "getTextXML") else None
        out.append(r)
    return {"ok": out}


def lines(ls, vcard):
    """property lines on their own"""
    from pycalendar.icalendar.property import Property
    from pycalendar.vcard.property import Property as VProperty
    P = VProperty if vcard else Property
    out = []
    for l in ls:
        try:
            p = P.parseText(b(l))
        except DOCUMENTED as e:
            str(e)
            out.append(None)
            continue
        t = str(p)
        q = P.parseText(t.replace("\r\n ", "").rstrip("\r\n"))
        out.append([l1(t), l1(str(q)), p == q, l1(str(p)), p == p.duplicate(), hash(p) == hash(p.duplicate())])
    return out


def strict(data, kind, how):
    ParserContext.allRaise()
    return run(data, kind, how)

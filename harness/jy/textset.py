"""Objects built through the API with given texts, then written and read back. Octets travel as latin-1 text."""
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vevent import VEvent
from pycalendar.icalendar.property import Property as IProp
from pycalendar.multivalue import MultiValue
from pycalendar.parameter import Parameter
from pycalendar.value import Value
from pycalendar.vcard.adr import Adr
from pycalendar.vcard.card import Card
from pycalendar.vcard.n import N
from pycalendar.vcard.orgvalue import OrgValue
from pycalendar.vcard.property import Property as VProp


def u8(s):
    return s.encode("utf-8")


def enc(v):
    """JSON value -> octet strings, lists as tuples"""
    if isinstance(v, list):
        return tuple(enc(x) for x in v)
    return u8(v)


def dec(v):
    if v is None:
        return None
    if isinstance(v, (N, Adr)):
        v = v.getValue()
    if isinstance(v, basestring):
        return v.decode("utf-8") if isinstance(v, str) else v
    return [dec(x.getValue() if isinstance(x, Value) else x) for x in v]


TYPES = {"URI": Value.VALUETYPE_URI, "TEXT": Value.VALUETYPE_TEXT, "UNKNOWN": Value.VALUETYPE_UNKNOWN, "CAL-ADDRESS": Value.VALUETYPE_CALADDRESS}


def make(cls, p, vcard):
    name, kind, value, how = u8(p["name"]), p["kind"], p["value"], p["how"]
    pre = [None] if vcard else []
    if kind in ("text", "raw"):
        t = u8(value)
        if how == "ctor":
            prop = cls(*(pre + [name, t]))
        elif how == "unicode":
            prop = cls(*(pre + [name, value]))
        elif how == "typed":
            prop = cls(*(pre + [name, t, TYPES[p["type"]]]))
        elif how == "set":
            prop = cls(*(pre + [name]))
            prop.setValue(t)
        elif how == "reset":
            prop = cls(*(pre + [name, "before"]))
            prop.setValue(t)
        elif how == "value":
            prop = cls(*(pre + [name, "before"]))
            prop.getTextValue().setValue(t)
        elif how == "parsed":
            prop = cls.parseText(name + ";X-OLD=1:before")
            prop.removeParameters("X-OLD")
            prop.getValue().setValue(t)
    elif kind == "list":
        items = [u8(x) for x in value]
        if how == "ctor":
            prop = cls(*(pre + [name, items]))
        elif how == "single":
            prop = cls(*(pre + [name, items[0]]))
        elif how == "set":
            prop = cls(*(pre + [name]))
            prop.setValue(items)
        elif how == "parsed":
            prop = cls.parseText(name + ":a,b,c")
            prop.getMultiValue().setValue(items)
        else:
            prop = cls.parseText(name + ":" + "a")
            del prop.getMultiValue().getValues()[:]
            for i in items:
                v = Value.createFromType(Value.VALUETYPE_TEXT)
                v.setValue(i)
                prop.getMultiValue().addValue(v)
    elif kind == "status":
        items = [u8(x) for x in value]
        if how == "ctor":
            prop = cls(name, items)
        else:
            prop = cls.parseText(name + ":2.0;Success")
            prop.getValue().setValue(items)
    elif kind in ("n", "adr"):
        c = N if kind == "n" else Adr
        if how == "ctor":
            prop = cls(None, name, c(*enc(value)))
        elif how == "parsed":
            prop = cls.parseText(name + ":a,b;c;d\\;e")
            prop.getValue().setValue(c(*enc(value)))
        else:
            v = c()
            setters = (["Last", "First", "Middle", "Prefix", "Suffix"] if kind == "n" else ["Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country"])
            for s, x in zip(setters, enc(value)):
                getattr(v, "set" + s)(x)
                assert getattr(v, "get" + s)() == x
            prop = cls(None, name, v)
    elif kind == "org":
        if how == "ctor":
            prop = cls(None, name, enc(value))
        else:
            prop = cls.parseText(name + ":a;b")
            prop.getValue().setValue(enc(value))
    for i, (n, vals, phow) in enumerate(p["params"]):
        n, vals = u8(n), [u8(v) for v in vals]
        if phow == "add":
            prop.addParameter(Parameter(n, vals if len(vals) > 1 else vals[0]))
        elif phow == "replace":
            prop.addParameter(Parameter(n, "before"))
            prop.replaceParameter(Parameter(n, list(vals)))
        elif phow == "setvalues":
            a = Parameter(n, ["x", "y"])
            prop.addParameter(a)
            a.setValues(list(vals))
        else:
            a = Parameter(n)
            for v in vals:
                a.addValue(v)
            prop.addParameter(a)
    if vcard and p.get("group"):
        prop.setGroup(u8(p["group"]))
    return prop


def readback(prop):
    v = prop.getValue().getValue()
    return {"name": prop.getName(), "value": dec(v), "params": [[dec(n), dec(prop.getParameterValues(n)), dec(prop.getParameterValue(n))] for n in sorted(prop.getParameters())],
            "nparams": dict((dec(k), len(a)) for k, a in prop.getParameters().items()), "group": prop.getGroup() if prop.sUsesGroup else None}


def ical(props):
    cal = Calendar()
    ev = VEvent(parent=cal)
    ev.addProperty(IProp("UID", "uid-1"))
    for p in props:
        ev.addProperty(make(IProp, p, False))
    ev.addProperty(IProp("X-LAST", "last"))
    cal.addComponent(ev)
    out = cal.getText()
    cal2 = Calendar.parseText(out)
    comps = cal2.getComponents()
    read = {}
    for c in comps:
        for n, ps in c.getProperties().items():
            read.setdefault(n, []).extend(readback(q) for q in ps)
    return {"out": out.decode("latin-1"), "comps": [c.getType() for c in comps], "read": read, "out2": cal2.getText().decode("latin-1"), "eq": cal == cal2}


def vcard(props):
    card = Card(add_defaults=False)
    card.addProperty(VProp(None, "VERSION", "3.0"))
    for p in props:
        card.addProperty(make(VProp, p, True))
    card.addProperty(VProp(None, "X-LAST", "last"))
    out = card.getText()
    cards = Card.parseMultipleTextData(out)
    read = {}
    for c in cards:
        for n, ps in c.getProperties().items():
            read.setdefault(n, []).extend(readback(q) for q in ps)
    return {"out": out.decode("latin-1"), "comps": ["VCARD"] * len(cards), "read": read, "out2": "".join(c.getText() for c in cards).decode("latin-1"), "eq": len(cards) == 1 and cards[0] == card}

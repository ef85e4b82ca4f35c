"""Validation and fixing. Octets travel as latin-1 text."""
from pycalendar.exceptions import ValidationError
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.componentrecur import ComponentRecur
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty


def b(t):
    return t.encode("latin-1")


def l1(s):
    return s.decode("latin-1") if isinstance(s, str) else s.encode("utf-8").decode("latin-1")


def spans(comp):
    out = []
    if isinstance(comp, ComponentRecur):
        out.append([comp.getType(), str(comp.getStart()) if comp.hasStart() else None, str(comp.getEnd()) if comp.hasStart() else None, bool(comp.hasEnd()), bool(comp.useDuration()), getattr(comp, "mStatus", None)])
    for c in comp.sortedComponents():
        out.extend(spans(c))
    return out


def rules(comp):
    """what the cached recurrence rules say"""
    out = []
    if isinstance(comp, ComponentRecur) and comp.getRecurrenceSet() is not None:
        out.append([l1(r.getText()) for r in comp.getRecurrenceSet().getRules()])
    for c in comp.sortedComponents():
        out.extend(rules(c))
    return out


def run(text, extra, card):
    C, P = (Card, VProperty) if card else (Calendar, Property)

    def make():
        c = C.parseText(b(text))
        for e in extra:
            if e.startswith("-"):
                c.removeProperties(b(e[1:]))
                continue
            c.addProperty(P.parseText(b(e)))
        return c
    out = {}
    c = make()
    t0 = c.getText()
    out["text0"] = l1(t0)
    f, u = c.validate()
    out["look"] = [map(l1, f), map(l1, u)]
    out["untouched"] = c.getText() == t0 and c == make()
    f, u = c.validate(doFix=True)
    out["fix"] = [map(l1, f), map(l1, u)]
    out["text"] = l1(c.getText())
    f, u = c.validate(doFix=True)
    out["again"] = [map(l1, f), map(l1, u)]
    out["stable"] = l1(c.getText()) == out["text"]
    f, u = c.validate()
    out["look2"] = [map(l1, f), map(l1, u)]
    for fix in (False, True):
        d = make()
        try:
            f, u = d.validate(doFix=fix, doRaise=True)
            out["raise%d" % fix] = [map(l1, f), map(l1, u)]
        except ValidationError as e:
            out["raise%d" % fix] = "ValidationError"
        out["rtext%d" % fix] = l1(d.getText())
    if not card and not extra:
        d = C.parseText(b(out["text"]))
        out["spans"] = [spans(c), spans(d)]
        out["rules"] = [rules(c), rules(d)]
    return out

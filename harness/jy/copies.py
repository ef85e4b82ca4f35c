"""Duplicates, edits on either side, equality. Octets travel as latin-1 text."""
import inspect
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.parameter import Parameter
from pycalendar.exceptions import InvalidProperty
from pycalendar.multivalue import MultiValue
from pycalendar.value import Value
from pycalendar.componentbase import ComponentBase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property as IProp
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.valarm import VAlarm
from pycalendar.icalendar import definitions
from pycalendar.icalendar.freebusy import FreeBusy
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProp
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr


def b(t):
    return t.encode("latin-1")


def parse(text, vcard):
    return Card.parseText(b(text)) if vcard else Calendar.parseText(b(text))


def text(o):
    if isinstance(o, Calendar):
        return o.getText(includeTimezones=Calendar.NO_TIMEZONES).decode("latin-1")
    if hasattr(o, "getText"):
        r = o.getText()
    else:
        from cStringIO import StringIO
        os = StringIO()
        o.generate(os)
        r = os.getvalue()
    return r.decode("latin-1") if isinstance(r, str) else r


def show(x, depth=0):
    if x is None or isinstance(x, (int, long, bool, float)):
        return x
    if isinstance(x, str):
        return x.decode("latin-1")
    if isinstance(x, unicode):
        return x
    if isinstance(x, (list, tuple)):
        return [show(i, depth + 1) for i in x]
    if isinstance(x, DateTime):
        return [x.getText(), bool(x.getTimezoneUTC()), show(x.getTimezoneID()), x.isDateOnly(), show(x.getPosixTime())]
    if isinstance(x, RecurrenceSet):
        return [[show(i) for i in l] for l in (x.getRules(), x.getExrules(), x.getDates(), x.getExdates(), x.getPeriods(), x.getExperiods())]
    if isinstance(x, (Duration, Period, Recurrence)):
        return text(x)
    if isinstance(x, FreeBusy):
        return [x.getType(), text(x.getPeriod())]
    return type(x).__name__


SKIP = ("getParentComponent", "getMapKey", "getSortKey", "getProperties", "getComponents", "getText", "getTextXML", "getTextJSON", "getMaster")


def getters(o):
    out = {}
    if hasattr(o, "expandPeriodFB"):
        busy = []
        try:
            o.expandPeriodFB(Period(DateTime(1900, 1, 1, 0, 0, 0), DateTime(2200, 1, 1, 0, 0, 0)), busy)
            out["busy"] = show(busy)
        except Exception as e:
            out["busy"] = "raises " + type(e).__name__
    for n in dir(o):
        if n[:3] not in ("get", "has") and n[:2] != "is" or n in SKIP:
            continue
        f = getattr(o, n)
        if not inspect.ismethod(f):
            continue
        spec = inspect.getargspec(f)
        if len(spec.args) - len(spec.defaults or ()) != 1:
            continue
        try:
            out[n] = show(f())
        except Exception as e:
            out[n] = "raises " + type(e).__name__
    for n in ("recurring", "canGenerateInstance"):
        if hasattr(o, n):
            out[n] = bool(getattr(o, n)())
    if hasattr(o, "getMaster"):
        out["getMaster"] = "self" if o.getMaster() is o else "another"
    return out


def snap(o):
    """everything visible: the text, and what each component's getters say"""
    if not isinstance(o, ComponentBase):
        return {"text": text(o), "get": getters(o)}
    return {"text": text(o), "get": [getters(c) for c in walk(o)]}


def walk(c):
    yield c
    for s in c.getComponents():
        for x in walk(s):
            yield x


def pick(l, n):
    return l[n % len(l)]


def mut_dt(d, n):
    ops = [lambda: d.offsetDay(1 + n), lambda: d.setYear(d.getYear() + 1), lambda: d.setDay(1 + (d.getDay() % 27)), lambda: d.setDateOnly(not d.isDateOnly()),
           lambda: d.setTimezoneUTC(not d.getTimezoneUTC()), lambda: d.setTimezoneID("Other/Zone"), lambda: d.parse("19700101T010203Z"), lambda: d.offsetHours(5), lambda: d.setMonth(1 + d.getMonth() % 12)]
    pick(ops, n)()


def mut_obj(v, n):
    """change the object behind a value in place; True when something was done"""
    if isinstance(v, DateTime):
        mut_dt(v, n)
    elif isinstance(v, Duration):
        pick([lambda: v.setDuration(v.getTotalSeconds() + 61), lambda: v.parse("P9W")], n)()
    elif isinstance(v, FreeBusy):
        pick([lambda: v.setType((v.getType() + 1) % 4), lambda: v.setPeriod(Period(DateTime(2001, 1, 1, 0, 0, 0), DateTime(2001, 1, 2, 0, 0, 0))), lambda: mut_dt(v.getPeriod().getStart(), n)], n)()
    elif isinstance(v, Period):
        mut_dt(v.getStart(), n) if n % 2 else mut_dt(v.getEnd(), n)
    elif isinstance(v, Recurrence):
        ops = [lambda: v.setInterval(v.getInterval() + 1), lambda: v.setCount(v.getCount() + 1), lambda: v.setByMonth([1 + n]), lambda: v.setFreq((v.getFreq() + 1) % 7), lambda: v.parse("FREQ=SECONDLY;COUNT=2"), lambda: v.setUseCount(not v.getUseCount())]
        lists = [l for l in (v.getByMonth(), v.getByMonthDay(), v.getByYearDay(), v.getBySetPos()) if l]
        if lists:
            ops.append(lambda: lists[0].append(lists[0][0] + 1))
        if v.getUntil() is not None:
            ops.append(lambda: mut_dt(v.getUntil(), 0))
            ops.append(lambda: mut_dt(v.getUntil(), n))
        if v.getByDay():
            ops.append(lambda: v.getByDay().pop())
        pick(ops, n)()
    elif isinstance(v, (N, Adr)):
        l = [v.setLast, v.setFirst, v.setMiddle, v.setPrefix, v.setSuffix] if isinstance(v, N) else [v.setPobox, v.setExtended, v.setStreet, v.setLocality, v.setRegion, v.setPostalCode, v.setCountry]
        inner = v.getValue()
        pick(l, n)("changed" if n % 2 else ("changed", "twice")) if n < 12 or not isinstance(inner, list) else inner.reverse()
    elif isinstance(v, list):
        if n % 3 == 0 and v:
            v.pop()
        elif n % 3 == 1 and v:
            v[0] = v[-1] if len(v) > 1 and v[0] != v[-1] else v[0] * 2
        else:
            v.append(v[0] if v else "x")
    else:
        return False
    return True


def mut_value(v, n):
    if isinstance(v, MultiValue):
        vals = v.getValues()
        k = n % 4
        if k == 0 and vals:
            vals.append(vals[0].duplicate())
        elif k == 1 and vals:
            vals.pop()
        elif k == 2:
            v.addValue(Value.createFromType(v.getType()))
        elif vals:
            mut_value(vals[n // 4 % len(vals)], n // 4)
        return
    if mut_obj(v.getValue(), n):
        return
    x = v.getValue()
    if isinstance(x, (int, long, float)) and not isinstance(x, bool):
        v.setValue(x + 1)
    elif isinstance(x, basestring):
        v.setValue("changed " + x)
    elif isinstance(x, tuple):
        v.setValue(x + ("more",))


def mut_param(p, n):
    k = n % 5
    if k == 0:
        p.addValue("added")
    elif k == 1:
        p.getValues().append("added")
    elif k == 2:
        p.setValues(["set"])
    elif k == 3 and p.getValues():
        p.removeValue(p.getValues()[0])
    else:
        p.setName("X-RENAMED")


def mut_prop(p, n):
    k = n % 8
    m = n // 8
    params = [a for n_ in sorted(p.getParameters()) for a in p.getParameters()[n_]]
    if k == 0:
        p.addParameter(Parameter("X-ADDED", "1"))
    elif k == 1 and params:
        p.removeParameters(params[m % len(params)].getName())
    elif k == 2 and params:
        mut_param(params[m % len(params)], m)
    elif k == 3 and params:
        p.replaceParameter(Parameter(params[m % len(params)].getName(), "replaced"))
    elif k == 4 and params and m % 3 == 0:
        p.getParameters()[params[0].getName().upper()].append(Parameter(params[0].getName(), "other"))
    elif k == 4 and m % 3 == 1:
        p.setName("X-RENAMED")
    elif k == 4 and p.sUsesGroup:
        p.setGroup("changed")
    else:
        mut_value(p.getValue(), m)


def prop_list(c):
    return [p for n in sorted(c.getProperties()) for p in c.getProperties()[n]]


def mut_comp(c, n, cls):
    k = n % 10
    m = n // 10
    props = prop_list(c)
    subs = c.getComponents()
    if k == 0:
        c.addProperty(cls("X-ADDED", "1") if cls is IProp else cls(None, "X-ADDED", "1"))
    elif k == 1 and props:
        c.removeProperties(props[m % len(props)].getName())
    elif k == 2 and props:
        c.removeProperty(props[m % len(props)])
    elif k == 3 and subs:
        c.removeComponent(subs[m % len(subs)])
    elif k == 4 and subs:
        c.addComponent(subs[m % len(subs)].duplicate(parent=c))
    elif k == 5 and props:
        c.getProperties()[props[m % len(props)].getName().upper()].append(props[m % len(props)].duplicate())
    elif k == 6:
        # the objects the component hands out
        cached = []
        for g in ("getStart", "getEnd", "getRecurrenceID", "getStamp", "getCompleted", "getTriggerOn", "getTriggerDuration", "getRepeatInterval"):
            if hasattr(c, g):
                try:
                    x = getattr(c, g)()
                except Exception:
                    continue
                if x is not None:
                    cached.append(x)
        if hasattr(c, "getRecurrenceSet"):
            r = c.getRecurrenceSet()
            if r is not None:
                for l in (r.getRules(), r.getExrules(), r.getDates(), r.getExdates(), r.getPeriods()):
                    cached.extend(l)
        if hasattr(c, "getBusyTime"):
            cached.extend(c.getBusyTime() or [])
        if cached:
            mut_obj(cached[m % len(cached)], m // 7)
    elif k == 7 and hasattr(c, "getRecurrenceSet") and c.getRecurrenceSet() is not None:
        r = c.getRecurrenceSet()
        pick([lambda: r.addDT(DateTime(2010, 1, 1)), lambda: r.subtractDT(DateTime(2010, 1, 1)), lambda: r.getDates().append(DateTime(2011, 1, 1)), lambda: r.excludeFutureRecurrence(c.getStart()),
              lambda: r.addRule(Recurrence()), lambda: r.subtractRule(Recurrence()), lambda: r.addPeriod(Period(DateTime(2010, 1, 1, 0, 0, 0), DateTime(2010, 1, 2, 0, 0, 0)))], m)()
    elif props:
        mut_prop(props[m % len(props)], m // len(props))


def mutate(o, n, where, cls):
    if isinstance(o, ComponentBase):
        comps = list(walk(o))
        mut_comp(comps[where % len(comps)], n, cls)
    elif isinstance(o, (IProp, VProp)):
        mut_prop(o, n)
    elif isinstance(o, Parameter):
        mut_param(o, n)
    elif isinstance(o, Value):
        mut_value(o, n)
    else:
        mut_obj(o, n)


def target(root, level, where):
    """something to copy: the whole, a component, a property, a value, what is in it, or a parameter"""
    comps = list(walk(root))
    if level == 0:
        return root
    if level == 1:
        return pick(comps[1:] or comps, where)
    props = [p for c in comps for p in prop_list(c)]
    p = pick(props, where)
    if level == 2:
        return p
    if level == 5:
        params = [a for q in props for n in sorted(q.getParameters()) for a in q.getParameters()[n]]
        return pick(params, where) if params else p
    if level == 4:
        inner = [x for x in (q.getValue().getValue() for q in props) if isinstance(x, (DateTime, Duration, Period, Recurrence, N, Adr))]
        return pick(inner, where) if inner else p.getValue()
    if level == 6:
        many = [q.getValue() for q in props if isinstance(q.getValue(), MultiValue) and len(q.getValue().getValues()) > 1]
        return pick(many, where) if many else p.getValue()
    return p.getValue()


def copy_history(txt, vcard, level, where, ops):
    cls = VProp if vcard else IProp
    o = target(parse(txt, vcard), level, where)
    before = snap(o)
    c = o.duplicate()
    try:
        early = hash(c)     # before anything was asked of it
    except TypeError:
        early = None
    res = {"type": type(o).__name__, "eq": bool(o == c and c == o and not (o != c)), "snap": before, "copy": snap(c), "after_copy": snap(o), "steps": []}
    if not isinstance(o, ComponentBase):
        try:
            res["hash"] = hash(o) == hash(c) == early
        except TypeError:
            res["hash"] = None
    else:
        res["hash"] = None
        res["parents"] = all(s.getParentComponent() is x for x in walk(c) for s in x.getComponents())
        mine = set(id(x) for x in walk(o))
        res["shared"] = any(id(x) in mine for x in walk(c))
    for side, n, w in ops:
        a, other = (o, c) if side == 0 else (c, o)
        sa, so = snap(a), snap(other)
        err = None
        try:
            mutate(a, n, w, cls)
        except Exception as e:
            err = type(e).__name__ + ": " + str(e)
        try:
            na = snap(a)
        except Exception as e:      # the edited side may no longer make sense; the other one must
            na = None
        res["steps"].append({"changed": na != sa, "err": err, "before": so, "after": snap(other)})
        if na is None:
            break
    return res


def recurrence_set(spec):
    """spec: rules, exception rules, dates, exception dates, periods, each a list of texts"""
    s = RecurrenceSet()
    for add, texts, make in zip((s.addRule, s.subtractRule, s.addDT, s.subtractDT, s.addPeriod), spec, (rec, rec, DateTime.parseText, DateTime.parseText, Period.parseText)):
        for t in texts:
            add(make(t))
    return s


def rec(t):
    r = Recurrence()
    r.parse(t)
    return r


def compare_sets(a, c):
    x, y = recurrence_set(a), recurrence_set(c)
    d = x.duplicate()
    before = show(x)
    r = [bool(x.equals(y)), bool(y.equals(x)), bool(x.equals(d) and d.equals(x)), show(d) == before]
    for l in (d.getRules(), d.getExrules(), d.getDates(), d.getExdates(), d.getPeriods()):
        for i in l:
            mut_obj(i, 0)
        del l[:]
    return r + [show(x) == before]


def compare(a, c):
    x, y = Calendar.parseText(b(a)), Calendar.parseText(b(c))
    r = {"eq": bool(x == y), "eq2": bool(y == x), "ne": bool(x != y), "hash": []}
    # equal parts have equal hashes
    px = [p for k in walk(x) for p in prop_list(k)]
    py = [p for k in walk(y) for p in prop_list(k)]
    # which must not depend on what else was asked of them before
    early = dict((id(u), hash(u)) for p in px + py for u in (p, p.getValue()))
    n = 0
    for p in px:
        for q in py:
            if p.getName() != q.getName():
                continue
            for u, v in ((p, q), (p.getValue(), q.getValue())):
                e = u == v
                if e != (v == u) or e == (u != v):
                    r["hash"].append(["not symmetric", text(p), text(q)])
                if e and not hash(u) == hash(v) == early[id(u)] == early[id(v)]:
                    r["hash"].append([type(u).__name__ + ": hash", text(p), text(q)])
                n += 1
    r["pairs"] = n
    return r


def compare_values(name, a, c):
    p = IProp.parseText(b(name + a))
    try:
        q = IProp.parseText(b(name + c))
    except InvalidProperty:     # an edited value need not be well-formed
        return None
    early = [hash(p) == hash(q), hash(p.getValue()) == hash(q.getValue())]
    return {"early": early, "eq": bool(p == q), "eq2": bool(q == p), "ne": bool(p != q), "veq": bool(p.getValue() == q.getValue()), "veq2": bool(q.getValue() == p.getValue()), "hash": hash(p) == hash(q), "vhash": hash(p.getValue()) == hash(q.getValue()), "a": text(p), "b": text(q)}

"""Canonical meaning of iCalendar data, read from text, jCal or xCal by code independent of the library."""
import re
import xml.etree.ElementTree as ET

from harness import ical

DEFAULTS = {}
for t, names in {
    "TEXT": "CALSCALE METHOD PRODID VERSION CATEGORIES CLASS COMMENT DESCRIPTION LOCATION RESOURCES STATUS SUMMARY TRANSP TZID TZNAME CONTACT RELATED-TO UID ACTION "
            "ACCEPT-RESPONSE POLL-COMPLETION POLL-MODE POLL-PROPERTIES X-WR-CALNAME X-WR-CALDESC X-WR-ALARMUID",
    "URI": "ATTACH TZURL URL", "INTEGER": "PERCENT-COMPLETE PRIORITY REPEAT SEQUENCE POLL-ITEM-ID POLL-WINNER RESPONSE",
    "DATE-TIME": "COMPLETED DTEND DUE DTSTART RECURRENCE-ID EXDATE RDATE CREATED DTSTAMP LAST-MODIFIED ACKNOWLEDGED",
    "DURATION": "DURATION TRIGGER", "PERIOD": "FREEBUSY", "UTC-OFFSET": "TZOFFSETFROM TZOFFSETTO", "CAL-ADDRESS": "ATTENDEE ORGANIZER VOTER", "RECUR": "RRULE EXRULE",
    "FLOAT": "GEO", "STATUS": "REQUEST-STATUS",
}.items():
    for n in names.split():
        DEFAULTS[n] = t
DEFAULTS["GEO"] = "GEO"
MULTI = set("CATEGORIES RESOURCES FREEBUSY EXDATE RDATE POLL-PROPERTIES".split())
KNOWN = set("BINARY BOOLEAN CAL-ADDRESS DATE DATE-TIME DURATION FLOAT INTEGER PERIOD RECUR TEXT TIME URI UTC-OFFSET".split())


class Bad(Exception):
    pass


def full(rx, s, what):
    m = re.fullmatch(rx, s)
    if not m:
        raise Bad("bad %s: %r" % (what, s))
    return m


def c_date(s):
    return "".join(full(r"(\d{4})-?(\d\d)-?(\d\d)", s, "date").groups())


def c_dt(s):
    g = full(r"(\d{4})-?(\d\d)-?(\d\d)T(\d\d):?(\d\d):?(\d\d)(Z?)", s, "date-time").groups()
    return "%s%s%sT%s%s%s%s" % g


def c_dtx(s):
    full(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ?", s, "extended date-time")
    return c_dt(s)


def c_dx(s):
    full(r"\d{4}-\d\d-\d\d", s, "extended date")
    return c_date(s)


def c_dur(s):
    g = full(r"([+-]?)P(?:(\d+)W|(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?)", s, "duration").groups()
    if all(x is None for x in g[1:]):
        raise Bad("empty duration %r" % s)
    w, d, h, m, x = [int(v or 0) for v in g[1:]]
    n = w * 604800 + d * 86400 + h * 3600 + m * 60 + x
    return -n if g[0] == "-" else n


def c_offset(s, ext=False):
    g = full(r"([+-])(\d\d):(\d\d)(?::(\d\d))?" if ext else r"([+-])(\d\d)(\d\d)(\d\d)?", s, "utc-offset").groups()
    n = int(g[1]) * 3600 + int(g[2]) * 60 + int(g[3] or 0)
    return -n if g[0] == "-" else n


def _end(s, ext):
    return c_dur(s) if s.lstrip("+-").startswith("P") else (c_dtx(s) if ext else c_dt(s))


def c_period(s):
    a, b = s.split("/")
    return [c_dt(a), _end(b, False)]


RLISTS = "BYSECOND BYMINUTE BYHOUR BYMONTHDAY BYYEARDAY BYWEEKNO BYMONTH BYSETPOS".split()


def c_byday(s):
    g = full(r"([+-]?\d+)?(SU|MO|TU|WE|TH|FR|SA)", s, "weekday").groups()
    return [int(g[0] or 0), g[1]]


def c_rule(d):
    """dict of upper-case part -> list of strings"""
    out = {}
    for k, v in d.items():
        if k in RLISTS:
            out[k] = [int(x) for x in v]
        elif k == "BYDAY":
            out[k] = [c_byday(x) for x in v]
        elif len(v) != 1:
            raise Bad("several values of %s" % k)
        elif k in ("INTERVAL", "COUNT"):
            out[k] = int(v[0])
        elif k == "UNTIL":
            out[k] = c_date(v[0]) if "T" not in v[0] else c_dt(v[0])
        elif k in ("FREQ", "WKST"):
            out[k] = v[0].upper()
        else:
            raise Bad("rule part %s" % k)
    if out.get("INTERVAL") == 1:
        del out["INTERVAL"]
    if out.get("WKST") == "MO":
        del out["WKST"]
    return out


def c_recur(s):
    d = {}
    for part in s.split(";"):
        k, v = part.split("=")
        if k in d:
            raise Bad("rule part twice: %s" % k)
        d[k] = v.split(",")
    return c_rule(d)


def text_value(t, raw):
    if t == "TEXT":
        return ical.unescape(raw)
    if t == "STATUS":
        return [ical.unescape(x) for x in ical.split_esc(raw, ";")]
    if t == "GEO":
        a, b = raw.split(";")
        return [float(a), float(b)]
    return {"DATE": c_date, "DATE-TIME": c_dt, "DURATION": c_dur, "PERIOD": c_period, "RECUR": c_recur, "INTEGER": int, "FLOAT": float, "UTC-OFFSET": c_offset}.get(t, lambda s: s)(raw)


def is_multi(name):
    return name in MULTI


def canon_params(params):
    return sorted([n, sorted(vs)] for n, vs in params if n != "VALUE")


def prop(name, params, raw):
    """(name, params, raw wire value) -> [name, type, params, value(s)]"""
    t = DEFAULTS.get(name, "UNKNOWN")
    for n, vs in params:
        if n == "VALUE":
            u = vs[0].upper()
            if not (u == "TEXT" and t == "STATUS") and not (u == "FLOAT" and t == "GEO"):
                t = u
    if name in MULTI:
        toks = ical.split_esc(raw, ",") if t == "TEXT" else raw.split(",")
        vals = [text_value(t, x) for x in toks]
    else:
        vals = [text_value(t, raw)]
    return [name, t, canon_params(params), vals]


def key(x):
    import json
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


def node(n):
    return [n.name, sorted((prop(p[1], p[2], p[3]) for p in n.props), key=key), sorted((node(s) for s in n.subs), key=key)]


def from_text(data):
    """bytes/str -> canonical list of top-level objects"""
    return [node(n) for n in ical.parse(data)]


def from_tree(tree):
    return [tree[0], sorted((prop(n, p, v) for n, p, v in tree[1]), key=key), sorted((from_tree(s) for s in tree[2]), key=key)]


# ---------------------------------------------------------------- jCal (RFC 7265)
def j_value(name, t, v):
    def need(cls, what):
        if not isinstance(v, cls) or isinstance(v, bool) and cls is not bool:
            raise Bad("%s: %s expected, found %r" % (name, what, v))
    if name == "GEO" and t == "FLOAT":
        need(list, "array of two floats")
        if len(v) != 2 or not all(isinstance(x, (int, float)) for x in v):
            raise Bad("geo %r" % (v,))
        return [float(v[0]), float(v[1])]
    if name == "REQUEST-STATUS" and t == "TEXT":
        need(list, "array")
        if not all(isinstance(x, str) for x in v):
            raise Bad("request-status %r" % (v,))
        return list(v)
    if t == "INTEGER":
        need(int, "integer")
        return v
    if t == "FLOAT":
        need((int, float), "number")
        return float(v)
    if t == "RECUR":
        need(dict, "object")
        d = {}
        for k, x in v.items():
            if k != k.lower():
                raise Bad("rule part %s not in lower case" % k)
            l = x if isinstance(x, list) else [x]
            for y in l:
                if k in ("freq", "until", "byday", "wkst"):
                    if not isinstance(y, str):
                        raise Bad("rule part %s=%r" % (k, y))
                elif not isinstance(y, int):
                    raise Bad("rule part %s=%r" % (k, y))
            if k == "until":
                full(r"\d{4}-\d\d-\d\d(T\d\d:\d\d:\d\dZ?)?", x, "until")
            d[k.upper()] = [str(y) for y in l]
        return c_rule(d)
    if t == "PERIOD":
        need(list, "array of start and end")
        if len(v) != 2:
            raise Bad("period %r" % (v,))
        return [c_dtx(v[0]), _end(v[1], True)]
    need(str, "string")
    return {"DATE": c_dx, "DATE-TIME": c_dtx, "DURATION": c_dur, "UTC-OFFSET": lambda s: c_offset(s, True)}.get(t, lambda s: s)(v)


def from_jcal(j):
    name, props, subs = j
    if name != name.lower():
        raise Bad("component name %r" % name)
    out = []
    for p in props:
        if len(p) < 4:
            raise Bad("property without a value: %r" % (p,))
        n, ps, t, vals = p[0], p[1], p[2], p[3:]
        if n != n.lower() or t != t.lower() or not isinstance(ps, dict):
            raise Bad("property %r" % (p,))
        params = []
        for k, v in ps.items():
            if k != k.lower() or k == "value":
                raise Bad("parameter %r" % k)
            params.append((k.upper(), v if isinstance(v, list) else [v]))
        N, T = n.upper(), t.upper()
        if len(vals) > 1 and N not in MULTI:
            raise Bad("several values: %r" % (p,))
        cv = [j_value(N, T, v) for v in vals]
        if N == "GEO" and T == "FLOAT":
            T = "GEO"
        if N == "REQUEST-STATUS" and T == "TEXT":
            T = "STATUS"
        out.append([N, T, canon_params(params), cv])
    return [name.upper(), sorted(out, key=key), sorted((from_jcal(s) for s in subs), key=key)]


# ---------------------------------------------------------------- xCal (RFC 6321)
NS = "{urn:ietf:params:xml:ns:icalendar-2.0}"


def _tag(e):
    if not e.tag.startswith(NS):
        raise Bad("element %s" % e.tag)
    return e.tag[len(NS):]


def _txt(e):
    if len(e):
        raise Bad("unexpected children in %s" % e.tag)
    return e.text or ""


def _empty(e):
    if (e.text or "").strip():
        raise Bad("unexpected text in %s" % e.tag)


def x_value(e):
    t = _tag(e).upper()
    if t == "PERIOD":
        _empty(e)
        d = [(_tag(c), _txt(c)) for c in e]
        if [k for k, _ in d] not in (["start", "end"], ["start", "duration"]):
            raise Bad("period %r" % (d,))
        return t, [c_dtx(d[0][1]), c_dur(d[1][1]) if d[1][0] == "duration" else c_dtx(d[1][1])]
    if t == "RECUR":
        _empty(e)
        r = {}
        for c in e:
            if _tag(c) == "until" and len(c) == 1 and _tag(c[0]) in ("date", "date-time"):
                _empty(c)
                if (_tag(c[0]) == "date") == ("T" in _txt(c[0])):
                    raise Bad("until %s" % _txt(c[0]))
                c, t2 = c[0], "UNTIL"
            else:
                t2 = _tag(c).upper()
            r.setdefault(t2, []).append(_txt(c))
        for u in r.get("UNTIL", []):
            full(r"\d{4}-\d\d-\d\d(T\d\d:\d\d:\d\dZ?)?", u, "until")
        return t, c_rule(r)
    s = _txt(e)
    return t, {"DATE": c_dx, "DATE-TIME": c_dtx, "DURATION": c_dur, "INTEGER": int, "FLOAT": float, "UTC-OFFSET": lambda v: c_offset(v, True)}.get(t, lambda v: v)(s)


def x_prop(e):
    name = _tag(e).upper()
    kids = list(e)
    _empty(e)
    params = []
    if kids and _tag(kids[0]) == "parameters":
        for p in kids[0]:
            params.append((_tag(p).upper(), [_txt(v) for v in p]))
        kids = kids[1:]
    if name == "GEO":
        if [_tag(k) for k in kids] != ["latitude", "longitude"]:
            raise Bad("geo: %r" % [k.tag for k in kids])
        return [name, "GEO", canon_params(params), [[float(_txt(k)) for k in kids]]]
    if name == "REQUEST-STATUS":
        if [_tag(k) for k in kids] not in (["code", "description"], ["code", "description", "data"]):
            raise Bad("request-status: %r" % [k.tag for k in kids])
        return [name, "STATUS", canon_params(params), [[_txt(k) for k in kids]]]
    if not kids:
        raise Bad("%s without a value" % name)
    vals = [x_value(k) for k in kids]
    if len(vals) > 1 and name not in MULTI:
        raise Bad("several values in %s" % name)
    ts = set(t for t, _ in vals)
    if len(ts) != 1:
        raise Bad("mixed value types in %s" % name)
    return [name, vals[0][0], canon_params(params), [v for _, v in vals]]


def x_comp(e):
    props, subs = [], []
    seen = []
    for k in e:
        t = _tag(k)
        if t in seen or t not in ("properties", "components"):
            raise Bad("element %s in %s" % (t, e.tag))
        seen.append(t)
        if t == "properties":
            props = [x_prop(p) for p in k]
        else:
            subs = [x_comp(c) for c in k]
    return [_tag(e).upper(), sorted(props, key=key), sorted(subs, key=key)]


def from_xcal(text):
    root = ET.fromstring(text)
    if _tag(root) != "icalendar" or len(root) != 1:
        raise Bad("root %s" % root.tag)
    return x_comp(root[0])


def diff(a, b, path=""):
    """first difference of two canonical trees, for messages"""
    if type(a) != type(b):
        return "%s: %r / %r" % (path, a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            ka, kb = [key(x) for x in a], [key(x) for x in b]
            only = [x for x in ka if x not in kb][:2], [x for x in kb if x not in ka][:2]
            return "%s: lengths %d/%d; only in first %s; only in second %s" % (path, len(a), len(b), only[0], only[1])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "/%s" % (x[0] if isinstance(x, list) and x and isinstance(x[0], str) else i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r / %r" % (path, a, b)

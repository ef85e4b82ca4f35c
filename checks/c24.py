"""C24: compiled time zones agree with the tz source rules at every instant."""
import datetime as D
import os
import re
from zoneinfo import ZoneInfo

from hypothesis import assume, strategies as st

from harness import ical, rrule_model as M, tzsource as T, tzzi
from harness.core import Test, expect

ID = "C24"
MODNAME = "checks.c24"
DAYS = 86400
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def year_secs(y):
    return (D.datetime(y, 1, 1) - T.EPOCH).days * DAYS


def show(t):
    return str(T.EPOCH + D.timedelta(seconds=t))


# ---------------------------------------------------------------- reading what was compiled
def off(t):
    s = -1 if t[0] == "-" else 1
    t = t[1:]
    return s * (int(t[:2]) * 3600 + int(t[2:4]) * 60 + int(t[4:6] or 0))


def secs_of(d):
    return (d - T.EPOCH).days * DAYS + (d - T.EPOCH).seconds


def stamp(t):
    return D.datetime.strptime(t, "%Y%m%dT%H%M%S")


def onsets(node, limit):
    """[(utc, from, to, name, daylight)] of a VTIMEZONE"""
    res = []
    for o in node.subs:
        f, t = off(o.value("TZOFFSETFROM")), off(o.value("TZOFFSETTO"))
        s = stamp(o.value("DTSTART"))
        xs = {s}
        for p in o.get("RRULE"):
            r = {"freq": "YEARLY", "interval": 1}
            for kv in p[3].split(";"):
                k, v = kv.split("=")
                if k == "FREQ":
                    expect(v == "YEARLY", "onsets recur by the year", rule=p[3])
                elif k == "UNTIL":
                    r["until"] = D.datetime.strptime(v, "%Y%m%dT%H%M%SZ") + D.timedelta(seconds=f)
                elif k == "BYDAY":
                    r["byday"] = [[int(x[:-2] or 0), M.DAYS.index(x[-2:])] for x in v.split(",")]
                else:
                    expect(k in ("BYMONTH", "BYMONTHDAY", "BYYEARDAY"), "parts of the recurrence of onsets", rule=p[3])
                    r[k.lower()] = [int(x) for x in v.split(",")]
            found = M.Rule(r, s).instances(limit_dt=limit)
            expect(s in found or s >= limit, "an onset's start is an instance of its rule", rule=p[3], start=str(s))
            xs.update(found)
        for p in o.get("RDATE"):
            xs.update(stamp(x) for x in p[3].split(","))
        res += [(secs_of(x) - f, f, t, o.value("TZNAME"), o.name == "DAYLIGHT") for x in xs]
    return sorted(res)


def steady(src, table, lo, hi):
    """whether the compiled rules go on after hi unchanged"""
    std, rule, fmt, until = src["zone"][-1]
    began = T.until_of(src["zone"][-2][3])[0] if len(src["zone"]) > 1 else year_secs(1800)
    if lo > hi - 4 or began > year_secs(hi - 3):
        return False
    if T.fixed(rule):
        return True
    rs = [T.Rule(r) for r in src["rules"][rule]]
    return all(r.to < hi - 3 or r.to == 9999 and r.frm <= hi - 4 for r in rs)


def judge(src, got, lo, hi, rec, extra=()):
    table = T.expand(src["rules"], src["zone"], hi + 16)
    a, b = year_secs(lo), year_secs(hi) - 10 * DAYS
    far = year_secs(hi + 12) if steady(src, table, lo, hi) else b
    listed = []
    for text, f, t in got["list"]:
        listed.append((secs_of(stamp(text)) - f, f, t, None, None))
    nodes = ical.parse(got["vtz"])
    expect(len(nodes) == 1 and nodes[0].name == "VTIMEZONE", "one VTIMEZONE")
    expect(len(nodes[0].subs) >= 1, "a VTIMEZONE has an onset", vtz=got["vtz"])
    vt = onsets(nodes[0], D.datetime(hi + 13, 1, 1))
    for x, y in zip(listed, listed[1:]):
        expect(x[0] < y[0], "transitions are in order", first=show(x[0]), second=show(y[0]))
    for kind, entries, end in (("transitions", listed, b), ("VTIMEZONE", vt, far)):
        expect(entries, "there are " + kind)
        for x, y in zip(entries, entries[1:]):
            if y[0] < end:
                expect(x[2] == y[1], kind + ": each change is from the offset before", at=show(y[0]), got=y[1], want=x[2])
        pts = {a, end - 1}
        for x in table[1:]:
            pts.update((x[0] - 1, x[0]))
        for x in entries:
            pts.update((x[0] - 1, x[0], x[0] + 5 * DAYS))
        pts.update(year_secs(y) + k for y in range(lo, hi) for k in (20 * DAYS, 200 * DAYS))
        for p in sorted(pts):
            if not a <= p < end:
                continue
            want = T.at(table, p)
            if p < entries[0][0]:
                expect(entries[0][1] == want[1], kind + ": offset before the first change", at=show(p), got=entries[0][1], want=want[1], vtz=got["vtz"])
                continue
            e = T.at(entries, p)
            expect(e[2] == want[1], kind + ": offset", at=show(p), got=e[2], want=want[1], since=show(e[0]), table=[(x[0] and show(x[0]),) + x[1:] for x in table if x[0] and abs(x[0] - p) < 800 * DAYS], vtz=got["vtz"])
            if kind == "VTIMEZONE":
                if want[2] is not None:
                    expect(e[3] == want[2], "abbreviation", at=show(p), got=e[3], want=want[2], vtz=got["vtz"])
                expect(e[4] == want[3], "daylight saving or standard", at=show(p), got=e[4], want=want[3], vtz=got["vtz"])
            for tz in extra:
                x = D.datetime.fromtimestamp(p, D.timezone.utc).astimezone(tz)
                expect([int(x.utcoffset().total_seconds()), x.tzname()] == [want[1], want[2]] or want[2] is None, "the reference agrees with the system", at=show(p), got=[x.utcoffset(), x.tzname()], want=want)
    n = len([x for x in table[1:] if a <= x[0] < b])
    rec.label("changes:%s" % ("0" if not n else "1-5" if n < 6 else "6+"))
    if far > b:
        rec.label("goes on")
    return n


# ---------------------------------------------------------------- source text
def fmt_line(fields, style):
    sep = ["\t", " ", "  ", "\t\t"][style % 4]
    return sep.join(fields) + ["", "", "\t# note", " #note", "   "][style % 5]


def rule_text(name, rules, style):
    lines = []
    for i, r in enumerate(rules):
        lines.append(fmt_line(["Rule", name, r[0], r[1], "-"] + r[2:], style + i if style else 0))
        if style and (style + i) % 7 == 3:
            lines.append("# about this")
    return "\n".join(lines)


def zone_text(name, zone, style):
    lines = []
    for i, z in enumerate(zone):
        f = [x for x in z if x]
        lines.append(fmt_line(["Zone", name] + f if i == 0 else ["\t\t", *f] if style % 2 else ["\t", "", *f], style + i if style else 0))
        if style and (style + i) % 6 == 4:
            lines.append("\t\t\t# a remark about it")
    return "\n".join(lines)


def canon_rule(name, r):
    return "\t".join(["Rule", name, r[0], r[1], "-"] + r[2:])


def fields(text):
    return [l.split() for l in text.split("\n") if l.strip()]


# ---------------------------------------------------------------- generators
TIMES = st.sampled_from(["2:00", "2:00", "2:00", "0:00", "1:00u", "1:00s", "24:00", "2", "0", "3:00w", "23:00", "22:00u", "0:01", "1:00g", "16:00z", "0:00s", "23:00s", "0:20:30", "-", "25:00", "-1:00", "12:00u"])
SAVES = st.sampled_from(["1:00", "1:00", "1:00", "1", "0:30", "2:00", "0:20", "-1:00", "1:30"])
LETTERS = ["D", "S", "W", "P", "-", "XST", "DD"]


@st.composite
def on_day(draw, m):
    k = draw(st.integers(0, 7))
    if k < 3:
        return "last" + draw(st.sampled_from(T.DAY))
    if k < 6:
        return draw(st.sampled_from(T.DAY)) + ">=" + str(draw(st.one_of(st.sampled_from([1, 1, 8, 15, 22, 25, MDAYS[m] - 6]), st.integers(1, MDAYS[m]))))
    if k < 7:
        return draw(st.sampled_from(T.DAY)) + "<=" + str(draw(st.one_of(st.sampled_from([1, 7, 14, 28]), st.integers(1, MDAYS[m]))))
    return str(draw(st.one_of(st.sampled_from([1, MDAYS[m]]), st.integers(1, MDAYS[m]))))


@st.composite
def rule_set(draw, base):
    out = []
    y = base + draw(st.integers(-5, 10))
    for seg in range(draw(st.integers(1, 4))):
        if y > 2045:
            break
        n = draw(st.sampled_from([1, 1, 2, 3, 5, 12, 30, 0]))
        m1 = draw(st.integers(0, 11))
        m2 = (m1 + draw(st.integers(2, 10))) % 12
        to = "max" if n == 0 else "only" if n == 1 and draw(st.booleans()) else str(y + n - 1)
        std, dst = draw(st.sampled_from(["0", "0", "0:00", "-"])), draw(SAVES)
        neg = draw(st.integers(0, 11)) == 0
        for m, save, letters in ((m1, dst, ["D", "W", "XST"]), (m2, std, ["S", "S", "-"])):
            if neg and save is std:
                save = draw(SAVES)
            out.append([str(y), to, T.MON[m], draw(on_day(m)), draw(TIMES), save, draw(st.sampled_from(letters))])
        if draw(st.integers(0, 3)) == 0:
            # something once
            m = (m1 + draw(st.integers(1, 11))) % 12
            out.append([str(y + draw(st.integers(0, max(n - 1, 0)))), "only", T.MON[m], draw(on_day(m)), draw(TIMES), draw(st.sampled_from(["0", "1:00", "2:00", "0:30"])), draw(st.sampled_from(LETTERS))])
        if n == 0:
            break
        y += n + draw(st.sampled_from([0, 0, 0, 1, 4, 20]))
    if draw(st.booleans()):
        out = draw(st.permutations(out))
    return out


OFFS = st.sampled_from(["-5:00", "1:00", "0:00", "0", "5:30", "-3:30", "-0:44", "-4:56:02", "14:00", "-12:00", "10", "-8:00", "-0:25:21", "9:30", "0:30", "-11"])
FORMATS = ["E%sT", "E%sT", "AB/CD", "LMT", "%z", "XYZ", "+05/+06", "C%sT"]


def whens(rs, lo=1895, hi=2065):
    return [(t, r) for r in map(T.Rule, rs) for t in [r.when(y)[0] for y in range(max(lo, r.frm), min(hi, r.to) + 1)]]


@st.composite
def sources(draw):
    names = ["RA", "R_b", "c-rs"][:draw(st.sampled_from([1, 1, 1, 0, 2, 2, 3]))]
    base = draw(st.integers(1910, 2020))
    rules = {n: draw(rule_set(base)) for n in names}
    for n in names:
        ts = sorted(t for t, _ in whens(rules[n]))
        assume(all(y - x > 3 * DAYS for x, y in zip(ts, ts[1:])))
    zone = []
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    y = base + draw(st.integers(-15, 5))
    std = draw(OFFS)
    for i in range(n):
        if i and draw(st.integers(0, 2)):
            std = draw(OFFS)
        rule = draw(st.sampled_from(names * 3 + ["-", "-", "1:00", "0:20", "-1:00"]))
        if i == 0 and n > 1 and draw(st.integers(0, 2)):
            rule = "-"
        fmt = draw(st.sampled_from(FORMATS))
        if T.fixed(rule) and "%s" in fmt:
            fmt = "LMT"
        if rule in rules and "%s" in fmt and not any(T.secs(r[5])[0] == 0 for r in rules[rule]):
            fmt = "QRS"
        until = ""
        if i < n - 1:
            until = str(y)
            some = [r for r in rules.get(rule, []) if int(r[0]) >= y - 3] + [r for r in rules.get(rule, []) if int(r[0]) < y and T.Rule(r).to >= y]
            if some and draw(st.integers(0, 2)) == 0:
                r = draw(st.sampled_from(some))
                y = max(int(r[0]), y) if T.Rule(r).to >= y else int(r[0])
                until = " ".join([str(y), r[2], r[3], r[4]])
                if draw(st.booleans()):
                    until = until.replace(r[3], str(T.day_of(y, T.MON.index(r[2]) + 1, r[3]).day)) if T.day_of(y, T.MON.index(r[2]) + 1, r[3]).month == T.MON.index(r[2]) + 1 else until
            else:
                k = draw(st.integers(0, 3))
                m = draw(st.integers(0, 11))
                if k > 0:
                    until += " " + T.MON[m]
                if k > 1:
                    until += " " + draw(st.one_of(on_day(m), st.integers(1, MDAYS[m]).map(str)))
                if k > 2:
                    until += " " + draw(TIMES)
            y += draw(st.sampled_from([1, 1, 2, 5, 15, 40]))
        zone.append([std, rule, fmt, until])
    src = {"rules": rules, "zone": zone}
    ends = [T.until_of(z[3])[0] for z in zone[:-1]]
    assume(all(y - x > 40 * DAYS for x, y in zip(ends, ends[1:])))
    for i, e in enumerate(ends):
        for z in zone[i:i + 2]:
            if z[1] in rules:
                assume(all(abs(t - e) > 3 * DAYS or t == e for t, _ in whens(rules[z[1]])))
    src["asks"] = []
    for _ in range(draw(st.integers(1, 3))):
        lo = draw(st.one_of(st.integers(base - 10, min(base + 40, 2040)), st.sampled_from([1800, 1970] + [int(z[3][:4]) for z in zone[:-1]] * 2 + sum([[int(r[0]), int(r[0]) - 1] for rs in rules.values() for r in rs], []))))
        src["asks"].append([lo, min(lo + draw(st.sampled_from([1, 3, 10, 40, 40, 70])), 2048)])
    src["asks"] = [x for x in src["asks"] if x[0] < x[1]] or [[1900, 1990]]
    src["style"] = draw(st.sampled_from([0, 0, 1, 2, 3, 5, 8, 13]))
    return src


def run_compiled(J, case, rec):
    rules, zone, style = case["rules"], case["zone"], case["style"]
    names = sorted(rules)
    got = J.call("tzcompile.direct", [rule_text(k, rules[k], style) for k in names], zone_text("Test/Zone_1", zone, style), case["asks"])
    n = 0
    for (lo, hi), g in zip(case["asks"], got["asks"]):
        n = max(n, judge(case, g, lo, hi, rec))
    expect(got["text"][0] == ["\n".join(canon_rule(k, r) for r in rules[k]) for k in names], "rule lines are written as read", got=got["text"][0])
    want = [[x for f in z for x in f.split()] for z in zone]
    want[0] = ["Zone", "Test/Zone_1"] + want[0]
    expect(fields(got["text"][1]) == want, "zone lines are written as read", got=fields(got["text"][1]), want=want)
    expect(got["same"] == [True, True], "what is written reads back the same", got=got["same"])
    expect(got["again"], "compiling what was written, in another order of years, gives the same")
    if any(z[3].count(" ") >= 2 and z[1] in rules and any(t == T.until_of(z[3])[0] for t, _ in whens(rules[z[1]])) for z in zone):
        rec.label("an era ends with a rule's change")
    if any("BYYEARDAY" in g["vtz"] for g in got["asks"]):
        rec.label("onsets counted in the year")
    rec.nt(n >= 2)


# ---------------------------------------------------------------- the system's own source
_system = []


def system():
    if not _system:
        r, z = tzzi.load()
        rules = {}
        for k, v in r.items():
            rules[k] = [l.split("\t")[2:4] + l.split("\t")[5:] for l in v]
        _system.append((rules, z))
    return _system[0]


@st.composite
def system_cases(draw):
    names = sorted(system()[1])
    lo = draw(st.integers(1800, 2030))
    return {"zone": draw(st.sampled_from(names)), "lo": lo, "hi": min(lo + draw(st.sampled_from([1, 10, 50, 240])), 2037)}


def run_system(J, case, rec):
    rules, zones = system()
    zone = zones[case["zone"]]
    src = {"rules": {z[1]: rules[z[1]] for z in zone if z[1] in rules}, "zone": zone}
    names = sorted(src["rules"])
    got = J.call("tzcompile.direct", [rule_text(k, rules[k], 0) for k in names], zone_text(case["zone"], zone, 0), [[case["lo"], case["hi"]]])
    try:
        tz = [ZoneInfo(case["zone"])]
    except Exception:
        tz = []
    n = judge(src, got["asks"][0], case["lo"], case["hi"], rec, tz)
    expect(got["same"] == [True, True], "what is written reads back the same")
    rec.nt(n >= 2)


# ---------------------------------------------------------------- files
@st.composite
def file_cases(draw):
    srcs = [draw(sources()) for _ in range(draw(st.integers(1, 3)))]
    names = ["Area/One", "Area/Sub/Two", "Three"][:len(srcs)]
    # abbreviations can be the name of a zone, too
    if draw(st.integers(0, 3)) == 0:
        names[0] = draw(st.sampled_from(["LMT", "EST", "XYZ"]))
    zones, rules = {}, {}
    for i, s in enumerate(srcs):
        zones[names[i]] = [[z[0], z[1] if T.fixed(z[1]) else "%s%d" % (z[1], i), z[2], z[3]] for z in s["zone"]]
        for k, v in s["rules"].items():
            rules["%s%d" % (k, i)] = v
    links = [[draw(st.sampled_from(names)), l] for l in ["Old/Name", "Alias", "Area/Extra", "EST5"][:draw(st.integers(0, 4))]]
    lo = draw(st.sampled_from([z[3] for s in srcs for z in s["zone"]][:-1] + [a[0] for s in srcs for a in s["asks"]]))
    lo = min(int(str(lo)[:4] or 1970), 2040)
    return {"zones": zones, "rules": rules, "links": links, "lo": lo, "hi": min(lo + draw(st.sampled_from([2, 10, 40])), 2048), "style": draw(st.integers(0, 20)), "split": draw(st.integers(0, 50)),
            "newline": draw(st.booleans()), "only": draw(st.sampled_from([None, None, 0, 1])), "uselinks": draw(st.integers(0, 3)) > 0}


def run_files(J, case, rec):
    style = case["style"]
    chunks = [rule_text(k, v, style) for k, v in case["rules"].items()] + [zone_text(k, v, style) for k, v in case["zones"].items()] + [fmt_line(["Link"] + l, style) for l in case["links"]]
    # rules of one set need not stand together, and sections come in any order
    chunks = chunks[case["split"] % len(chunks):] + chunks[:case["split"] % len(chunks)]
    cut = case["split"] % 3
    texts = [["# tz source", ""] + chunks] if cut == 0 else [chunks[0::2], ["#"] + chunks[1::2]]
    texts = ["\n".join(x) + ("\n" if case["newline"] else "") for x in texts if x]
    names = sorted(case["zones"])
    only = None if case["only"] is None else names[:case["only"]]
    wanted = only or names
    lo, hi = case["lo"], case["hi"]
    got = J.call("tzcompile.files", texts, [[n, [lo, hi]] for n in names], lo, hi, case["uselinks"], only)
    expect(got["refused"] == [], "files outside the output directory are left alone", got=got["refused"])
    expect(got["names"] == names, "zones read", got=got["names"], want=names)
    expect(got["links"] == sorted([l[1], l[0]] for l in case["links"]), "links read", got=got["links"])
    expect(sorted(map(fields, got["rules"])) == sorted(fields("\n".join(canon_rule(k, r) for r in v)) for k, v in case["rules"].items()), "rules read", got=got["rules"])
    expect(got["sets"] == [[k, k] for k in sorted(case["rules"])], "rule sets know their names", got=got["sets"])
    n = 0
    texts = {}
    for (name, g), l in zip(got["asks"], got["lists"]):
        src = {"rules": case["rules"], "zone": case["zones"][name]}
        n = max(n, judge(src, g, lo, hi, rec))
        expect(l == g["list"], "expandZone gives the transitions", zone=name)
        node = ical.parse(g["vtz"])[0]
        expect(node.value("TZID") == name, "TZID", got=node.value("TZID"), want=name)
        texts[name] = body(node)
    cal = ical.parse(got["all"])[0]
    expect({s.value("TZID"): body(s) for s in cal.subs} == {k: texts[k] for k in wanted} and len(cal.subs) == len(wanted), "all zones in one calendar", want=wanted, got=[s.value("TZID") for s in cal.subs])
    want = {k + ".ics": [k, texts[k]] for k in wanted}
    links = {l[1]: l[0] for l in case["links"]}
    if case["uselinks"]:
        want.update({k + ".ics": [k, texts[v]] for k, v in links.items() if v in wanted})
        index = got["files"].pop("links.txt", "")
        expect(sorted(x.split("\t") for x in index.split("\n") if x) == sorted([k, v] for k, v in links.items() if v in wanted), "the index of links", got=index)
    expect(sorted(got["files"]) == sorted(want), "one file for each zone and link, and none left from before", got=sorted(got["files"]), want=sorted(want))
    for k, (name, text) in want.items():
        c = ical.parse(got["files"][k])[0]
        expect(len(c.subs) == 1 and c.subs[0].value("TZID") == name and body(c.subs[0]) == text, "file of a zone", file=k, got=got["files"][k])
    if links:
        rec.label("links")
    rec.nt(n >= 2)


def body(node):
    """the onsets of a VTIMEZONE, as text"""
    return sorted([s.name] + sorted([p[1] + ":" + p[3] for p in s.props]) for s in node.subs)


TESTS = [Test("compiled", sources(), run_compiled, quick=3000, thorough=40000, shards=6),
         Test("system", system_cases(), run_system, quick=300, thorough=5000, shards=2),
         Test("files", file_cases(), run_files, quick=250, thorough=4000, shards=2)]
RULE = ("`compiled`: 0-3 rule sets (spans of years with day, time, saving and letter in any form) and a zone of 1-5 eras, in free layout, compiled for 1-3 spans of years. `system`: a zone of the system's own tz source over a span of years. `files`: files of rules, zones and links compiled into a directory. "
        "Every listed change, the second before it and dates between are compared with the reference expander. Non-trivial: the zone changes twice or more in the years compiled.")
ASSUMPTIONS = ["within one rule set, and between a rule and the end of an era, changes are over three days apart or coincide exactly",
               "before the first onset of a VTIMEZONE its TZOFFSETFROM applies; the abbreviation then is unspecified",
               "the last ten days of the last year are not judged (a rule of the year after can take effect in them)",
               "two changes at one local time are one, as the tz compiler has it",
               "a VTIMEZONE goes on after the last compiled year when the rules in force have been the same for over three years before"]

"""C15: the component derived for one instance of a recurring item."""
import datetime as D

from hypothesis import assume, strategies as st

from checks import c14
from checks.c14 import Kind, P, calendar_text
from harness import gen_rrule as G, ical, rrule_model as M, tzdefs as Z
from harness.core import Test, expect

ID = "C15"
MODNAME = "checks.c15"
RULE = ("a case is a calendar with one recurring event, to-do or journal (DTEND, DUE, DURATION or none; date-only, floating, UTC or zoned; rules, RDATEs, EXDATEs, other overrides, alarms, any other properties), "
        "and 1-3 recurrence-ids given in UTC, in the master's zone or in another zone. Non-trivial: an instance other than the first.")
ASSUMPTIONS = ["the recurrence-ids asked for are instances (the method's documented precondition)", "instances at times that exist once, no length crossing a change of offset", "2012-2030"]
RECUR = ("RRULE", "RDATE", "EXRULE", "EXDATE")
EXTRA = ["LOCATION:Room 1\\, 2", "DESCRIPTION:a\\;b\\nc", "CATEGORIES:A,B", "ATTENDEE;CN=\"X; Y\":mailto:x@example.com", "SEQUENCE:3", "X-FOO;X-BAR=\"1,2\":baz", "CLASS:PRIVATE", "ATTENDEE:mailto:z@example.com",
         "COMMENT;LANGUAGE=fr:\u00e9t\u00e9 \U0001f600"]
ALARM = ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:al", "TRIGGER:-PT15M", "END:VALARM"]


def text_of(case):
    t = calendar_text({"events": [case["event"]]})
    comp, e = case["comp"], case["event"]
    lines = t.split("\r\n")
    out, master, incomp = [], False, False
    for l in lines:
        if l == "BEGIN:VEVENT":
            incomp = True
        if l == "SUMMARY:M0":
            master = True
        if incomp and comp == "VTODO" and l.startswith("DTEND"):
            l = "DUE" + l[5:]
        if l == "END:VEVENT":
            if master:
                out += [EXTRA[n] for n in case["extra"]]
                if comp != "VJOURNAL" and case["alarm"]:
                    out += ALARM
            master = incomp = False
        if comp != "VEVENT":
            l = l.replace(":VEVENT", ":" + comp) if l in ("BEGIN:VEVENT", "END:VEVENT") else l
        out.append(l)
    return "\r\n".join(out)


def rid_arg(case, rid):
    """[text, tzid] for the recurrence-id in the requested form"""
    x, form = P(rid[0]), rid[1]
    k = Kind(case["event"]["kind"])
    if k.date:
        return [G.fmt(x, True), None]
    if k.k == "float":
        return [G.fmt(x, False), None]
    u = k.abs(x)
    if form == "own":
        return [G.fmt(x, False), k.zone] if k.zone else [G.fmt(u, False, True), None]
    if form == "utc":
        return [G.fmt(u, False, True), None]
    return [G.fmt(Z.from_utc(u, form), False), form]


def canon(props):
    return sorted([p[1], sorted((a, b) for a, b in p[2]), p[3]] for p in props)


def run(J, case, rec):
    text = text_of(case)
    for z in set(r[1] for r in case["rids"]) & set(Z.ZONES):
        if "TZID:%s\r\n" % z not in text:
            text = text.replace("BEGIN:%s" % case["comp"], "\r\n".join(Z.ZONES[z]) + "\r\nBEGIN:" + case["comp"], 1)
    e = case["event"]
    k = Kind(e["kind"])
    got = J.call("cal.derive", text, [rid_arg(case, r) for r in case["rids"]], case["ranges"])
    cal = ical.parse(text)[0]
    master = [c for c in cal.subs if c.name == case["comp"] and c.value("SUMMARY") == "M0"][0]
    for r, g in zip(case["rids"], got):
        x = P(r[0])
        expect(g is not None, "nothing derived for an instance", rid=r)
        d = ical.parse(g["text"])[0]
        expect(d.name == case["comp"], "another kind of component", got=d.name)
        want = [p for p in master.props if p[1] not in RECUR + ("DTSTART", "DTEND", "DUE")]
        want += [ical.line(k.prop("RECURRENCE-ID", [x])), ical.line(k.prop("DTSTART", [x]))]
        dur = D.timedelta(seconds=e["dur"])
        if e["form"] == "end" and case["comp"] != "VJOURNAL":
            want.append(ical.line(k.prop("DUE" if case["comp"] == "VTODO" else "DTEND", [x + dur])))
        w, gp = canon(want), canon(d.props)
        expect(w == gp, "derived properties differ", missing=[p for p in w if p not in gp], extra=[p for p in gp if p not in w], text=g["text"], source=text[text.index("BEGIN:" + case["comp"]):])
        expect([canon(c.props) for c in d.subs] == [canon(c.props) for c in master.subs] and [c.name for c in d.subs] == [c.name for c in master.subs], "sub-components differ", text=g["text"])
        expect(g["same"], "asking changed the calendar", rid=r)
        expect(not g["recurring"], "the derived component recurs", text=g["text"])
        expect(g["start"][0] == c14.posix(k.abs(x)) and g["start"][1] == k.date, "start differs", got=g["start"], rid=r)
        if e["form"] != "none":
            expect(g["end"][0] == c14.posix(k.abs(x) + dur), "length differs", got=g["end"], rid=r, dur=e["dur"])
        expect(g["again"], "asking twice gives another answer", rid=r)
        if case["comp"] == "VEVENT":
            b = [sorted(i[1:] for i in l) for l in g["before"]]
            a = [sorted(i[1:] for i in l) for l in g["after"]]
            if x not in set(P(o["rid"]) for o in e["overrides"]) and not any(o["range"] for o in e["overrides"]) and not e["rperiods"] and e["form"] != "none":
                expect(a == b, "adding the derived component moved, lost or doubled instances", rid=r, before=b, after=a)
        expect(g["rid_after"] == G.fmt(x, k.date, k.k == "utc"), "moving the derived start moved its recurrence-id", got=g["rid_after"])
        if x != P(e["start"]):
            rec.nt()
    if e["overrides"]:
        lines = text.split("\r\n")
        m = lines.index("SUMMARY:M0")
        a = max(n for n in range(m) if lines[n] == "BEGIN:" + case["comp"])
        b = min(n for n in range(m, len(lines)) if lines[n] == "END:" + case["comp"])
        got = J.call("cal.derive", "\r\n".join(lines[:a] + lines[b + 1:]), [rid_arg(case, r) for r in case["rids"]], [])
        expect(got == [None] * len(got), "derived without a master", got=got)
        rec.label("without master")
    rec.label(case["comp"], e["kind"] if e["kind"] not in Z.ZONES else "zone", "length by " + e["form"], *["rid " + (r[1] if r[1] not in Z.ZONES else "other zone") for r in case["rids"]])


@st.composite
def cases(draw):
    kinds = ["date", "float", "utc"] + sorted(Z.ZONES)
    e, inst = draw(c14.event(kinds))
    k = Kind(e["kind"])
    comp = draw(st.sampled_from(["VEVENT", "VEVENT", "VTODO", "VJOURNAL"]))
    if comp == "VJOURNAL":
        e["form"] = "none"
        for o in e["overrides"]:
            o["form"] = "none"
    e["rperiods"] = []
    # the instances the item really has
    real = [P(e["start"])]
    for r in e["rules"]:
        r = dict(r)
        if r.get("until_text"):
            r["until"] = P(r["until_text"])
        real += M.Rule(r, P(e["start"])).instances(limit_dt=max(inst), limit_n=60)
    gone = set(P(d) for d in e["exdates"])
    for r in e["exrules"]:
        gone.update(M.Rule(r, P(e["start"])).instances(limit_dt=max(real + [P(d) for d in e["rdates"]])))
    ok = [x for x in sorted(set(real)) + [P(d) for d in e["rdates"]] if x not in gone]
    assume(ok and (e["rules"] or e["rdates"]))
    forms = ["own"] if k.date or k.k == "float" else ["own", "utc"] + sorted(Z.ZONES)
    rids = [[G.fmt(draw(st.sampled_from(ok)), k.date, k.k == "utc"), draw(st.sampled_from(forms))] for _ in range(draw(st.integers(1, 3)))]
    ranges = []
    for r in rids[:1]:
        a = P(r[0]) - D.timedelta(days=draw(st.integers(0, 20)))
        b = P(r[0]) + D.timedelta(days=draw(st.integers(1, 60)))
        ranges.append([G.fmt(a, k.date, True), G.fmt(b, k.date, True)])
    return {"event": e, "comp": comp, "rids": rids, "ranges": ranges, "extra": draw(st.lists(st.integers(0, len(EXTRA) - 1), max_size=4, unique=True)), "alarm": draw(st.booleans())}


TESTS = [Test("derive", cases(), run, quick=1500, thorough=40000, shards=4)]

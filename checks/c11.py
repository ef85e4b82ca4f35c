"""C11: recurrence-rule expansion against a brute-force model of RFC 5545."""
import datetime as D

from hypothesis import strategies as st

from harness import gen_rrule as G, rrule_model as M
from harness.core import Test, expect

ID = "C11"
MODNAME = "checks.c11"
RULE = ("a case is a rule, a DTSTART that the rule matches and a half-open range; the library's list is compared in order with a brute-force model. "
        "Non-trivial: the rule has a BY part, COUNT or UNTIL, and at least two instances lie in the range.")
ASSUMPTIONS = ["DTSTART matches the rule", "floating, UTC or date-only starts (no zone shifts)",
               "no BYSECOND=60; no time parts on date-only starts; no combination to which RFC 5545 gives no single meaning (BYWEEKNO with another day-of-year part; weeks over the year boundary together with INTERVAL or BYSETPOS)"]


def want(case):
    start = G.parse_dt(case["start"])
    r = dict(case["rule"])
    if r.get("until_text"):
        r["until"] = G.parse_dt(r["until_text"])
    a, b = map(G.parse_dt, case["range"])
    inst = M.Rule(r, start).instances(limit_dt=b)
    d, utc = "T" not in case["start"], case["start"].endswith("Z")
    return [G.fmt(x, d, utc) for x in inst if x >= a]


def run_expand(J, case, rec):
    w = want(case)
    text = M.text(case["rule"])
    k = {}
    if case.get("offset") is not None and "until_text" in case["rule"]:
        # a floating start with a UTC limit: the caller says how far its local time is ahead
        u = G.parse_dt(case["rule"]["until_text"]) - D.timedelta(seconds=case["offset"])
        text = M.text(dict(case["rule"], until_text=G.fmt(u, False, True)))
        k["float_offset"] = case["offset"]
        rec.label("floating start, UTC UNTIL")
    got, _ = J.call("rrule.expand", text, case["start"], [case["range"]], **k)[0]
    a, b = map(G.parse_dt, case["range"])
    s = G.parse_dt(case["start"])
    # DTSTART is an instance of the set in any case: the rule need not list it
    if case["start"] not in got and a <= s < b:
        got = [case["start"]] + got
    expect(got == w, "instances differ", rule=text, missing=[x for x in w if x not in got][:5], extra=[x for x in got if x not in w][:5], got=got[:12], want=w[:12])
    r = case["rule"]
    rec.nt((G.has_by(r) or "count" in r or "until_text" in r) and len(w) >= 2)
    rec.label(r["freq"], *[k for k in r if k.startswith("by")])
    if "count" in r:
        rec.label("COUNT")
    if "until_text" in r:
        rec.label("UNTIL")
    if w and r.get("interval", 1) > 1:
        rec.label("INTERVAL")


@st.composite
def cases(draw, **k):
    c, inst, horizon, d, utc = draw(G.cases(**k))
    if not d and not utc:
        c["offset"] = draw(st.sampled_from([None, 0, 3600, -18000, 20700, 50400, -36000]))
    c["range"] = draw(G.range_for(inst[0], inst, horizon, d, utc))
    return c


TESTS = [
    Test("yearly", cases(freqs=["YEARLY"]), run_expand, quick=2500, thorough=60000, shards=2),
    Test("monthly", cases(freqs=["MONTHLY"]), run_expand, quick=1800, thorough=40000, shards=2),
    Test("weekly", cases(freqs=["WEEKLY"]), run_expand, quick=1500, thorough=30000, shards=2),
    Test("daily", cases(freqs=["DAILY"]), run_expand, quick=1200, thorough=30000),
    Test("subdaily", cases(freqs=["HOURLY", "MINUTELY", "SECONDLY"]), run_expand, quick=600, thorough=15000, shards=2),
]

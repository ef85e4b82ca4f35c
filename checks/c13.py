"""C13: what an expansion returns does not depend on what was asked of the rule object before."""
import datetime as D

from hypothesis import assume, strategies as st

from harness import gen_rrule as G, rrule_model as M
from harness.core import Test, expect

ID = "C13"
MODNAME = "checks.c13"
RULE = ("a case is a rule and a sequence of calls on one rule object (expansions over several ranges, starts and instance limits; setters; copies; changes made by the caller to objects it passed or got back); "
        "each expansion is compared with the same expansion on a new object parsed from the object's current text. Non-trivial: at least two expansions that return something.")
ASSUMPTIONS = ["floating, UTC or date-only starts", "UNTIL and COUNT are not both switched on by setters"]


def run_history(J, case, rec):
    got = J.call("rrule.history", M.text(case["rule"]), case["ops"])
    n = 0
    for i, g in enumerate(got):
        if g[0] == "expand":
            expect(g[1] == g[2], "expansion differs from that of a new rule object", rule=M.text(case["rule"]), ops=case["ops"], step=i, got=g[1] if isinstance(g[1], str) else g[1][:10], want=g[2] if isinstance(g[2], str) else g[2][:10])
            n += bool(g[1])
            if g[1] == "too many":
                rec.label("too many")
    rec.nt(n >= 2)
    rec.label(*[o[0] for o in case["ops"]])


@st.composite
def histories(draw):
    c, inst, horizon, d, utc = draw(G.cases(freqs=["YEARLY", "MONTHLY", "MONTHLY", "WEEKLY", "WEEKLY", "DAILY", "DAILY", "HOURLY"]))
    start = inst[0]
    ops = []
    sub = c["rule"]["freq"] == "HOURLY"

    def setter():
        k = draw(st.sampled_from(["end", "end", "interval", "byday", "bymonth", "bymonthday", "bysetpos"] + ([] if sub else ["freq"])))
        if k == "end":
            e = draw(st.sampled_from(["none", "count", "until"]))
            s = [["usecount", e == "count"], ["useuntil", e == "until"]]
            if e == "count":
                s.append(["count", draw(st.integers(1, 12))])
            elif e == "until":
                s.append(["until", G.fmt(draw(st.sampled_from(inst)), d, utc)])
            return draw(st.permutations(s)) if e != "until" else s[::-1]
        return [[k, draw({"interval": st.integers(1, 4), "byday": st.lists(st.tuples(st.just(0), st.integers(0, 6)).map(list), min_size=1, max_size=3),
                          "bymonth": G.lst(st.integers(1, 12), 4), "bymonthday": G.lst(G.sgn(1, 28), 3), "bysetpos": st.sampled_from([[1], [-1], [1, -1], []]),
                          "freq": st.sampled_from(["DAILY", "WEEKLY", "MONTHLY"])}[k])]]

    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["expand"] * 6 + ["set", "set", "mutate_items", "mutate_start", "mutate_range", "dup", "swap", "clear"]))
        if k == "expand":
            s = start if draw(st.integers(0, 4)) else start + D.timedelta(days=draw(st.sampled_from([1, 7, 28, 31])))
            if ops and ops[-1][0] == "mutate_start" and draw(st.booleans()):
                prev = [o for o in ops if o[0] == "expand"]
                if prev:        # what the caller's own object now holds
                    s = G.parse_dt(prev[-1][1]) + D.timedelta(days=ops[-1][1])
            a, b = draw(G.range_for(start, inst, horizon, d, utc))
            b = min(b, G.fmt(start + D.timedelta(days=15 * 365 if not sub else 12), d, utc))
            if a >= b:
                a = G.fmt(start, d, utc)
            if a >= b:
                continue
            prev = [o for o in ops if o[0] == "expand"]
            if prev and draw(st.integers(0, 2)) == 0:
                # the range of an earlier call, a little longer or shorter
                a, b = prev[-1][2], G.parse_dt(prev[-1][3]) + D.timedelta(seconds=draw(st.sampled_from([1, -1, 60, 3600, -3600, 18000, 39600, 86400, -86400, 172800])))
                b = G.fmt(b, d, utc)
                if a >= b:
                    continue
                s = G.parse_dt(prev[-1][1])
            ops.append(["expand", G.fmt(s, d, utc), a, b, draw(st.sampled_from([None, None, None, 1, 3, 10, 30]))])
        elif k == "set":
            ops.append(["set", setter()])
        elif k.startswith("mutate"):
            ops.append([k, draw(st.sampled_from([1, -1, 7, 40]))])
        else:
            ops.append([k])
    last = [o for o in ops if o[0] == "expand"]
    assume(last)
    ops.append(list(last[draw(st.integers(0, len(last) - 1))]))
    ops[-1][4] = None
    return {"rule": c["rule"], "ops": ops}


def run_exclude(J, case, rec):
    before, after, fresh, text = J.call("rrule.exclude_future", M.text(case["rule"]), case["start"], case["range"][0], case["range"][1], case["exclude"])
    s = case["start"]
    want = sorted(set([s] + [x for x in before if x < case["exclude"]]))
    expect(sorted(set([s] + after)) == want, "instances left after dropping the future are wrong", rule=M.text(case["rule"]), start=s, exclude=case["exclude"], text=text, got=after[:12], want=want[:12])
    expect(after == fresh, "expansion after dropping the future differs from its own text", text=text)
    rec.nt(2 <= len(want) < len(set([s] + before)))


@st.composite
def excludes(draw):
    c, inst, horizon, d, utc = draw(G.cases(freqs=["YEARLY", "MONTHLY", "WEEKLY", "DAILY"]))
    assume(len(inst) > 1)
    x = draw(st.sampled_from(inst[1:])) + draw(st.sampled_from([D.timedelta(0), D.timedelta(days=1), D.timedelta(seconds=1)]))
    assume(x < horizon)
    return {"rule": c["rule"], "start": c["start"], "range": [G.fmt(inst[0], d, utc), G.fmt(horizon, d, utc)], "exclude": G.fmt(x, d, utc)}


TESTS = [
    Test("history", histories(), run_history, quick=1500, thorough=40000, shards=5),
    Test("exclude_future", excludes(), run_exclude, quick=600, thorough=15000, shards=2),
]

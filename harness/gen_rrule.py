"""Hypothesis strategies for recurrence rules with a DTSTART that matches."""
import datetime as D

from hypothesis import assume, strategies as st

from harness import rrule_model as M

FREQ_W = ["YEARLY"] * 5 + ["MONTHLY"] * 4 + ["WEEKLY"] * 3 + ["DAILY"] * 3 + ["HOURLY", "MINUTELY", "SECONDLY"]


def sgn(lo, hi):
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi).map(lambda x: -x))


def lst(s, n):
    return st.lists(s, min_size=1, max_size=n, unique=True)


seed_years = st.one_of(st.integers(1995, 2035), st.sampled_from([1971, 1996, 1999, 2000, 2004, 2020, 2024, 2028, 2096, 2099]), st.sampled_from([1896, 1899, 1900, 1901, 2097, 2098, 2099, 2100, 2101, 2199, 2200]))


@st.composite
def seeds(draw, dateonly=None):
    d = draw(st.booleans()) if dateonly is None else dateonly
    y = draw(seed_years)
    m = draw(st.integers(1, 12))
    day = draw(st.one_of(st.integers(1, 28), st.sampled_from([29, 30, 31, 28, 1])))
    day = min(day, M.dim(y, m))
    if d:
        return D.datetime(y, m, day), True
    return D.datetime(y, m, day, draw(st.sampled_from([0, 0, 1, 9, 12, 23])), draw(st.sampled_from([0, 0, 30, 59])), draw(st.sampled_from([0, 0, 1, 59]))), False


@st.composite
def rules(draw, dateonly=False, freqs=None, subday=True):
    """a rule of the shapes RFC 5545 gives one meaning (see C11 in DESIGN.md), without COUNT/UNTIL"""
    f = draw(st.sampled_from(freqs or FREQ_W))
    if dateonly and f in ("HOURLY", "MINUTELY", "SECONDLY"):
        f = "DAILY"
    r = {"freq": f}
    r["interval"] = draw(st.one_of(st.just(1), st.just(1), st.integers(1, 6), st.sampled_from([7, 12, 13, 25])))
    if f in ("HOURLY", "MINUTELY", "SECONDLY"):
        r["interval"] = draw(st.sampled_from([1, 1, 2, 3, 5, 6, 7, 11, 12, 24, 25, 36]))
    wk = draw(st.sampled_from([1, 1, 1, 0, 2, 3, 4, 5, 6]))
    if wk != 1:
        r["wkst"] = wk
    yes = lambda p: draw(st.integers(0, 99)) < p
    month = lst(st.integers(1, 12), 3)
    mday = lst(st.one_of(sgn(1, 31), st.sampled_from([1, 15, 28, 29, 30, 31, -1, -2, -28, -29, -30, -31])), 4)
    wds = lst(st.integers(0, 6), 4)

    def daylist(maxn):
        n = st.one_of(st.just(0), st.just(0), sgn(1, maxn))
        mixed = lst(st.tuples(n, st.integers(0, 6)).map(list).map(tuple), 4).map(lambda l: [list(x) for x in l])
        plain = wds.map(lambda l: [[0, x] for x in l])
        return st.one_of(plain, mixed)

    plainday = wds.map(lambda l: [[0, x] for x in l])
    if f == "YEARLY":
        shape = draw(st.sampled_from(["none", "month", "monthday", "month+monthday", "month+day", "day", "yearday", "weekno+day", "weekno", "monthday+day", "month+monthday+day", "yearday+day"]))
        if "weekno" in shape:
            r["byweekno"] = draw(lst(st.one_of(sgn(1, 53), st.sampled_from([1, 2, 52, 53, -1, -2, -52, -53])), 3))
            r.pop("wkst", None) if draw(st.integers(0, 3)) else None
            if "day" in shape:
                r["byday"] = draw(plainday)
            # weeks that reach into a neighbouring year belong to one year only when every year is visited
        else:
            if shape.startswith("month+") or shape == "month":
                r["bymonth"] = draw(month)
            if "yearday" in shape:
                r["byyearday"] = draw(lst(st.one_of(sgn(1, 366), st.sampled_from([1, 31, 32, 59, 60, 61, 365, 366, -1, -365, -366, -306])), 4))
            if "monthday" in shape:
                r["bymonthday"] = draw(mday)
            if shape.endswith("+day"):
                r["byday"] = draw(daylist(5) if shape == "month+day" else plainday)
            elif shape == "day":
                r["byday"] = draw(st.one_of(daylist(53), daylist(5)))
    elif f == "MONTHLY":
        shape = draw(st.sampled_from(["none", "monthday", "day", "monthday+day"]))
        if yes(25):
            r["bymonth"] = draw(month)
        if "monthday" in shape:
            r["bymonthday"] = draw(mday)
        if shape == "day":
            r["byday"] = draw(daylist(5))
        elif shape == "monthday+day":
            r["byday"] = draw(plainday)
    elif f == "WEEKLY":
        if yes(25):
            r["bymonth"] = draw(month)
        if yes(70):
            r["byday"] = draw(plainday)
    else:
        if yes(30):
            r["bymonth"] = draw(month)
        if yes(30):
            r["bymonthday"] = draw(mday)
        if yes(30):
            r["byday"] = draw(plainday)
        if f != "DAILY" and yes(12):
            r["byyearday"] = draw(lst(sgn(1, 366), 4))
    if not dateonly and subday:
        hi = 40 if f in ("HOURLY", "MINUTELY", "SECONDLY") else 18
        if yes(hi):
            r["byhour"] = draw(lst(st.sampled_from([0, 1, 6, 9, 12, 18, 22, 23]), 3))
        if yes(hi):
            r["byminute"] = draw(lst(st.sampled_from([0, 1, 15, 30, 45, 59]), 3))
        if yes(hi * 2 // 3):
            r["bysecond"] = draw(lst(st.sampled_from([0, 1, 20, 30, 59]), 2))
    if any(k.startswith("by") for k in r) and yes(35):
        r["bysetpos"] = draw(lst(st.one_of(sgn(1, 4), sgn(1, 10), sgn(1, 60)), 3))
    return r


def first_match(r, seed):
    """first instance of the rule anchored at seed, or None"""
    sub = r["freq"] in ("HOURLY", "MINUTELY", "SECONDLY")
    got = M.Rule(r, seed).instances(limit_n=1, max_periods=3000 if sub else {"YEARLY": 60, "MONTHLY": 200, "WEEKLY": 300, "DAILY": 800}[r["freq"]])
    return got[0] if got else None


def fmt(dt, dateonly, utc=False):
    return dt.strftime("%Y%m%d").rjust(8, "0") if dateonly else dt.strftime("%Y%m%dT%H%M%S").rjust(15, "0") + ("Z" if utc else "")


HORIZON_DAYS = {"YEARLY": 9000, "MONTHLY": 2600, "WEEKLY": 1200, "DAILY": 500, "HOURLY": 25, "MINUTELY": 2, "SECONDLY": 0.02}
PERIODS = {"YEARLY": 27, "MONTHLY": 90, "WEEKLY": 180, "DAILY": 520, "HOURLY": 620, "MINUTELY": 3000, "SECONDLY": 2000}


def has_by(r):
    return any(k.startswith("by") for k in r)


def parse_dt(t):
    t = t.rstrip("Z")
    return D.datetime.strptime(t, "%Y%m%dT%H%M%S" if "T" in t else "%Y%m%d")


def ambiguous(r):
    """shapes to which RFC 5545 gives no single meaning"""
    if r.get("byweekno") and (r.get("bymonth") or r.get("byyearday") or r.get("bymonthday")):
        return True
    if r.get("byweekno") and (r.get("interval", 1) > 1 or r.get("bysetpos")):
        # a week that reaches into the neighbouring year: which FREQ period it is in is unclear
        if any(abs(w) in (1, 52, 53) for w in r["byweekno"]):
            return True
    if r["freq"] == "WEEKLY" and r.get("bysetpos") and r.get("bymonth"):
        return False
    return False


@st.composite
def cases(draw, freqs=None, dateonly=None, subday=True, ends=True, maxinst=60):
    """[rule, start text, instance texts] with COUNT/UNTIL chosen near the instances"""
    seed, d = draw(seeds(dateonly))
    r = draw(rules(dateonly=d, freqs=freqs, subday=subday))
    assume(not ambiguous(r))
    utc = (not d) and draw(st.booleans())
    start = first_match(r, seed)
    assume(start is not None)
    horizon = start + D.timedelta(days=HORIZON_DAYS[r["freq"]])
    inst = M.Rule(r, start).instances(limit_dt=horizon, limit_n=maxinst, max_periods=PERIODS[r["freq"]])
    assume(inst and inst[0] == start)
    end = draw(st.sampled_from(["none", "none", "count", "until"])) if ends else "none"
    if end == "count":
        r["count"] = draw(st.one_of(st.integers(1, 12), st.integers(1, len(inst))))
    elif end == "until":
        u = draw(st.sampled_from(inst)) + draw(st.sampled_from([D.timedelta(0), D.timedelta(0), D.timedelta(seconds=-1), D.timedelta(seconds=1), D.timedelta(days=-1), D.timedelta(days=3)]))
        u = max(u, start)
        if d:
            u = D.datetime(u.year, u.month, u.day)
        r["until_text"] = fmt(u, d, utc)
    return {"rule": r, "start": fmt(start, d, utc)}, inst, horizon, d, utc


@st.composite
def range_for(draw, start, inst, horizon, d, utc):
    """a half-open range whose ends lie at or around instances"""
    off = st.sampled_from([D.timedelta(0), D.timedelta(0), D.timedelta(seconds=1), D.timedelta(seconds=-1), D.timedelta(days=1), D.timedelta(days=-1), D.timedelta(hours=5)])
    def point():
        x = draw(st.one_of(st.sampled_from(inst), st.just(inst[0]), st.just(horizon), st.just(inst[-1]))) + draw(off)
        if d:
            x = D.datetime(x.year, x.month, x.day)
        return min(x, horizon)
    a, b = point(), point()
    if draw(st.booleans()):
        a, b = min(a, b), horizon - D.timedelta(days=draw(st.sampled_from([0, 1]))) if horizon - start > D.timedelta(days=3) else horizon
    if draw(st.integers(0, 2)) == 0:
        a = start - D.timedelta(days=draw(st.sampled_from([0, 1, 400])))
    if a > b:
        a, b = b, a
    if a == b:
        b = b + min(horizon - start, D.timedelta(days=1))
    return [fmt(a, d, utc), fmt(b, d, utc)]

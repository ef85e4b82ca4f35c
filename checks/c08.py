"""C08: date arithmetic against Python's datetime (proleptic Gregorian)."""
import datetime as D

from hypothesis import strategies as st

from harness.core import Test, expect

ID = "C08"
MODNAME = "checks.c08"
RULE = ("a case is a start value and a sequence of 1-25 operations and queries; every intermediate field set and answer is compared with "
        "a model built on Python's datetime. Non-trivial: the sequence changes the month or year, or mixes a query with a later mutation.")
ASSUMPTIONS = ["years 1753-9998", "adding months or years keeps the day number and rolls overflow days into the next month (the library's documented normalisation)"]

EPOCH = D.date(1970, 1, 1).toordinal()
MINO, MAXO = D.date(1753, 1, 8).toordinal(), D.date(9998, 12, 20).toordinal()
DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]


class OutOfRange(Exception):
    pass


def dim(y, m):
    return (D.date(y + (m == 12), m % 12 + 1, 1) - D.timedelta(days=1)).day


class Model(object):
    def __init__(self, f):
        self.y, self.m, self.d, self.H, self.M, self.S = f[:6]
        self.date = f[6] == "date"
        self.utc = f[6] == "utc"
        if self.date:
            self.H = self.M = self.S = 0

    def norm(self):
        t = (self.H * 60 + self.M) * 60 + self.S
        days, t = divmod(t, 86400)
        self.d += days
        if self.date:
            t = 0
        self.H, self.M, self.S = t // 3600, t // 60 % 60, t % 60
        y, m = divmod(self.y * 12 + self.m - 1, 12)
        if not 1753 <= y <= 9998:
            raise OutOfRange()
        self.setord(D.date(y, m + 1, 1).toordinal() + self.d - 1)

    def setord(self, o):
        if not MINO <= o <= MAXO:
            raise OutOfRange()
        x = D.date.fromordinal(o)
        self.y, self.m, self.d = x.year, x.month, x.day

    def ord(self):
        return D.date(self.y, self.m, 1).toordinal() + self.d - 1

    def valid(self):
        return 1 <= self.m <= 12 and 1 <= self.d <= dim(self.y, self.m)

    def posix(self):
        return (self.ord() - EPOCH) * 86400 + (self.H * 60 + self.M) * 60 + self.S

    def dow(self):
        return self.ord() % 7          # ordinal 7 is a Sunday

    def fields(self):
        return [self.y, self.m, self.d, self.H, self.M, self.S, self.date]

    def isoweek(self):
        return D.date(self.y, self.m, self.d).isocalendar()

    def nth_dow(self, first, last, off, dow):
        """ordinal of the off-th given weekday between two ordinals (may run past the end)"""
        if off > 0:
            return first + (dow - first % 7) % 7 + (off - 1) * 7
        return last - (last % 7 - dow) % 7 + (off + 1) * 7

    def apply(self, op):
        n, a = op[0], op[1:]
        ans = None
        if n in ("offsetSeconds", "add"):
            self.S += a[0]; self.norm()
        elif n == "sub":
            self.S -= a[0]; self.norm()
        elif n == "offsetMinutes":
            self.M += a[0]; self.norm()
        elif n == "offsetHours":
            self.H += a[0]; self.norm()
        elif n == "offsetDay":
            self.d += a[0]; self.norm()
        elif n == "offsetMonth":
            self.m += a[0]; self.norm()
        elif n == "offsetYear":
            self.y += a[0]; self.norm()
        elif n == "setYear":
            self.y = a[0]
        elif n == "setMonth":
            self.m = a[0]
        elif n == "setDay":
            self.d = a[0]
        elif n == "setHours":
            self.H = a[0]
        elif n == "setMinutes":
            self.M = a[0]
        elif n == "setSeconds":
            self.S = a[0]
        elif n == "setYYMMDD":
            self.y, self.m, self.d = a
        elif n == "setHHMMSS":
            self.H, self.M, self.S = a
        elif n == "setDateOnly":
            self.date = a[0]
        elif n == "dup":
            pass
        elif n == "subdt":
            o = Model(a[0])
            ans = [self.posix() - o.posix(), o.posix() - self.posix()]
        elif n == "setYearDay":
            k = a[0]
            if k > 0:
                self.setord(D.date(self.y, 1, 1).toordinal() + k - 1)
            else:
                self.setord(D.date(self.y, 12, 31).toordinal() + k + 1)
            self.norm()
        elif n == "setMonthDay":
            k = a[0]
            self.setord(D.date(self.y, self.m, 1).toordinal() + (k - 1 if k > 0 else dim(self.y, self.m) + k))
            self.norm()
        elif n == "setWeekNo":
            w = a[0]
            if self.isoweek()[1] != w:
                dow = (self.dow() - 1) % 7
                jan4 = D.date(self.y, 1, 4)
                monday = jan4.toordinal() - jan4.weekday()
                self.setord(monday + (w - 1) * 7 + dow)
                self.norm()
        elif n == "setDayOfWeekInYear":
            self.setord(self.nth_dow(D.date(self.y, 1, 1).toordinal(), D.date(self.y, 12, 31).toordinal(), a[0], a[1]))
            self.norm()
        elif n == "setDayOfWeekInMonth":
            self.setord(self.nth_dow(D.date(self.y, self.m, 1).toordinal(), D.date(self.y, self.m, dim(self.y, self.m)).toordinal(), a[0], a[1]))
            self.norm()
        elif n == "setNextDayOfWeek":
            o = D.date(self.y, self.m, 1).toordinal() + a[0] - 1
            self.setord(o + (a[1] - o % 7) % 7)
            self.norm()
        elif n == "recur":
            f, k = a
            if f == "YEARLY":
                self.y += k
                if not 1754 <= self.y <= 9997:
                    raise OutOfRange()
            elif f == "MONTHLY":
                y, m = divmod(self.y * 12 + self.m - 1 + k, 12)
                self.y, self.m = y, m + 1
                if not 1754 <= self.y <= 9997:
                    raise OutOfRange()
            else:
                if f == "WEEKLY":
                    self.d += 7 * k
                elif f == "DAILY":
                    self.d += k
                elif f == "HOURLY":
                    self.H += k
                elif f == "MINUTELY":
                    self.M += k
                else:
                    self.S += k
                self.norm()
        elif n == "q_posix":
            ans = self.posix()
        elif n == "q_dow":
            ans = self.dow()
        elif n == "q_yday":
            ans = self.ord() - D.date(self.y, 1, 1).toordinal() + 1
        elif n == "q_week":
            ans = self.isoweek()[1]
        elif n == "q_isWeekNo":
            ans = self.isoweek()[1] == a[0]
        elif n == "q_invalid":
            ans = not self.valid()
        elif n == "q_isMonthDay":
            ans = self.d == a[0] or self.d - dim(self.y, self.m) - 1 == a[0]
        elif n == "q_isDayOfWeekInMonth":
            off, dow = a
            ans = self.dow() == dow and (off == 0 or (self.d - 1) // 7 + 1 == off or -((dim(self.y, self.m) - self.d) // 7 + 1) == off)
        elif n == "q_text":
            t = "%04d%02d%02d" % (self.y, self.m, self.d)
            x = "%04d-%02d-%02d" % (self.y, self.m, self.d)
            f = self.fields()
            if self.date:
                f = f[:3] + [0, 0, 0, True]
            else:
                t += "T%02d%02d%02d" % (self.H, self.M, self.S)
                x += "T%02d:%02d:%02d" % (self.H, self.M, self.S)
                if self.utc:
                    t += "Z"; x += "Z"
            ans = [t, x] + [f + [self.utc and not self.date]] * 3
        elif n == "q_locale":
            d, m = DAYS[self.dow()], MONTHS[self.m - 1]
            ab, h12 = lambda s: s[:3], (self.H % 12) or 12
            ans = ["%s, %s %d, %d" % (d, m, self.d, self.y), "%s, %s %d, %d" % (ab(d), ab(m), self.d, self.y), "%d/%d/%d" % (self.m, self.d, self.y),
                   "%s, %s %d" % (d, m, self.d), "%s, %s %d" % (ab(d), ab(m), self.d), "%d/%d" % (self.m, self.d),
                   "%02d:%02d:%02d" % (self.H, self.M, self.S), "%d:%02d %s" % (h12, self.M, "AM" if self.H < 12 else "PM")]
        elif n == "q_compareDate":
            ans = [self.y, self.m, self.d] == a[0][:3]
        else:
            raise RuntimeError(n)
        if not 1754 <= self.y <= 9997:
            raise OutOfRange()
        return ans


NEEDS_VALID = {"setYearDay", "setMonthDay", "setWeekNo", "setDayOfWeekInYear", "setDayOfWeekInMonth", "setNextDayOfWeek", "q_week", "q_isWeekNo",
               "q_isMonthDay", "q_isDayOfWeekInMonth", "q_text", "q_locale", "subdt", "q_yday", "q_dow"}
CAL = {"setYearDay", "setMonthDay", "setWeekNo", "setDayOfWeekInYear", "setDayOfWeekInMonth", "setNextDayOfWeek", "recur"}

interesting_years = st.sampled_from([1754, 1799, 1800, 1801, 1896, 1899, 1900, 1901, 1904, 1968, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2026, 2027, 2028, 2037, 2038, 2099, 2100, 2101, 2104, 2200, 2399, 2400, 2401, 4000, 9996])
year = st.one_of(interesting_years, st.integers(1990, 2040), st.integers(1754, 9990))


@st.composite
def fields(draw, kinds=("float", "utc", "date")):
    y = draw(year)
    m = draw(st.integers(1, 12))
    d = draw(st.one_of(st.integers(1, dim(y, m)), st.sampled_from([1, dim(y, m)])))
    k = draw(st.sampled_from(kinds))
    if k == "date":
        return [y, m, d, 0, 0, 0, k]
    return [y, m, d, draw(st.one_of(st.integers(0, 23), st.sampled_from([0, 23]))), draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))), draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 59]))), k]


def signed(lim):
    return st.one_of(st.integers(-70, 70), st.integers(-lim, lim))


dow = st.integers(0, 6)
nz = lambda k: st.one_of(st.integers(1, k), st.integers(-k, -1))
op = st.one_of(
    st.tuples(st.just("offsetSeconds"), signed(10 ** 9)), st.tuples(st.just("offsetMinutes"), signed(10 ** 7)),
    st.tuples(st.just("offsetHours"), signed(10 ** 5)), st.tuples(st.just("offsetDay"), signed(40000)),
    st.tuples(st.just("offsetMonth"), signed(1200)), st.tuples(st.just("offsetYear"), st.integers(-120, 120)),
    st.tuples(st.just("add"), signed(10 ** 9)), st.tuples(st.just("sub"), signed(10 ** 9)),
    st.tuples(st.just("setYear"), year), st.tuples(st.just("setMonth"), st.integers(1, 12)), st.tuples(st.just("setDay"), st.integers(1, 31)),
    st.tuples(st.just("setHours"), st.integers(0, 23)), st.tuples(st.just("setMinutes"), st.integers(0, 59)), st.tuples(st.just("setSeconds"), st.integers(0, 59)),
    st.tuples(st.just("setHHMMSS"), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
    fields().map(lambda f: ("setYYMMDD", f[0], f[1], f[2])),
    st.tuples(st.just("setDateOnly"), st.booleans()), st.just(("dup",)),
    st.tuples(st.just("setYearDay"), nz(366)), st.tuples(st.just("setMonthDay"), nz(31)), st.tuples(st.just("setWeekNo"), st.integers(1, 52)),
    st.tuples(st.just("setDayOfWeekInYear"), nz(53), dow), st.tuples(st.just("setDayOfWeekInMonth"), nz(5), dow),
    st.tuples(st.just("setNextDayOfWeek"), st.integers(1, 28), dow),
    st.tuples(st.just("recur"), st.sampled_from(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]), st.integers(1, 400)),
)
query = st.one_of(
    st.just(("q_posix",)), st.just(("q_dow",)), st.just(("q_yday",)), st.just(("q_week",)), st.just(("q_text",)), st.just(("q_locale",)), st.just(("q_invalid",)),
    st.tuples(st.just("q_isMonthDay"), nz(31)), st.tuples(st.just("q_isWeekNo"), st.integers(1, 53)), st.tuples(st.just("q_isDayOfWeekInMonth"), st.integers(-5, 5), dow),
    st.tuples(st.just("subdt"), fields(("float", "utc"))), st.tuples(st.just("q_compareDate"), fields(("float",))),
)
ALLQ = [["q_invalid"], ["q_posix"], ["q_dow"], ["q_yday"], ["q_week"], ["q_text"], ["q_locale"]]


def run_history(J, case, rec):
    init, ops = case
    model = Model(init)
    todo, want = [], []
    months = set()
    queried = False
    for o in list(ops) + ALLQ:
        o = list(o)
        if not model.valid():
            if o[0] in NEEDS_VALID or (o[0] == "recur") or o[0] == "add" and False:
                continue
        if o[0] == "setDateOnly" and not o[1] and model.date and model.utc:
            pass
        if o[0] == "subdt" and model.date:
            continue
        if o[0] == "setDateOnly" and o[1] and (model.H or model.M or model.S):
            # what a time-of-day means inside a date-only value is not defined: clear it first
            todo.append(["setHHMMSS", 0, 0, 0]); model.apply(["setHHMMSS", 0, 0, 0]); want.append([model.fields(), None])
        if o[0] in ("setHours", "setMinutes", "setSeconds", "setHHMMSS") and model.date:
            continue
        if o[0] == "q_locale" and model.date:
            pass
        saved = dict(model.__dict__)
        try:
            ans = model.apply(o)
        except OutOfRange:
            model.__dict__.update(saved)
            continue
        todo.append(o)
        want.append([model.fields(), ans])
        if o[0].startswith("q_") or o[0] == "subdt":
            queried = True
        elif queried:
            rec.nt()
            rec.label("mutation after query")
        months.add((model.y, model.m))
        if o[0] in CAL:
            rec.label("calendar move")
    if len(months) > 1:
        rec.nt()
        rec.label("month change")
    if any(y > 2099 or y < 1901 for y, _ in months):
        rec.label("outside 1901-2099")
    got = J.call("dates.run", init, todo)
    for i, (w, g) in enumerate(zip(want, got)):
        expect(g[0] == w[0], "fields differ after %s" % (todo[i],), step=i, want=w[0], got=g[0])
        expect(g[1] == w[1], "answer differs for %s" % (todo[i],), step=i, fields=g[0], want=w[1], got=g[1])


def history(maxops):
    return st.tuples(fields(), st.lists(st.one_of(op, op, query), min_size=1, max_size=maxops)).map(lambda t: [t[0], [list(o) for o in t[1]]])


def run_sweep(J, case, rec):
    """one kind of move, from many days of one year, with many arguments"""
    y, kind, m, utc = case
    days = [(1, d) for d in range(1, 8)] + [(12, d) for d in range(25, 32)] + [(m, d) for d in range(9, 16)] + [(2, dim(y, 2)), (3, 1)]
    args = {"setWeekNo": [(1,), (2,), (26,), (51,), (52,)], "setYearDay": [(1,), (59,), (60,), (61,), (365,), (366,), (-1,), (-2,), (-306,), (-307,), (-365,), (-366,)],
            "setMonthDay": [(1,), (28,), (29,), (30,), (31,), (-1,), (-28,), (-29,), (-30,), (-31,)],
            "setDayOfWeekInYear": [(n, w) for n in (1, 2, 9, 52, 53, -1, -2, -44, -52, -53) for w in range(7)],
            "setDayOfWeekInMonth": [(n, w) for n in (1, 2, 4, 5, -1, -2, -4, -5) for w in range(7)],
            "q_isDayOfWeekInMonth": [(n, w) for n in (1, 2, 4, 5, 0, -1, -2, -4, -5) for w in range(7)],
            "q_week": [()], "q_yday": [()], "q_dow": [()], "q_posix": [()], "q_isMonthDay": [(1,), (28,), (31,), (-1,), (-28,), (-31,)],
            "recur": [(f, n) for f in ("MONTHLY", "YEARLY", "WEEKLY") for n in (1, 2, 12, 13)]}[kind]
    jobs, wants = [], []
    for i, (mm, d) in enumerate(days):
        for j, a in enumerate(args):
            if len(args) > 20 and (i + j) % 3:
                continue
            init = [y, mm, d, 0 if not utc else 23, 0, 0, "utc" if utc else "date"]
            model = Model(init)
            try:
                ans = model.apply([kind] + list(a))
            except OutOfRange:
                continue
            jobs.append([init, [[kind] + list(a)]])
            wants.append([model.fields(), ans])
    for job, w, g in zip(jobs, wants, J.call("dates.run_many", jobs)):
        expect(g[0] == w, "%s gives the wrong date or answer" % kind, case=job, want=w, got=g[0])
    rec.nt(kind not in ("q_posix", "q_dow"))
    rec.label(kind)


sweeps = st.tuples(st.one_of(interesting_years, year), st.sampled_from(["setWeekNo"] * 2 + ["setYearDay", "setMonthDay", "setDayOfWeekInYear", "setDayOfWeekInMonth", "q_isDayOfWeekInMonth", "q_week", "q_week", "q_yday", "q_dow", "q_posix", "q_isMonthDay", "recur"]), st.integers(1, 12), st.booleans()).map(list)


TESTS = [
    Test("sweep", sweeps, run_sweep, quick=400, thorough=8000, shards=3),
    Test("history", history(25), run_history, quick=4000, thorough=120000, shards=4),
    Test("short", history(2), run_history, quick=6000, thorough=120000, shards=3),
]

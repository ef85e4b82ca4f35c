"""A brute-force reference model of RFC 5545 recurrence rules (floating time).

A rule is a dict: freq, interval, wkst, count, until and by* lists. BYDAY items are [n, dow] with
dow 0=Sunday..6=Saturday and n=0 for "every". Date-times are datetime.datetime.

Meaning: walk the FREQ periods from DTSTART; within one period the candidates are all days (or
times) that satisfy every BY-part that is present, missing information being taken from DTSTART;
sort, apply BYSETPOS, drop anything before DTSTART, then COUNT / UNTIL.
"""
import datetime as D

DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
FREQS = ["YEARLY", "MONTHLY", "WEEKLY", "DAILY", "HOURLY", "MINUTELY", "SECONDLY"]
MAXY = 2400


def dow(d):
    return d.toordinal() % 7


def week1(y, wkst):
    """ordinal of the first day of week 1 of year y"""
    j4 = D.date(y, 1, 4).toordinal()
    return j4 - (j4 % 7 - wkst) % 7


def nweeks(y, wkst):
    return (week1(y + 1, wkst) - week1(y, wkst)) // 7


def dim(y, m):
    return (D.date(y + (m == 12), m % 12 + 1, 1) - D.timedelta(days=1)).day


def nth_ok(d, n, wd, first, last):
    if dow(d) != wd:
        return False
    if n == 0:
        return True
    o = d.toordinal()
    return (o - first) // 7 + 1 == n if n > 0 else -((last - o) // 7 + 1) == n


class Rule(object):
    def __init__(self, r, start):
        self.r, self.start = r, start
        g = lambda k: r.get(k) or None
        self.freq, self.interval, self.wkst = r["freq"], r.get("interval", 1), r.get("wkst", 1)
        self.bymonth, self.byweekno, self.byyearday, self.bymonthday, self.byday = g("bymonth"), g("byweekno"), g("byyearday"), g("bymonthday"), g("byday")
        self.byhour, self.byminute, self.bysecond, self.bysetpos = g("byhour"), g("byminute"), g("bysecond"), g("bysetpos")
        if 0 in (r.get("byhour") or []):
            self.byhour = r["byhour"]
        self.nodays = not (self.byweekno or self.byyearday or self.bymonthday or self.byday)

    def day_ok(self, d):
        if self.bymonth and d.month not in self.bymonth:
            return False
        if self.byyearday:
            y0 = D.date(d.year, 1, 1).toordinal()
            n = D.date(d.year, 12, 31).toordinal() - y0 + 1
            k = d.toordinal() - y0 + 1
            if k not in self.byyearday and k - n - 1 not in self.byyearday:
                return False
        if self.bymonthday:
            n = dim(d.year, d.month)
            if d.day not in self.bymonthday and d.day - n - 1 not in self.bymonthday:
                return False
        if self.byday:
            if self.freq == "MONTHLY" or (self.freq == "YEARLY" and self.bymonth):
                first, last = D.date(d.year, d.month, 1).toordinal(), D.date(d.year, d.month, dim(d.year, d.month)).toordinal()
            else:
                first, last = D.date(d.year, 1, 1).toordinal(), D.date(d.year, 12, 31).toordinal()
            if not any(nth_ok(d, n, wd, first, last) for n, wd in self.byday):
                return False
        if self.nodays:
            if self.freq == "YEARLY":
                if d.day != self.start.day or (not self.bymonth and d.month != self.start.month):
                    return False
            elif self.freq == "MONTHLY":
                if d.day != self.start.day:
                    return False
            elif self.freq == "WEEKLY":
                if dow(d) != dow(self.start.date()):
                    return False
        return True

    def days(self, k):
        """candidate days of the k-th period (YEARLY..DAILY), or None when past the end of the calendar"""
        s = self.start.date()
        if self.freq == "YEARLY":
            y = s.year + k * self.interval
            if y > MAXY:
                return None
            if self.byweekno:
                w1, n = week1(y, self.wkst), nweeks(y, self.wkst)
                ords = set()
                for w in self.byweekno:
                    w = w if w > 0 else n + 1 + w
                    if 1 <= w <= n:
                        ords.update(range(w1 + (w - 1) * 7, w1 + w * 7))
                # without BYDAY: the weekday that DTSTART's month and day have in that year
                wds = [wd for _, wd in self.byday] if self.byday else [(D.date(y, s.month, 1).toordinal() + s.day - 1) % 7]
                return [D.date.fromordinal(o) for o in sorted(ords) if o % 7 in wds]
            a, b = D.date(y, 1, 1).toordinal(), D.date(y, 12, 31).toordinal()
        elif self.freq == "MONTHLY":
            y, m = divmod(s.year * 12 + s.month - 1 + k * self.interval, 12)
            if y > MAXY:
                return None
            a = D.date(y, m + 1, 1).toordinal()
            b = a + dim(y, m + 1) - 1
        elif self.freq == "WEEKLY":
            o = s.toordinal()
            a = o - (o % 7 - self.wkst) % 7 + 7 * k * self.interval
            b = a + 6
        else:
            a = b = s.toordinal() + k * self.interval
        if b > D.date(MAXY, 12, 31).toordinal():
            return None
        return [d for d in map(D.date.fromordinal, range(a, b + 1)) if self.day_ok(d)]

    def times(self):
        H = sorted(set(self.byhour)) if self.byhour is not None else [self.start.hour]
        M = sorted(set(self.byminute)) if self.byminute is not None else [self.start.minute]
        S = sorted(set(self.bysecond)) if self.bysecond is not None else [self.start.second]
        return [D.time(h, m, s) for h in H for m in M for s in S]

    def period(self, k):
        """sorted distinct candidates of the k-th period after BYSETPOS"""
        if self.freq in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY"):
            days = self.days(k)
            if days is None:
                return None
            ts = self.times()
            c = [D.datetime.combine(d, t) for d in days for t in ts]
        else:
            unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[self.freq]
            t = self.start + D.timedelta(seconds=unit * self.interval * k)
            if t.year > MAXY:
                return None
            c = []
            if self.day_ok(t.date()) and (self.byhour is None or t.hour in self.byhour):
                if self.freq == "HOURLY":
                    M = sorted(set(self.byminute)) if self.byminute is not None else [t.minute]
                    S = sorted(set(self.bysecond)) if self.bysecond is not None else [t.second]
                elif self.byminute is not None and t.minute not in self.byminute:
                    M = []
                    S = []
                else:
                    M = [t.minute]
                    if self.freq == "MINUTELY":
                        S = sorted(set(self.bysecond)) if self.bysecond is not None else [t.second]
                    else:
                        S = [t.second] if self.bysecond is None or t.second in self.bysecond else []
                c = [t.replace(minute=m, second=s) for m in M for s in S]
        c = sorted(set(c))
        if self.bysetpos:
            n = len(c)
            idx = set()
            for p in self.bysetpos:
                i = p - 1 if p > 0 else n + p
                if 0 <= i < n:
                    idx.add(i)
            c = [c[i] for i in sorted(idx)]
        return c

    def instances(self, limit_dt=None, limit_n=None, max_periods=100000):
        """instances in order, starting at or after DTSTART"""
        out = []
        count, until = self.r.get("count"), self.r.get("until")
        for k in range(max_periods):
            c = self.period(k)
            if c is None:
                break
            for x in c:
                if x < self.start:
                    continue
                if until is not None and x > until:
                    return out
                if limit_dt is not None and x >= limit_dt:
                    return out
                out.append(x)
                if count is not None and len(out) >= count:
                    return out
                if limit_n is not None and len(out) >= limit_n:
                    return out
            if limit_dt is not None and self.freq not in ("YEARLY", "MONTHLY", "WEEKLY", "DAILY") and not c:
                unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[self.freq]
                if self.start + D.timedelta(seconds=unit * self.interval * k) >= limit_dt + D.timedelta(hours=2):
                    break
            elif limit_dt is not None and not c and k % 8 == 7:
                if self.freq == "YEARLY" and self.start.year + k * self.interval > limit_dt.year + 1:
                    break
                if self.freq == "MONTHLY" and (self.start.year * 12 + self.start.month + k * self.interval) > limit_dt.year * 12 + limit_dt.month + 2:
                    break
                if self.freq in ("WEEKLY", "DAILY") and self.start.toordinal() + k * self.interval * (7 if self.freq == "WEEKLY" else 1) > limit_dt.toordinal() + 10:
                    break
        return out


def text(r, order=None):
    parts = ["FREQ=" + r["freq"]]
    if r.get("interval", 1) != 1:
        parts.append("INTERVAL=%d" % r["interval"])
    if r.get("count") is not None:
        parts.append("COUNT=%d" % r["count"])
    if r.get("until_text"):
        parts.append("UNTIL=" + r["until_text"])
    for k in ("bysecond", "byminute", "byhour", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos"):
        if r.get(k):
            parts.append(k.upper() + "=" + ",".join(map(str, r[k])))
    if r.get("byday"):
        parts.append("BYDAY=" + ",".join(("%d" % n if n else "") + DAYS[d] for n, d in r["byday"]))
    if r.get("wkst", 1) != 1:
        parts.append("WKST=" + DAYS[r["wkst"]])
    if order:
        parts = [parts[i % len(parts)] for i in order] if sorted(i % len(parts) for i in order) == list(range(len(parts))) else parts
    return ";".join(parts)

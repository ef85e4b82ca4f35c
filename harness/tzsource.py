"""A reference expander of tz source (rules and zone eras), after the tz compiler's description.

rules: {name: [[from, to, month, on, at, save, letter], ...]}, all text.
zone:  [[stdoff, rule, format, until], ...], until text or "".
"""
import datetime as D

MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
DAY = "Sun Mon Tue Wed Thu Fri Sat".split()
EPOCH = D.datetime(1970, 1, 1)


def secs(text):
    """seconds, and the clock: w, s or u"""
    clock = "w"
    if text[-1] in "wsugz":
        clock = {"w": "w", "s": "s"}.get(text[-1], "u")
        text = text[:-1]
    if text in ("", "-"):
        return 0, clock
    sign = -1 if text[0] == "-" else 1
    n = 0
    for x, u in zip(text.lstrip("-+").split(":"), (3600, 60, 1)):
        n += int(x) * u
    return sign * n, clock


def day_of(y, m, on):
    if on.startswith("last"):
        d = D.date(y + m // 12, m % 12 + 1, 1)
        wd = DAY.index(on[4:7])
        while True:
            d -= D.timedelta(days=1)
            if d.isoweekday() % 7 == wd:
                return d
    if on[3:5] in (">=", "<="):
        d = D.date(y, m, int(on[5:]))
        step = D.timedelta(days=1 if on[3] == ">" else -1)
        while d.isoweekday() % 7 != DAY.index(on[:3]):
            d += step
        return d
    return D.date(y, m, int(on))


def local(y, m, on, at):
    """seconds since 1970 as if UTC, and the clock"""
    n, clock = secs(at)
    d = day_of(y, m, on)
    return (D.datetime(d.year, d.month, d.day) - EPOCH).days * 86400 + n, clock


def utc(t, clock, std, save):
    return t - (0 if clock == "u" else std if clock == "s" else std + save)


class Rule(object):
    def __init__(self, r):
        self.frm = int(r[0])
        self.to = self.frm if r[1] == "only" else 9999 if r[1] == "max" else int(r[1])
        self.month, self.on, self.at, self.save, self.letter = MON.index(r[2]) + 1, r[3], r[4], secs(r[5])[0], r[6]
        self.cache = {}

    def when(self, y):
        if y not in self.cache:
            self.cache[y] = local(y, self.month, self.on, self.at)
        return self.cache[y]


def abbr(fmt, letter, off, dst):
    if "%z" in fmt:
        a = abs(off)
        t = ("-" if off < 0 else "+") + "%02d" % (a // 3600)
        if a % 3600:
            t += "%02d" % (a // 60 % 60)
        if a % 60:
            t += "%02d" % (a % 60)
        return fmt.replace("%z", t)
    if "%s" in fmt:
        return None if letter is None else fmt.replace("%s", "" if letter == "-" else letter)
    if "/" in fmt:
        return fmt.split("/")[1 if dst else 0]
    return fmt


def fixed(rule):
    return rule == "-" or rule[0].isdigit() or rule[0] == "-"


def until_of(u):
    f = u.split()
    return local(int(f[0]), MON.index(f[1]) + 1 if len(f) > 1 else 1, f[2] if len(f) > 2 else "1", f[3] if len(f) > 3 else "0")


def expand(rules, zone, last):
    """[(utc seconds or None at the beginning, offset, name, dst)] up to the year last; names that cannot be known are None"""
    rules = {k: [Rule(r) for r in v] for k, v in rules.items()}
    out = []
    start = None
    for i, (std, rule, fmt, until) in enumerate(zone):
        std = secs(std)[0]
        end = until_of(until) if until else None
        if fixed(rule):
            save = secs(rule)[0]
            out.append((start, std + save, abbr(fmt, None, std + save, save != 0), save != 0))
        else:
            rs = rules[rule]
            save = 0
            begin = None            # name and offset to begin with
            pending = True
            lo = min(r.frm for r in rs)
            done = False
            items = []
            first_std = [r for r in rs if r.save == 0]
            letter = min(first_std, key=lambda r: r.when(r.frm)[0]).letter if first_std else None
            current = (std, letter, False)
            for y in range(lo, last + 2):
                todo = [r for r in rs if r.frm <= y <= r.to]
                while todo and not done:
                    r = min(todo, key=lambda r: utc(*r.when(y), std, save))
                    t = utc(*r.when(y), std, save)
                    if end is not None and t >= utc(*end, std, save):
                        done = True
                        break
                    todo.remove(r)
                    save = r.save
                    if pending and start is not None and t < start:
                        current = (std + save, r.letter, save != 0)
                        continue
                    if pending and start is not None and t == start:
                        pending = False
                    items.append((t, std + save, abbr(fmt, r.letter, std + save, save != 0), save != 0))
                if done:
                    break
            if pending:
                out.append((start, current[0], abbr(fmt, current[1], current[0], current[2]), current[2]))
            out += items
        if end is not None:
            start = utc(*end, std, save)
    out[1:] = sorted(out[1:], key=lambda x: x[0])
    # two changes at one local time are one change
    res = out[:1]
    at = None
    for t, off, name, dst in out[1:]:
        # (the offset before the first change counts as its own)
        prev = res[-1]
        before = res[-2][1] if len(res) > 1 else None
        if len(res) > 1 and t + prev[1] <= prev[0] + before:
            res[-1] = (prev[0], off, name, dst)
        else:
            res.append((t, off, name, dst))
    return res


def at(table, t):
    """the entry in effect at t, of a list sorted by time"""
    lo, hi = 0, len(table)
    while lo < hi:
        mid = (lo + hi) // 2
        if table[mid][0] is None or table[mid][0] <= t:
            lo = mid + 1
        else:
            hi = mid
    return table[max(lo - 1, 0)]

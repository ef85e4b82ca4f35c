"""C10: comparison, subtraction and conversion of date-times against zoneinfo."""
import datetime as D

from hypothesis import assume, strategies as st

from harness import tzdefs as Z
from harness.core import Test, expect

ID = "C10"
MODNAME = "checks.c10"
RULE = ("compare: 2-4 date-times (UTC, fixed offset, named zone, floating, date-only), all pairs compared and sorted; history: one date-time taken through 1-10 conversions, re-interpretations, field changes and queries; default: 1-3 date-times asked for instant, offset and name while the default time zone changes. "
        "Non-trivial: two date-times in different zones within three days of each other; a history with two or more changes; a floating value asked under two different default time zones.")
ASSUMPTIONS = ["2013-2090, in zones defined by rules that hold over those years", "local times inside a gap are not generated, and a history stops when one arises, or a repeated local time in its second occurrence (the library has no way to write it)",
               "hash follows equality only for values with a zone"]
ZNAMES = sorted(Z.ZONES)
FIXED = [19800, -12600, 3600, -3600, 50400, -43200, 45 * 60, 0]
EPOCH = D.datetime(1970, 1, 1)
ZTEXT = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//EN"] + [l for z in ZNAMES for l in Z.ZONES[z]] + ["END:VCALENDAR", ""])


def utc(w, z):
    if z == "utc":
        return w
    if isinstance(z, int):
        return w - D.timedelta(seconds=z)
    return Z.to_utc(w, z)


def wall(u, z):
    if z == "utc":
        return u
    if isinstance(z, int):
        return u + D.timedelta(seconds=z)
    return Z.from_utc(u, z)


def sound(w, z):
    """a local time that exists, once or in its first occurrence"""
    return z is None or wall(utc(w, z), z) == w


def f(w, dateonly=False):
    return [w.year, w.month, w.day] + ([] if dateonly else [w.hour, w.minute, w.second])


def posix(x):
    return int((x - EPOCH).total_seconds())


@st.composite
def near_transition(draw):
    y = draw(st.integers(2013, 2089))
    m, d0 = draw(st.sampled_from([(3, 8), (3, 25), (10, 25), (11, 1), (10, 1), (4, 1)]))
    d = d0 + draw(st.integers(0, 6))
    return D.datetime(y, m, min(d, 31)if m != 11 else d) + D.timedelta(minutes=draw(st.sampled_from([-30, 0, 59, 60, 61, 90, 119, 120, 121, 150, 180, 181, 300, 330, 600, 900, 960])), seconds=draw(st.sampled_from([0, 0, 59, 1])))


instants = st.one_of(near_transition(), st.datetimes(D.datetime(2013, 2, 1), D.datetime(2089, 12, 1)).map(lambda x: x.replace(microsecond=0)))
zones = st.sampled_from(["utc", "utc"] + ZNAMES * 2 + FIXED[:-1])


@st.composite
def compare_cases(draw):
    vals = []
    base = draw(instants)
    for _ in range(draw(st.integers(2, 4))):
        kind = draw(st.sampled_from(["zoned"] * 6 + ["float", "date"]))
        u = base + D.timedelta(seconds=draw(st.sampled_from([0, 0, 0, 1, -1, 60, 3600, -3600, 1800, 7200, 86400, -86400, 86400 * 2, 86400 * 200, 5])))
        if kind == "zoned":
            z = draw(zones)
            w = wall(u, z)
            if not sound(w, z):
                w, z = u, "utc"
        else:
            z, w = None, u if draw(st.booleans()) else wall(u, draw(zones))
        how = draw(st.sampled_from(["text", "init"]))
        vals.append([f(w, kind == "date"), z, how])
    return {"vals": vals, "warm": draw(st.lists(st.integers(0, len(vals) - 1), max_size=3))}


def run_compare(J, case, rec):
    vals = case["vals"]
    g = J.call("moments.compare", ZTEXT, vals, case["warm"])
    W = [D.datetime(*v[0]) for v in vals]
    U = [utc(w, v[1]) if v[1] is not None else None for w, v in zip(W, vals)]
    c3 = lambda a, b: (a > b) - (a < b)
    for i, a in enumerate(vals):
        if U[i] is not None:
            expect(g["posix"][i] == posix(U[i]) and g["again"][i] == posix(U[i]), "seconds since 1970 differ", value=a, got=g["posix"][i], want=posix(U[i]))
        for j, b in enumerate(vals):
            p = g["pairs"][i][j]
            da, db = len(a[0]) == 3, len(b[0]) == 3
            if da or db:
                c = c3(W[i].date(), W[j].date())
            elif U[i] is None or U[j] is None:
                c = c3(W[i], W[j])
            else:
                c = c3(U[i], U[j])
            want = [c, c == 0, c != 0, c < 0, c > 0, c <= 0, c >= 0]
            expect(p[:7] == want and p[10] == c, "comparison differs", a=a, b=b, got=p, want=want)
            expect(p[9] == (W[i].date() == W[j].date()), "date comparison differs", a=a, b=b, got=p)
            if U[i] is not None and U[j] is not None:
                expect(p[8] == posix(U[i]) - posix(U[j]), "difference differs", a=a, b=b, got=p[8], want=posix(U[i]) - posix(U[j]))
                expect(p[7] == (c == 0) or c != 0, "equal date-times hash differently", a=a, b=b)
                rec.nt(i != j and a[1] != b[1] and abs(U[i] - U[j]) < D.timedelta(days=3))
            elif U[i] is None and U[j] is None and da == db:
                expect(p[8] == posix(W[i]) - posix(W[j]), "difference differs", a=a, b=b, got=p[8])
    if all(u is not None for u in U):
        expect([U[k] for k in g["sorted"]] == sorted(U), "sorted order differs", vals=vals, got=g["sorted"])
    rec.label(*["fixed" if isinstance(v[1], int) else "zone" if v[1] in ZNAMES else str(v[1]) if len(v[0]) > 3 else "date" for v in vals])


@st.composite
def history_cases(draw):
    u = draw(instants)
    z = draw(zones)
    w = wall(u, z)
    assume(sound(w, z))
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["utc", "dupUTC", "zone", "zone", "zone", "adjusted", "set", "setid", "setutc", "dup", "posix", "hash", "offset", "hms", "ymd", "day", "hour", "minutes", "add", "sub", "equals"]))
        if k in ("zone", "adjusted", "set"):
            ops.append([k, draw(zones)])
        elif k == "setid":
            ops.append([k, draw(st.sampled_from(ZNAMES))])
        elif k == "hms":
            ops.append([k, [draw(st.integers(0, 23)), draw(st.sampled_from([0, 30, 59])), draw(st.sampled_from([0, 59]))]])
        elif k == "ymd":
            x = draw(instants)
            ops.append([k, [x.year, x.month, x.day]])
        elif k in ("day", "hour"):
            ops.append([k, draw(st.integers(-40, 40))])
        elif k == "minutes":
            ops.append([k, draw(st.integers(0, 59))])
        elif k in ("add", "sub"):
            ops.append([k, draw(st.sampled_from([1, 60, 3600, 86400, 86400 * 30, -3600, 90061]))])
        else:
            ops.append([k])
        if draw(st.integers(0, 3)) == 0 and k != "offset":
            ops[-1].append("quiet")
    return {"val": [f(w), z, draw(st.sampled_from(["text", "init"]))], "ops": ops}


def run_history(J, case, rec):
    w, z = D.datetime(*case["val"][0]), case["val"][1]
    g = J.call("moments.history", ZTEXT, case["val"], case["ops"])

    def want(w, z):
        return [w.strftime("%Y-%m-%dT%H:%M:%S"), z, posix(utc(w, z)), z == "utc", z != "utc", False]
    changes = 0
    for n, (op, r) in enumerate(zip(case["ops"], g["ops"])):
        k = op[0]
        w0, z0 = w, z
        if k == "offset":
            o = int((w - utc(w, z)).total_seconds())
            expect(r == o, "offset differs", op=op, at=want(w, z), got=r, want=o)
            continue
        if k in ("utc", "dupUTC"):
            w, z = utc(w, z), "utc"
        elif k in ("zone", "adjusted"):
            w, z = wall(utc(w, z), op[1]), op[1]
        elif k in ("set", "setid"):
            z = op[1]
        elif k == "setutc":
            z = "utc"
        elif k == "hms":
            w = w.replace(hour=op[1][0], minute=op[1][1], second=op[1][2])
        elif k == "ymd":
            w = w.replace(*op[1])
        elif k == "day":
            w += D.timedelta(days=op[1])
        elif k == "hour":
            w += D.timedelta(hours=op[1])
        elif k == "minutes":
            w = w.replace(minute=op[1])
        elif k == "add":
            w += D.timedelta(seconds=op[1])
        elif k == "sub":
            w -= D.timedelta(seconds=op[1])
        if (w, z) != (w0, z0):
            changes += 1
        if not sound(w, z):
            # a gap, or the second occurrence of a repeated time: only the fields are defined
            if r[0] and k in ("zone", "adjusted", "utc", "dupUTC"):
                expect(r[0][:2] == [w.strftime("%Y-%m-%dT%H:%M:%S"), z], "conversion differs", op=op, start=case["val"], history=case["ops"][:n], got=r[0], want=want(w, z))
            rec.label("stopped at a repeated or missing time")
            break
        if r[0]:
            expect(r[0] == want(w, z), "state differs after operation", op=op, start=case["val"], history=case["ops"][:n], got=r[0], want=want(w, z))
        if r[1]:
            expect(r[1] == want(w0, z0), "the original changed", op=op, start=case["val"], history=case["ops"][:n], got=r[1], want=want(w0, z0))
    else:
        expect(g["end"] == want(w, z), "final state differs", start=case["val"], ops=case["ops"], got=g["end"], want=want(w, z))
    rec.nt(changes >= 2)
    rec.label(*set(op[0] for op in case["ops"]))


@st.composite
def default_cases(draw):
    vals = []
    base = draw(instants)
    for _ in range(draw(st.integers(1, 3))):
        z = draw(st.sampled_from([None, None, None, "utc"] + ZNAMES[:3])) if vals else None
        w = base + D.timedelta(seconds=draw(st.sampled_from([0, 0, 1800, 3600, -7200, 86400, 86400 * 180])))
        if not sound(w, z):
            z = None
        vals.append([f(w), z, draw(st.sampled_from(["text", "init"]))])
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["default"] * 5 + ["posix"] * 4 + ["offset", "offset", "name", "hash", "dup", "day", "here", "utc", "float", "minus"]))
        if k == "default":
            ops.append([k, draw(st.sampled_from(["utc"] + ZNAMES * 2)), draw(st.sampled_from(["id", "zone"]))])
            if draw(st.booleans()):
                ops.append([draw(st.sampled_from(["posix", "offset"])), 0])
        else:
            ops.append([k, draw(st.integers(0, len(vals) - 1))])
            if k == "day":
                ops[-1].append(draw(st.sampled_from([1, -1, 30, -30, 182])))
            elif k == "minus":
                ops[-1].append(draw(st.integers(0, len(vals) - 1)))
    return {"vals": vals, "ops": ops}


def run_default(J, case, rec):
    g = J.call("moments.defaults", ZTEXT, case["vals"], case["ops"])
    state = [(D.datetime(*v[0]), v[1]) for v in case["vals"]]
    default = "utc"
    asked, seen = {}, 0
    for n, (op, r) in enumerate(zip(case["ops"], g["ops"])):
        k = op[0]
        info = dict(op=op, vals=case["vals"], history=case["ops"][:n], got=r)
        if k == "default":
            default = op[1]
            z = None if default == "utc" else default
            expect(r == ["UTC" if z is None else z, z, z is None], "default time zone differs", **info)
            continue
        i = op[1]
        w, z = state[i]
        e = default if z is None else z
        if not sound(w, e):
            # only floating times can be put here by a change of the default: nothing is demanded of a gap
            rec.label("stopped at a repeated or missing time")
            return
        if k == "posix":
            expect(r == posix(utc(w, e)), "seconds since 1970 differ under the default time zone", want=posix(utc(w, e)), default=default, **info)
        elif k == "offset":
            o = int((w - utc(w, e)).total_seconds())
            expect(r == o, "offset differs under the default time zone", want=o, default=default, **info)
        elif k == "name":
            if z is None and default != "utc":
                expect(r[0] == r[1], "a floating time is not named after the default time zone", default=default, **info)
        elif k == "hash":
            expect(r, "date-times of the same content hash differently", default=default, **info)
        elif k == "day":
            state[i] = (w + D.timedelta(days=op[2]), z)
        elif k == "here":
            state[i] = (w, default)
        elif k == "utc":
            if z is not None:
                state[i] = (utc(w, z), "utc")
        elif k == "float":
            if z is not None:
                state[i] = (wall(utc(w, z), default), None)
        elif k == "minus":
            w2, z2 = state[op[2]]
            if z is not None and z2 is not None:
                want = posix(utc(w, z)) - posix(utc(w2, z2))
            elif z is None and z2 is None:
                want = posix(w) - posix(w2)
            else:
                y = z or z2
                if not (sound(w, y) and sound(w2, y)):
                    return
                want = posix(utc(w, y)) - posix(utc(w2, y))
            expect(r == want, "difference differs under the default time zone", want=want, default=default, **info)
        if k in ("posix", "offset") and z is None:
            if i in asked and asked[i] != default:
                seen += 1
            asked[i] = default
        if not sound(*state[i]) and state[i][1] is not None:
            return
    rec.nt(seen > 0)
    rec.label(*set(op[0] for op in case["ops"]))


TESTS = [
    Test("compare", compare_cases(), run_compare, quick=3000, thorough=80000, shards=3),
    Test("history", history_cases(), run_history, quick=3000, thorough=80000, shards=4),
    Test("default", default_cases(), run_default, quick=900, thorough=30000, shards=2),
]

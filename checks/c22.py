"""C22: the component index of a calendar matches its contents."""
from hypothesis import strategies as st

from harness import ical
from harness.core import Test, expect, fail

ID = "C22"
MODNAME = "checks.c22"
RULE = ("a case is a history of 1-14 operations (add a master or override, remove by object or by key, remove all or all of a type, take out and put back, change UID, duplicate, re-parse) on one calendar; after each, "
        "every lookup is compared with a list model. Non-trivial: at least one removal or change of UID while the calendar holds an override. `made`: 1-8 components whose UIDs the library makes up, at set times; non-trivial with two or more.")
ASSUMPTIONS = ["at most one master per component type and UID (RFC 5545); overrides may be many, also without a master, also several for one recurrence-id",
               "components are given their parent when made (the constructor's argument), and UIDs change through the calendar's changeUID (its documentation says so)",
               "lookups of overrides are by UID alone, as documented; components of several types may share a UID"]
UIDS = ["u1", "u2", "u3", "U1"]
RECUR = ("VEVENT", "VTODO", "VJOURNAL")
KINDS = ["VEVENT"] * 4 + ["VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "X-COMP"]


class Model(object):
    def __init__(self):
        self.c = []             # [kind, uid, rid, mark, extra]

    def apply(self, op):
        k = op[0]
        if k == "add":
            self.c.append(list(op[1:]))
        elif k in ("remove", "bykey"):
            self.c = [c for c in self.c if c[3] != op[1]]
        elif k == "all":
            self.c = [c for c in self.c if c[3] not in op[2]]
        elif k == "uid":
            for c in self.c:
                if c[1] == op[1] and c[0] != "VTIMEZONE":
                    c[1] = op[2]
        elif k == "back":
            c = [c for c in self.c if c[3] == op[1]]
            self.c = [c for c in self.c if c[3] != op[1]] + c


def clash(cs):
    ms = [(c[0], c[1]) for c in cs if c[0] in RECUR and c[2] is None]
    return len(ms) != len(set(ms))


@st.composite
def histories(draw):
    m, ops, n = Model(), [], 0
    # some start
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["add"] * 8 + ["remove"] * 3 + ["bykey", "all", "uid", "uid", "uid", "copy", "parse", "back"]))
        if k == "add" or not m.c:
            kind, uid, rid = draw(st.sampled_from(KINDS)), draw(st.sampled_from(UIDS[:2] * 3 + UIDS)), draw(st.one_of(st.none(), st.integers(0, 5), st.integers(0, 5)))
            if kind not in RECUR:
                rid = None
            n += 1
            op = ["add", kind, uid, rid, "m%d" % n, draw(st.sampled_from([0, 0, 0, 3, 9]))]
            if clash(m.c + [op[1:]]):
                continue
        elif k in ("remove", "back"):
            op = [k, draw(st.sampled_from([c[3] for c in m.c]))]
        elif k == "bykey":
            # keys that name one component
            one = [c[3] for c in m.c if c[0] in RECUR and len([d for d in m.c if d[1:3] == c[1:3]]) == 1]
            if not one:
                continue
            op = [k, draw(st.sampled_from(one))]
        elif k == "all":
            t = draw(st.sampled_from([None, "VEVENT", "vevent", "VTODO", "VFREEBUSY", "X-COMP"]))
            op = [k, t, [c[3] for c in m.c if t is None or c[0] == t.upper()]]
        elif k == "uid":
            a, b = draw(st.sampled_from([c[1] for c in m.c] + UIDS)), draw(st.sampled_from(UIDS + ["new"]))
            op = [k, a, b]
            if clash([[c[0], b if c[1] == a else c[1], c[2]] for c in m.c]):
                continue
        else:
            op = [k]
        m.apply(op)
        ops.append(op)
    return {"ops": ops}


def rid_text(d):
    return "202001%02dT100000" % (1 + d)


def run(J, case, rec):
    ops = case["ops"]
    uids = UIDS + ["new"]
    r = J.call("index.history", ops, uids)
    m = Model()
    deep = False
    for op, got in zip(ops, r["looks"]):
        over = any(c[2] is not None for c in m.c)
        deep = deep or over and op[0] in ("remove", "bykey", "all", "uid", "back")
        m.apply(op)
        if op[0] == "parse":
            order = {k: i for i, k in enumerate(got["all"])}
            expect(sorted(order) == sorted(c[3] for c in m.c), "contents after re-reading", got=got["all"])
            m.c.sort(key=lambda c: order[c[3]])
        check(m, op, got, uids)
    expect(r["old"], "the calendar a copy was made of changed", ops=ops)
    for o in ops:
        rec.label(o[0])
    rec.nt(deep)


def check(m, op, got, uids):
    w = dict(after=op, contents=m.c)
    expect(got["all"] == [c[3] for c in m.c], "components held", got=got["all"], **w)
    for t, v in got["types"].items():
        expect(v == [c[3] for c in m.c if c[0] == t.upper()], "components of type " + t, got=v, **w)
    for t, v in got["count"].items():
        n = len([c for c in m.c if c[0] == t.upper()])
        expect(v == [n, n > 0], "count of type " + t, got=v, **w)
    first = [c[3] for c in m.c if c[0] in RECUR and c[2] is None]
    expect(got["master"] == (first[0] if first else None), "master component", got=got["master"], **w)
    for u in uids:
        o = [c for c in m.c if c[0] in RECUR and c[1] == u and c[2] is not None]
        expect(got["items"][u] == sorted(c[3] for c in o), "overrides of " + u, got=got["items"][u], **w)
        expect(got["ids"][u] == sorted(rid_text(c[2]) for c in o), "recurrence-ids of " + u, got=got["ids"][u], **w)
    if "masters" in got:
        expect([x for x in got["masters"] if x[2] is not None] == sorted([c[0], c[1], c[3]] for c in m.c if c[0] in RECUR and c[2] is None), "index of masters", got=got["masters"], **w)
    if "overs" in got:
        expect(got["overs"] == sorted([c[1], c[3]] for c in m.c if c[0] in RECUR and c[2] is not None), "index of overrides", got=got["overs"], **w)
    expect(got["uids"] == dict((c[3], c[1]) for c in m.c if c[0] != "VTIMEZONE"), "UIDs", got=got["uids"], **w)
    for c in m.c:
        if c[0] in RECUR and len([d for d in m.c if d[1:3] == c[1:3] and d[0] in RECUR]) == 1:
            expect(got["keys"][c[3]] == c[3], "lookup by key", got=got["keys"], **w)
    tree = ical.parse(got["text"])
    expect(len(tree) == 1, "one calendar", text=got["text"])
    wrote = []
    for s in tree[0].subs:
        p = dict((x[1], x[3]) for x in s.props)
        wrote.append([s.name, p.get("COMMENT"), p.get("UID"), p.get("RECURRENCE-ID")])
    want = [[c[0], c[3], c[1] if c[0] != "VTIMEZONE" else None, None if c[2] is None else rid_text(c[2])] for c in m.c]
    expect(sorted(wrote, key=repr) == sorted(want, key=repr), "components written", got=wrote, **w)
    expect(got["parents"], "a component that belongs elsewhere", **w)
    expect(got["spans"] == got["fresh"], "expansion differs from that of the written calendar", got=got["spans"], fresh=got["fresh"], **w)


def run_made(J, case, rec):
    r = J.call("index.made", case["asks"])
    uids = [u for u, _, _ in r["made"]]
    expect(all(isinstance(u, str) and u for u in uids), "a made-up UID is text", got=uids)
    expect(len(set(uids)) == len(uids), "two made-up UIDs are the same", got=uids)
    for i, (u, found, props) in enumerate(r["made"]):
        expect(found, "lookup by key of a component with a made-up UID", uid=u)
        expect(props == [u], "UID properties of a component with a made-up UID", uid=u, got=props)
        expect(r["back"]["m%d" % i] == u, "made-up UID written", uid=u, got=r["back"])
    rec.nt(len(uids) > 1)
    if len(set(a[1] for a in case["asks"])) < len(uids):
        rec.label("same time")


MADE = st.fixed_dictionaries({"asks": st.lists(st.tuples(st.sampled_from(RECUR), st.sampled_from([0, 1577836800, 1577836800, 1577836800.25, 1577836811]), st.sampled_from([None, "a", "b"]), st.booleans()).map(list), min_size=1, max_size=8)})
TESTS = [Test("histories", histories(), run, quick=2500, thorough=40000, shards=8),
         Test("made", MADE, run_made, quick=300, thorough=5000, shards=1)]

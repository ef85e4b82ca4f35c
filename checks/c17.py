"""C17: the time zone database answers consistently and stays in its directory."""
import posixpath

from hypothesis import strategies as st

from harness.core import Test, expect, fail

ID = "C17"
MODNAME = "checks.c17"
RULE = ("a case is a history of up to 14 operations on the process-wide time zone database over a scratch directory with good, broken, nested and decoy files; every answer is compared with a model. "
        "Non-trivial: at least two lookups of which one finds a definition, plus an operation that changes what is known (add, merge, parse, clear, create), or a hostile identifier for which a decoy exists.")
ASSUMPTIONS = ["a file of the database holds one zone, the one it is named after", "a change of the files is seen once the database is cleared or made anew, and for identifiers not asked about before"]

# path under the scratch root, TZID, tag, offset in minutes, raw contents
FILES = [
    ["db/Plain.ics", "Plain", "file-plain", 60, ""],
    ["db/Zone/A.ics", "Zone/A", "file-a", -300, ""],
    ["db/Zone/B.ics", "Zone/B", "file-b", 330, ""],
    ["db/Zone/Sub/Deep.ics", "Zone/Sub/Deep", "file-deep", 120, ""],
    ["db/Bad.ics", None, "", 0, "this is not a calendar\r\n"],
    ["db/Empty.ics", None, "", 0, ""],
    ["db/Broken.ics", None, "", 0, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:VTIMEZONE\r\nTZID:Broken\r\nnonsense\r\nEND:VTIMEZONE\r\nEND:VCALENDAR\r\n"],
    ["db/Nested.ics", None, "", 0, "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:VTIMEZONE\r\nTZID:Nested\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VTIMEZONE\r\nEND:VCALENDAR\r\n"],
    ["db/Etc/GMT+5.ics", "Etc/GMT+5", "file-plus", 90, ""],
    # decoys: what an escaping identifier would find
    ["db2/Foo.ics", "../db2/Foo", "decoy-sibling", 11, ""],
    ["db2/Bar.ics", "Zone/../../db2/Bar", "decoy-sibling2", 12, ""],
    ["Outside.ics", "../Outside", "decoy-parent", 13, ""],
    ["Outside2.ics", "Zone/../../Outside2", "decoy-parent2", 14, ""],
    ["Abs.ics", "{root}/Abs", "decoy-absolute", 15, ""],
    ["db2/Abs.ics", "{root}/db2/Abs", "decoy-absolute2", 16, ""],
    ["db.ics", "../db", "decoy-name", 17, ""],
    ["dbx/Sub/Q.ics", "../dbx/Sub/Q", "decoy-deep", 18, ""],
    ["db-old/Zone/A.ics", "Zone/../../db-old/Zone/A", "decoy-old", 19, ""],
    # another database
    ["other/Plain.ics", "Plain", "other-plain", 180, ""],
    ["other/Zone/New.ics", "Zone/New", "other-new", -60, ""],
]
DIRS = ["db/Dir.ics", "db/Hollow"]
DECOYS = [f[1] for f in FILES if f[2].startswith("decoy")]
ODD = ["Zone/../Plain", "./Plain", "Plain/", "", ".", "..", "Zone//A", "Plain.ics", "plain", "Dir", "Hollow", "Hollow/", "Zone", "~/Plain", "%s", "Plain\x00", "Plain\n", "x" * 3000, "/Plain", "//", "../", "Zone\\A", "*", "{root}/db/Plain", "Plain ", " Plain", "\xff\xfe", "Z\xc3\xb6ne", "..\\db2\\Foo"]
SIMPLE = ["Plain", "Zone/A", "Zone/B", "Zone/Sub/Deep", "Etc/GMT+5", "Zone/New", "Missing", "Zone/Missing", "Own/X", "Own/Y", "Bad", "Empty", "Broken", "Nested"]
PATHS = ["{root}/db", "{root}/db/", "{root}/other/../db", "{root}/./db", ".", "../db", "{root}/other", None, "{root}/nowhere"]

ids = st.one_of(st.sampled_from(SIMPLE), st.sampled_from(SIMPLE[:4] + SIMPLE[6:9]), st.sampled_from(DECOYS), st.sampled_from(ODD))
tags = st.tuples(st.sampled_from(["t1", "t2", "t3", "t4"]), st.sampled_from([-570, -210, 45, 240, 765, 840]))
named = st.one_of(st.sampled_from(SIMPLE), st.sampled_from(DECOYS), st.sampled_from(["Zone/../Plain", "./Plain", "x" * 3000]))
asked = st.one_of(st.tuples(st.just("lookup"), ids), st.tuples(st.just("lookup"), ids), st.tuples(st.just("standard"), ids), st.tuples(st.just("offset"), ids), st.tuples(st.just("incal"), ids)).map(list)
defs = st.lists(st.tuples(named, tags).map(lambda t: [t[0], t[1][0], t[1][1]]), min_size=1, max_size=2)
changes = st.one_of(
    st.sampled_from(PATHS).map(lambda p: ["create", p]),
    st.just(["clear"]), st.just(["clear"]),
    st.tuples(st.sampled_from(["db", "db", "other"]), st.sampled_from(["Plain", "Zone/A", "Missing", "Zone/Missing", "Zone/New", "Own/X", "Bad"]), tags).map(lambda t: ["putfile", t[0], t[1], t[2][0], t[2][1]]),
    st.tuples(st.sampled_from(["db", "db", "other"]), st.sampled_from(["Plain", "Zone/A", "Zone/B", "Missing", "Zone/New"])).map(lambda t: ["rmfile", t[0], t[1]]),
    st.tuples(named, tags).map(lambda t: ["add", t[0], t[1][0], t[1][1]]),
    st.tuples(named, tags).map(lambda t: ["merge", t[0], t[1][0], t[1][1]]),
    st.tuples(st.sampled_from(["parse", "parsecomp", "parse", "bad"]), defs, st.sampled_from(SIMPLE + DECOYS), st.booleans()).map(list),
)


@st.composite
def histories(draw):
    ops = [["create", draw(st.sampled_from(PATHS[:6]))]] if draw(st.integers(0, 9)) else []
    for _ in range(draw(st.integers(2, 13))):
        ops.append(draw(st.one_of(asked, asked, changes)))
    # ask again at the end for everything that was named
    seen = []
    for o in ops:
        if o[0] in ("lookup", "standard", "offset", "incal", "add", "merge") and o[1] not in seen:
            seen.append(o[1])
        elif o[0] in ("parse", "parsecomp", "bad"):
            seen.extend(d[0] for d in o[1] if d[0] not in seen)
    for s in seen:
        ops.append(["lookup", s])
    for s in seen:
        ops.append(["standard", s])
    return {"ops": ops}


DBS = {"{root}/db": "db", "{root}/db/": "db", "{root}/other/../db": "db", "{root}/./db": "db", ".": "db", "../db": "db", "{root}/other": "other", "{root}/nowhere": "nowhere", None: None}


class Model(object):
    def __init__(self, path, files):
        self.path = path
        self.files = files
        self.known = {}
        self.read = set()

    def lookup(self, i):
        if i not in self.known:
            self.known[i] = None
            if self.path is not None:
                # a file may be read through another name for it, too
                self.read.add(posixpath.normpath("%s/%s.ics" % (self.path, i)))
                for path, tzid, tag, off, _ in self.files:
                    if tzid == i and path == "%s/%s.ics" % (self.path, i):
                        self.known[i] = (tag, off, True)
        return self.known[i]


def run(J, case, rec):
    root, got = J.call("tzdb.history", FILES, DIRS, case["ops"])
    files = [list(f) for f in FILES]
    m = Model(None, files)
    found = changed = 0
    for n, (op, r) in enumerate(zip(case["ops"], got)):
        k = op[0]
        where = {"step": n, "op": [str(x)[:80] for x in op], "got": r}
        if isinstance(r, list) and r[:1] == ["raises"]:
            fail("the time zone database raises: %s" % r[1], **where)
        if k == "create":
            m = Model(DBS[op[1]], files)
            changed += 1
        elif k == "clear":
            m.known = {}
            m.read = set()
            changed += 1
        elif k in ("putfile", "rmfile"):
            path = "%s/%s.ics" % (op[1], op[2])
            if path in m.read and op[2] not in m.known:
                # read under another name before this change, and nothing says the database must forget that
                rec.label("stopped at a file read under another name")
                return
            files[:] = [f for f in files if f[0] != path]
            if k == "putfile":
                files.append([path, op[2], op[3], op[4], ""])
            changed += 1
        elif k == "lookup":
            d = m.lookup(op[1])
            found += d is not None
            expect(r == (None if d is None else [op[1].replace("{root}", root), d[0]]), "wrong definition", want=d, **where)
        elif k == "standard":
            d = m.lookup(op[1])
            expect(r == (d is not None and d[2]), "wrong answer to whether a zone is standard", want=d, **where)
        elif k == "offset":
            d = m.lookup(op[1])
            off = d[1] * 60 if d else 0
            expect(r == [off, "(%s)" % d[0] if d else "", 1591012800 - off], "wrong offset or name", want=d, **where)
        elif k == "incal":
            d = m.lookup(op[1])
            expect(r == (None if d is None else [[op[1].replace("{root}", root), d[0]], True]), "wrong definition in a calendar", want=d, **where)
        elif k == "add":
            m.known[op[1]] = (op[2], op[3], False)
            changed += 1
        elif k == "merge":
            if m.lookup(op[1]) is None:
                m.known[op[1]] = (op[2], op[3], False)
            changed += 1
        elif k == "bad":
            expect(r is None, "harness: the broken calendar was read", **where)
        else:
            for i, t, o in op[1]:
                if m.lookup(i) is None:
                    m.known[i] = (t, o, False)
            d = m.lookup(op[2])
            expect(r[0] == 1591012800 - (d[1] * 60 if d else 0), "a date-time read from the calendar uses another definition than the database", want=d, **where)
            expect(sorted(r[1]) == sorted([i.replace("{root}", root), t] for i, t, o in op[1]), "the calendar's own definitions changed", **where)
            changed += 1
        rec.label("op:" + k)
        if k in ("lookup", "standard", "offset", "incal"):
            rec.label("id:" + ("decoy" if op[1] in DECOYS else "odd" if op[1] in ODD else "plain"))
    if (found and changed > 1) or any(o[0] == "lookup" and o[1] in DECOYS for o in case["ops"]):
        rec.nt()


@st.composite
def escapes(draw):
    """a decoy is planted exactly where the identifier points"""
    base = draw(st.sampled_from(["{root}/db", "{root}/db/", "{root}/db/Zone", "{root}/a/b/c", "{root}/a.b", "{root}/db/Zone/"]))
    segs = [draw(st.sampled_from(["..", ".", "Zone", "x", "..", "dbx", "db", "", "Foo"])) for _ in range(draw(st.integers(0, 5)))]
    name = draw(st.sampled_from(["Foo", "A", "db", "x", "dbFoo", "Zone"]))
    i = "/".join(segs + [name])
    if draw(st.sampled_from([0, 0, 0, 1])):
        i = "{root}/" + i
    return {"base": base, "id": i}


def run_escape(J, case, rec):
    base = case["base"].replace("{root}", "/R")
    i = case["id"].replace("{root}", "/R")
    target = posixpath.normpath(posixpath.join(base, i + ".ics"))
    if not target.startswith("/R/") or target.startswith("/R/../"):
        return      # nothing is planted outside the scratch root
    dirs = sorted(set([base.strip("/")[2:]] + ["db/Zone", "dbx", "db/x"]))
    rel = target[3:]
    if any(rel == d or d.startswith(rel + "/") for d in dirs):
        return
    files = [[rel, case["id"], "planted", 75, ""]]
    root, got = J.call("tzdb.history", files, dirs, [["create", case["base"]], ["lookup", case["id"]], ["standard", case["id"]], ["offset", case["id"]]])
    for r in got:
        if isinstance(r, list) and r[:1] == ["raises"]:
            fail("the time zone database raises: %s" % r[1], got=got)
    inside = target.startswith(posixpath.normpath(base) + "/")
    if not inside:
        expect(got[1] is None and got[2] is False and got[3][0] == 0, "a file outside the directory was read", target=target, got=got)
    elif i == target[len(posixpath.normpath(base)) + 1:-4]:
        expect(got[1] is not None and got[1][1] == "planted" and got[2] is True and got[3][0] == 4500, "a file inside the directory was not found", target=target, got=got)
    rec.label("inside" if inside else "outside")
    rec.nt(not inside)


TESTS = [
    Test("histories", histories(), run, quick=1800, thorough=40000, shards=5),
    Test("escapes", escapes(), run_escape, quick=900, thorough=20000, shards=2),
]

"""C03: written lines are at most 75 octets, folded between characters; unfolding is exact both ways."""
from hypothesis import strategies as st

from harness import gen_ical as T, ical
from harness.core import Test, expect, fail

ID = "C03"
MODNAME = "checks.c03"
RULE = ("a case is an event or a card with long properties whose logical content lines are known, and foldings of the input at chosen character positions. Non-trivial: some logical line is longer than 75 octets and holds a multi-octet character or a fold is placed in the input.")
ASSUMPTIONS = ["component names are short", "well-formed UTF-8", "binary PHOTO values of cards are written in Address Book style (value on lines of its own), which unfolds to the same logical line"]

CH = ["a", "b ", "word ", "\u00e9", "\u00df", "\u4e2d", "\u20ac", "\U0001f600", "\U00010348", "e\u0301", "\u200d", "\u00a0"]
run_ = st.tuples(st.sampled_from(CH), st.integers(1, 40)).map(lambda t: t[0] * t[1])
run_ = st.one_of(run_, run_, st.sampled_from([1, 2, 3, 4, 60, 61, 62, 63, 64, 65, 66, 67, 70, 72, 73, 74, 75, 76, 146, 147, 148, 149]).map(lambda n: "x" * n))
body = st.lists(run_, max_size=6).map("".join)
etext = st.one_of(body, st.tuples(body, T.short_text, body).map("".join)).map(lambda s: ical.escape(s.replace("\t", " ")))
pval = st.one_of(body, st.tuples(body, T.short_text).map("".join)).map(lambda s: T.unbackslash(s.replace("\t", " ").strip(" ") or "v"))
xname = st.integers(1, 90).map(lambda n: "X-" + "N" * n)
params = st.lists(st.tuples(st.sampled_from(["X-A", "X-B", "X-LONG-PARAMETER-NAME"]), st.lists(pval, min_size=1, max_size=2)).map(list), max_size=2, unique_by=lambda p: p[0])


def line(name, ps, value, group=None):
    ps = sorted(ps)
    ptxt = "".join(";" + T.param_text(n, sorted(vs, key=lambda v: v.encode("utf-8"))) for n, vs in ps)
    return (group + "." if group else "") + name + ptxt + ":" + value


iprop = st.one_of(st.tuples(st.sampled_from(["SUMMARY", "DESCRIPTION", "COMMENT"]), params, etext),
                  st.tuples(xname, params, etext),
                  st.tuples(st.just("CATEGORIES"), params, st.lists(etext, min_size=1, max_size=4).map(",".join)),
                  st.tuples(st.just("ATTENDEE"), params, body.map(lambda s: "mailto:" + s.replace(" ", "")))).map(lambda t: list(t) + [None])
group = st.one_of(st.none(), st.sampled_from(["item1", "G" * 60]))
vprop = st.one_of(st.tuples(st.sampled_from(["NOTE", "FN", "TITLE"]), params, etext, group),
                  st.tuples(xname, params, etext, group),
                  st.tuples(st.just("N"), params, st.lists(etext, min_size=5, max_size=5).map(";".join), group),
                  st.tuples(st.just("PHOTO"), params.map(lambda p: [["ENCODING", ["b"]]] + p), st.binary(max_size=300).map(lambda b: __import__("base64").b64encode(b).decode()), group),
                  st.tuples(st.just("KEY"), params.map(lambda p: [["ENCODING", ["b"]]] + p), st.binary(max_size=300).map(lambda b: __import__("base64").b64encode(b).decode()), group)).map(list)


def foldat(l, cuts, ws, eol):
    """fold between characters, at the chosen positions"""
    out, last = [], 0
    for c in sorted(set(c % (len(l) + 1) for c in cuts)):     # also at the end, leaving nothing on the last line
        if c > last:
            out.append(l[last:c])
            last = c
    out.append(l[last:])
    return (eol + ws).join(out)


def build(lines, case, vcard, folded):
    eol = case["eol"]
    lines = [foldat(l, case["cuts"], case["ws"], eol) if folded and case["cuts"] else l for l in lines]
    head, tail = (["BEGIN:VCARD", "VERSION:3.0"], ["END:VCARD"]) if vcard else (["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u"], ["END:VEVENT", "END:VCALENDAR"])
    return eol.join(head + lines + tail + [""]).encode("utf-8").decode("latin-1")


def run(vcard):
    def f(J, case, rec):
        props = case["props"]
        lines = [line(*p) for p in props]
        if vcard:
            text = build(lines, case, True, False)
        else:
            text = build(lines, case, False, False)
        r = J.call("texty.folds", text, [build(lines, case, vcard, True)], vcard)
        data = r["out"].encode("latin-1")
        expect(data.endswith(b"\r\n"), "no final line break", output=r["out"])
        for phys in data[:-2].split(b"\r\n"):
            expect(b"\n" not in phys and b"\r" not in phys, "stray line break", line=phys)
            expect(len(phys) <= 75, "line longer than 75 octets (%d)" % len(phys), line=phys)
            try:
                phys.decode("utf-8")
            except UnicodeDecodeError:
                fail("a fold splits a character", line=phys)
            expect(phys != b"" and phys not in (b" ", b"\t") or vcard and "PHOTO" in [p[0] for p in props], "empty physical line", output=r["out"])
        have = sorted(ical.unfold(data))
        want = sorted(lines + (["BEGIN:VCARD", "VERSION:3.0", "END:VCARD"] if vcard else ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u", "END:VEVENT", "END:VCALENDAR"]))
        expect(have == want, "unfolded lines differ", only_written=[x for x in have if x not in want], only_expected=[x for x in want if x not in have])
        expect(r["out2"] == r["out"], "reading what was folded and writing it again differs", out=r["out"], out2=r["out2"])
        for eq, same in r["others"]:
            expect(eq and same, "folded input is read differently", eq=eq, same=same)
        long_ = [l for l in lines if len(l.encode("utf-8")) > 75]
        for l in lines:
            n = len(l.encode("utf-8"))
            rec.label("len %s" % ("<73" if n < 73 else ">150" if n > 150 else ">77" if n > 77 else str(n)))
        rec.nt(bool(long_) and (any(ord(c) > 127 for l in long_ for c in l) or bool(case["cuts"])))
    return f


def cases(p):
    return st.fixed_dictionaries({"props": st.lists(p, min_size=1, max_size=3, unique_by=lambda x: x[0]), "cuts": st.lists(st.integers(1, 400), max_size=6), "ws": st.sampled_from([" ", " ", "\t"]), "eol": st.sampled_from(["\r\n", "\r\n", "\n"])})


TESTS = [
    Test("ical", cases(iprop), run(False), quick=2500, thorough=60000, shards=4),
    Test("vcard", cases(vprop), run(True), quick=1500, thorough=30000, shards=3),
]

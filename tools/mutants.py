#!/usr/bin/env python3
"""Mutation analysis of the checks: small changes to lines of the original code that the test suite
does not notice, each tried against the checks that could see it. For finding gaps; no check uses it.

  mutants.py WORKTREE OUT.jsonl SEED N [file-regex]     (VERIF_DIR: where the checks run from)
"""
import json, os, random, re, shutil, subprocess, sys, time
V = os.environ.get("VERIF_DIR", "/verif")
W, OUT, SEED, N = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
ONLY = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
MAP = [
    (r"zonal/tz(dump|verify)", "C28"), (r"zonal/", "C24 C28"), (r"vcard/", "C26 C06 C20 C02 C07 C19 C03 C21"), (r"outputfilter", "C21"), (r"vfreebusy|freebusy", "C25 C19 C01 C23"), (r"valarm", "C25 C23 C19 C01"),
    (r"valid", "C19"), (r"timezonedb|/timezone\.py", "C17 C10 C18 C16"), (r"vtimezone", "C16 C10 C18 C28 C19 C17"), (r"recurrenceset", "C14 C13 C12 C23"), (r"/recurrence\.py|recurrencevalue", "C11 C12 C13 C04 C05 C09"),
    (r"componentexpanded", "C27 C14 C23 C22"), (r"componentrecur", "C14 C13 C23 C15 C25 C22 C19"), (r"icalendar/calendar\.py", "C18 C22 C14 C15 C25 C27 C20 C01 C21 C04 C23"), (r"icalendar/component\.py", "C22 C14 C15 C23 C07 C01 C19"),
    (r"vtodo", "C27 C23 C14 C19 C25"), (r"vevent|vtodo|vjournal|available|vavail|vpoll|vvoter|vote", "C19 C23 C14 C25 C22 C15 C01"), (r"datetime\.py", "C08 C10 C09 C11 C13 C01 C16 C27 C12 C23"), (r"duration|period", "C09 C08 C01 C10 C25 C04 C05 C20"),
    (r"icalendar/property", "C01 C04 C05 C07 C20 C02 C03 C19"), (r"utils\.py", "C01 C06 C27 C02 C03 C20 C05 C04"), (r"componentbase|containerbase", "C01 C07 C20 C04 C05 C18 C21 C06 C19 C22 C23 C03"), (r"instances|manager|locale", "C14 C27"),
    (r"", "C01 C06 C26 C04 C05 C07 C20 C02 C03 C12"),
]
SKIP = re.compile(r"^\s*(#|import |from |class |def |@|\"\"\"|'''|print|elif|else|try|except|finally|assert|raise|pass\b)")


def variants(line):
    out = []
    code = line.split("#")[0] if "'#'" not in line and '"#"' not in line else line
    def sub(a, b, count=1):
        for m in re.finditer(a, code):
            out.append(line[:m.start()] + m.expand(b) + line[m.end():])
    ind = re.match(r"\s*", line).group()
    sub(r"(?<![=!<>])==", "!="), sub(r"!=", "=="), sub(r"(?<![<>-])<(?![<=])", "<="), sub(r"(?<![<>-])>(?![>=])", ">="), sub(r"<=", "<"), sub(r">=", ">")
    sub(r"\band\b", "or"), sub(r"\bor\b", "and"), sub(r"\bnot ", ""), sub(r"\bTrue\b", "False"), sub(r"\bFalse\b", "True"), sub(r" is None\b", " is not None"), sub(r" is not None\b", " is None")
    sub(r" \+ 1\b", ""), sub(r" - 1\b", ""), sub(r" \+ (?!1\b)", " - "), sub(r" - (?!1\b)", " + "), sub(r"\+=", "-="), sub(r"-=", "+=")
    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
        out.append(line[:m.start()] + str(int(m.group(1)) + 1) + line[m.end():])
    sub(r"\.duplicate\(\)", ""), sub(r"\[:\]", ""), sub(r"\bbreak\b", "pass"), sub(r"\bcontinue\b", "pass")
    s = line.strip()
    if re.match(r"^(self\.|[\w.]+ ?[-+]?= |[\w.]+\(|return\b|del )", s) and s.count("(") == s.count(")") and s.count("[") == s.count("]") and not s.endswith(("\\", ",", "(", "{")):
        out.append(ind + "pass")
    if re.match(r"^return \S", s) and s.count("(") == s.count(")"):
        out.append(ind + "return None")
    if re.match(r"^(if|while) .*:$", s):
        out.append(re.sub(r"^(\s*)(if|while) (.*):$", r"\1\2 not (\3):", line))
        if s.startswith("if"):
            out += [re.sub(r"^(\s*)if (.*):$", r"\1if False and (\2):", line), re.sub(r"^(\s*)if (.*):$", r"\1if True or (\2):", line)]
    return [x for x in dict.fromkeys(out) if x != line]


def original_lines(path):
    root = subprocess.check_output(["git", "-C", W, "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
    res = []
    for i, l in enumerate(subprocess.check_output(["git", "-C", W, "blame", "-s", "-l", "HEAD", "--", path], text=True).split("\n")):
        if l and l.lstrip("^")[:30] == root[:30]:
            res.append(i)
    return res


def candidates():
    files = [f for f in subprocess.check_output(["git", "-C", W, "ls-files", "src/pycalendar", "src/zonal"], text=True).split() if f.endswith(".py") and "/tests/" not in f and "definitions" not in f and not re.search(r"__init__|manager", f)]
    out = []
    for f in files:
        if ONLY and not ONLY.search(f):
            continue
        text = open(os.path.join(W, f)).read().split("\n")
        own = set(original_lines(f))
        doc = False
        for i, l in enumerate(text):
            if l.count('"""') == 1:
                doc = not doc
                continue
            if doc or i not in own or not l.strip() or l.strip().startswith("#") or '"""' in l:
                continue
            if re.match(r"^\s*(import |from |class |def |@|print)", l):
                continue
            if l.strip() == "if __name__ == '__main__':":
                break
            for v in variants(l):
                out.append((f, i, l, v))
    return out


def unit_tests():
    jt = "/tmp/mut_tests.%d.py" % os.getpid()
    open(jt, "w").write(open("/opt/vp/jy_tests.py").read().replace('SRC = "/repo/src"', 'SRC = "%s/src"' % W))
    log = "/tmp/mut_log.%d" % os.getpid()
    if os.path.exists(log):
        os.remove(log)
    try:
        r = subprocess.run(["timeout", "60", "jython", "-B", jt, log], cwd="/tmp", env=dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode:
            return False
        t = open(log).read()
        return t.count("PASS ") == 121 and "FAIL " not in t
    finally:
        os.remove(jt)


def run_check(c):
    r = subprocess.run(["./check", c, "--no-evidence", "--scale", os.environ.get("SCALE", "0.5"), "--procs", os.environ.get("PROCS", "6")], cwd=V, env=dict(os.environ, VERIF_REPO=W, VERIF_FASTFAIL="1", VERIF_SEED=str(SEED)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def main():
    rnd = random.Random(SEED)
    c = candidates()
    # one kind of file should not crowd out the others
    by = {}
    for x in c:
        by.setdefault(x[0], []).append(x)
    for v in by.values():
        rnd.shuffle(v)
    weights = {f: len(v) ** 0.75 for f, v in by.items()}
    print(len(c), "candidates in", len(by), "files", flush=True)
    done = 0
    while done < N:
        f = rnd.choices(list(weights), list(weights.values()))[0]
        if not by[f]:
            continue
        f, i, old, new = by[f].pop()
        path = os.path.join(W, f)
        src = open(path).read()
        lines = src.split("\n")
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        t0 = time.time()
        try:
            if not unit_tests():
                res = "tests"
            else:
                res = "SURVIVED"
                tried = []
                for c in [m[1] for m in MAP if re.search(m[0], f)][0].split():
                    rc, text = run_check(c)
                    tried.append([c, rc])
                    if rc == 1:
                        res = c
                        break
                    if rc != 0:
                        res = "%s exit %d" % (c, rc)
                        break
        finally:
            open(path, "w").write(src)
        done += 1
        with open(OUT, "a") as o:
            o.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": res, "s": round(time.time() - t0)}) + "\n")


main()

"""Runs one property's generated tests: shards, budgets, shrinking, replay, evidence.

A check module defines
    ID, RULE, ASSUMPTIONS (list), TESTS (list of Test)
and calls core.main(sys.modules[__name__]).
"""
import argparse
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st

from harness.jython import Hang, HarnessError, Inconclusive, Jython, RemoteError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Violation(Exception):
    pass


class StopSearch(BaseException):
    pass


def fail(msg, **detail):
    raise Violation(msg + ("" if not detail else " | " + json.dumps(detail, default=str, ensure_ascii=False)[:3000]))


def expect(cond, msg, **detail):
    if not cond:
        fail(msg, **detail)


# for mutation analysis: the first failure will do, as it is
FASTFAIL = bool(os.environ.get("VERIF_FASTFAIL"))


class Test(object):
    """One executable statement.

    run(J, case, rec) raises Violation when the case breaks the property; it sets
    rec.nontrivial / rec.label(...) to classify the case.
    """

    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, explicit=(), max_calls_note=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.explicit = list(explicit)


class Rec(object):
    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.skipped_known = None

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class KnownSkip(Exception):
    """The case lies in the input class of a listed finding."""


def load_known(prop):
    """Open findings of one property: {id: entry}."""
    res = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e["property"] == prop:
                        res[e["id"]] = e
    return res


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def digest(case):
    return hashlib.blake2b(canon(case).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()[:6], "big")


def execute(test, J, case):
    """Run one case. Returns Rec, or raises Violation / HarnessError / Inconclusive."""
    rec = Rec()
    try:
        test.run(J, case, rec)
    except RemoteError as e:
        raise Violation("unexpected error from the library: %s" % e)
    except KnownSkip as e:
        rec.skipped_known = str(e)
    return rec


def execute_confirming(test, J, case):
    """As execute, but a call that runs away is tried again in a fresh process before it counts."""
    for attempt in (1, 2):
        try:
            return execute(test, J, case)
        except Hang as e:
            J.kill()
            if attempt == 2:
                v = Violation("does not terminate: %s (twice)" % e)
                v.hang = True
                raise v
        except HarnessError:
            if attempt == 2:
                raise


def run_shard(args):
    modname, tname, shard, tier, seed, n, budget, shrink_budget = args
    mod = sys.modules.get(modname) or __import__(modname, fromlist=["TESTS"])
    test = [t for t in mod.TESTS if t.name == tname][0]
    t0 = time.time()
    res = {"test": tname, "shard": shard, "evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
           "skipped_known": {}, "over_budget": 0, "failure": None, "error": None, "calls": 0, "inconclusive": 0}
    J = Jython()
    seen = set()
    state = {"fail": None, "fail_t": None, "history": []}
    rnd = random.Random(derive_seed(seed, tname, shard, "samples"))

    def one(case):
        if state["fail_t"] is not None and time.time() - state["fail_t"] > shrink_budget:
            raise StopSearch()
        if state["fail"] is None and time.time() - t0 > budget:
            res["over_budget"] += 1
            return
        res["evaluations"] += 1
        state["history"].append(case)
        del state["history"][:-30]
        try:
            rec = execute_confirming(test, J, case)
        except Inconclusive:
            res["inconclusive"] += 1
            return
        except Violation as v:
            size = len(canon(case))
            if state["fail"] is None or size <= state["fail"][0]:
                state["fail"] = (size, case, str(v), list(state["history"]))
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
            if getattr(v, "hang", False) or FASTFAIL:
                raise StopSearch()
            raise
        if rec.skipped_known:
            res["skipped_known"][rec.skipped_known] = res["skipped_known"].get(rec.skipped_known, 0) + 1
            return
        for l in rec.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if rec.nontrivial:
            d = digest(case)
            if d not in seen:
                seen.add(d)
                if len(res["samples"]) < 3:
                    res["samples"].append(case)
                elif rnd.random() < 3.0 / len(seen):
                    res["samples"][rnd.randrange(3)] = case

    try:
        if shard == 0:
            for case in test.explicit:
                one(case)
        if n > 0:
            f = given(test.strategy)(one)
            f = hypothesis.seed(derive_seed(seed, tname, shard))(f)
            f = settings(max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                         report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                         suppress_health_check=list(HealthCheck), backend="hypothesis")(f)
            f()
    except StopSearch:
        pass
    except Violation:
        pass
    except HarnessError as e:
        res["error"] = "harness: %s" % e
    except BaseException as e:
        if state["fail"] is None:
            res["error"] = traceback.format_exc()[-3000:]
    finally:
        res["calls"] = J.calls
        J.kill()
    if state["fail"] is not None:
        size, case, msg, hist = state["fail"]
        res["failure"] = {"case": case, "message": msg, "history": hist}
        res["error"] = None
    res["nontrivial"] = sorted(seen)
    res["wall"] = time.time() - t0
    return res


def write_replay(mod, test, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (mod.ID, test, digest(failure["case"])))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "test": test, "case": failure["case"], "message": failure["message"],
                   "history": failure.get("history", [])}, f, indent=1, ensure_ascii=False)
    return path


def replay(mod, path):
    with open(path) as f:
        r = json.load(f)
    test = [t for t in mod.TESTS if t.name == r["test"]][0]
    J = Jython()
    try:
        try:
            execute_confirming(test, J, r["case"])
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            print("  %s" % v)
            return 1
        for case in r.get("history", []):
            try:
                execute_confirming(test, J, case)
            except Violation as v:
                print("VIOLATION property=%s replay=%s" % (mod.ID, path))
                print("  (with history) %s" % v)
                return 1
    finally:
        J.kill()
    print("replay passes: %s" % path)
    return 0


def main(mod):
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="run only these tests (comma separated)")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "7")))
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    if args.replay:
        return replay(mod, args.replay)
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 300.0 if tier == "quick" else 6000.0
    shrink_budget = 45.0 if tier == "quick" else 240.0
    tests = [t for t in mod.TESTS if not args.only or t.name in args.only.split(",")]

    # listed findings first: each is the specific input that fails
    known = load_known(mod.ID)
    known_lines = []
    if known:
        J = Jython()
        try:
            for kid, e in sorted(known.items()):
                test = [t for t in mod.TESTS if t.name == e["test"]][0]
                os.environ["VERIF_KNOWN_OFF"] = "1"
                try:
                    execute_confirming(test, J, e["case"])
                except Violation:
                    known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (mod.ID, kid, e["what"]))
                finally:
                    os.environ.pop("VERIF_KNOWN_OFF", None)
        finally:
            J.kill()

    tasks = []
    for t in tests:
        n = int((t.quick if tier == "quick" else t.thorough) * args.scale)
        shards = max(1, min(t.shards if tier == "quick" else max(t.shards, 7), n or 1))
        for s in range(shards):
            tasks.append((mod.__name__ if mod.__name__ != "__main__" else mod.MODNAME, t.name, s, tier, seed, n // shards, budget, shrink_budget))
    # longest first is unknown: interleave shards of different tests
    tasks.sort(key=lambda a: (a[2], a[1]))
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(args.procs, len(tasks)), maxtasksperchild=1) as pool:
        results = []
        for r in pool.imap_unordered(run_shard, tasks, chunksize=1):
            results.append(r)
            if r["failure"] and FASTFAIL:
                pool.terminate()
                break

    results.sort(key=lambda r: (r["shard"], r["test"]))
    evaluations = sum(r["evaluations"] for r in results)
    nontrivial = set()
    labels, samples, skipped = {}, [], {}
    per_test = {}
    for r in results:
        nontrivial.update(r["test"] + ":" + d for d in r["nontrivial"])
        pt = per_test.setdefault(r["test"], {"evaluations": 0, "distinct_nontrivial": set(), "library_calls": 0, "labels": {}})
        pt["evaluations"] += r["evaluations"]
        pt["library_calls"] += r["calls"]
        pt["distinct_nontrivial"].update(r["nontrivial"])
        pt["cpu_wall_s"] = round(pt.get("cpu_wall_s", 0) + r["wall"], 1)
        for l, c in r["labels"].items():
            pt["labels"][l] = pt["labels"].get(l, 0) + c
        for l, c in r["skipped_known"].items():
            skipped[l] = skipped.get(l, 0) + c
        if r["shard"] == 0:
            for s in r["samples"][:2]:
                samples.append({"test": r["test"], "case": s if len(canon(s)) < 3000 else canon(s)[:3000] + "..."})
    for pt in per_test.values():
        pt["distinct_nontrivial"] = len(pt["distinct_nontrivial"])

    status = 0
    errors = [r for r in results if r["error"]]
    fails = {}
    for r in results:
        if r["failure"]:
            cur = fails.get(r["test"])
            if cur is None or len(canon(r["failure"]["case"])) < len(canon(cur["case"])):
                fails[r["test"]] = r["failure"]
    for line in known_lines:
        print(line)
    for tname, f in sorted(fails.items()):
        path = write_replay(mod, tname, f)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print("  test=%s %s" % (tname, f["message"][:1500]))
        print("  case=%s" % canon(f["case"])[:1500])
        status = 1
    wall = time.time() - t0
    over = sum(r["over_budget"] for r in results)
    inconclusive = sum(r["inconclusive"] for r in results)
    if not args.no_evidence:
        ev = {
            "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
                "samples": samples[:12], "per_test": per_test,
                "excluded_as_known_findings": skipped, "cases_not_run_over_time_budget": over,
                "inconclusive": inconclusive,
            },
            "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(wall, 1), "violations": len(fails),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d over budget, %.1f s" % (
        mod.ID, tier, seed, evaluations, len(nontrivial), over, wall))
    for tname, pt in sorted(per_test.items()):
        print("  %-28s %6d cases %6d nontrivial %7d calls %6.1f s" % (tname, pt["evaluations"], pt["distinct_nontrivial"], pt["library_calls"], pt["cpu_wall_s"]))
    if errors and status == 0:
        for r in errors[:3]:
            print("ERROR in %s/%d: %s" % (r["test"], r["shard"], r["error"]), file=sys.stderr)
        return 2
    if evaluations == 0:
        return 2
    return status

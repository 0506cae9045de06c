"""Check runner.

A property module registers sub-checks with @sub.  A sub-check is a function of one JSON-able
case; cases come from a Hypothesis strategy (or a finite list).  Each sub-check runs in its own
process (own interpreter state), seeded by VERIF_SEED alone; the smallest failing case becomes the
replay file, which re-runs without Hypothesis.

Outcomes: property held (exit 0), violated (exit 1 + VIOLATION line), harness error (exit 2).
An exception counts as a violation only when it comes out of the code under test (innermost frame
that is not a library frame lies in the repository); otherwise it is a harness error.
"""

import importlib
import hashlib
import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from contextlib import contextmanager

from . import boot

VERIF = boot.VERIF
KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Discard(Exception):
    """The case is outside the property's domain (counted, not an evaluation)."""


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


@contextmanager
def must(what):
    """the enclosed use of something the code produced (reading a text back, ...) must not fail, wherever it is raised"""
    try:
        yield
    except (Violation, Discard):
        raise
    except Exception as e:
        raise Violation(f"{what} fails: {type(e).__name__}: {e}")


SUBS = {}


class Sub:
    def __init__(self, fn, name, strategy, cases, quick, thorough, rule, budget, hang, shrink, single, tiers):
        self.__dict__.update(locals())


def sub(
    name,
    strategy=None,
    cases=None,
    quick=100,
    thorough=None,
    rule="",
    budget=(90, 800),
    hang=240,
    shrink=True,
    single=False,
    tiers=("quick", "thorough"),
):
    """Register a sub-check.  quick/thorough: number of generated cases; budget: seconds of processor
    time after which no further cases are started (quick, thorough); hang: those one case may take."""

    def deco(fn):
        SUBS[name] = Sub(
            fn, name, strategy, cases, quick, thorough or 10 * quick, rule or (fn.__doc__ or "").strip(), budget, hang, shrink, single, tiers
        )
        return fn

    return deco


class Rec:
    """Per-run record handed to sub-checks."""

    def __init__(self, known):
        self.labels = Counter()
        self.known = known
        self.known_hit = {}
        self.trivial = False

    def label(self, *ls):
        for l in ls:
            self.labels[str(l)] += 1

    def nontrivial(self, cond=True):
        self.trivial = not cond

    def finding(self, key, msg):
        """A violation with an identity: quiet (KNOWN-FINDING) only if the file lists that identity."""
        if key in self.known:
            self.known_hit[key] = msg
            return
        raise Violation(f"[{key}] {msg}")


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE, encoding="utf8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def blame(exc):
    """'repo' if the exception came out of the code under test, else 'harness'."""
    repo = os.path.join(boot.REPO, "neutrinomass") + os.sep
    verif = VERIF + os.sep
    frames = traceback.extract_tb(exc.__traceback__)
    for f in reversed(frames):
        if f.filename.startswith("<"):
            continue  # generated code (eval of a text, ...): judge by its caller
        fn = os.path.abspath(f.filename)
        if fn.startswith(repo):
            return "repo"
        if fn.startswith(verif):
            return "harness"
    return "harness"


def short_tb(exc, n=6):
    frames = traceback.extract_tb(exc.__traceback__)[-n:]
    return " | ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in frames)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False)


def cpu():
    """processor time of this process and its children: how far a check gets must not depend on what else the machine does"""
    return sum(os.times()[:4])


def run_case(s, case, rec):
    """One evaluation.  Returns None or the violation message; harness errors propagate."""

    def on_alarm(sig, frame):
        raise Hang()

    old = [signal.signal(n, on_alarm) for n in (signal.SIGALRM, signal.SIGPROF)]
    signal.setitimer(signal.ITIMER_PROF, s.hang)
    signal.alarm(int(min(3 * s.hang, max(700, s.hang))))
    try:
        rec.trivial = False
        s.fn(case, rec)
        return None
    except Violation as e:
        return str(e)
    except Discard:
        raise
    except Hang:
        return f"no result after {s.hang} s of processor time (such a case takes well under a second normally)"
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if blame(e) == "repo":
            return f"raised {type(e).__name__}: {e} at {short_tb(e)}"
        raise
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        for n, f in zip((signal.SIGALRM, signal.SIGPROF), old):
            signal.signal(n, f)


def load_prop(pid):
    boot.load_package()
    SUBS.clear()
    name = f"harness.props.{pid.lower()}"
    mod = importlib.import_module(name)
    for k in [k for k, s in SUBS.items() if s.fn.__module__ != name]:
        del SUBS[k]  # helpers shared with another property's module
    return mod


def worker(pid, subname, tier, seed, out, shard=0, shards=1):
    """one share of a sub-check: its own random cases, or every shards-th of the listed ones"""
    boot.hypothesis_path()
    res = {"sub": subname, "status": "ok", "evaluations": 0, "distinct": [], "samples": [], "labels": {},
           "discarded": 0, "skipped": 0, "known": {}, "rule": ""}
    t0 = time.time()
    try:
        load_prop(pid)
        s = SUBS[subname]
        res["rule"] = s.rule
        rec = Rec(load_known(pid))
        # with several processes a sub-check covers twice as many cases in less time
        n = s.quick if tier == "quick" else s.thorough
        n = -(-n * min(shards, 2) // shards)
        limit = s.budget[0 if tier == "quick" else 1]
        distinct = set()
        best = {}
        stop = {"t": None}
        keep = []

        def evaluate(case):
            if stop["t"] is not None and time.time() > stop["t"]:
                return True  # shrinking budget used up
            if not best and (cpu() > limit or time.time() - t0 > min(4 * limit, max(600, limit))):
                res["skipped"] += 1
                return True
            try:
                msg = run_case(s, case, rec)
            except Discard:
                res["discarded"] += 1
                return True
            res["evaluations"] += 1
            if not rec.trivial:
                c = canon(case)
                h = hashlib.sha1(c.encode()).hexdigest()[:14]
                if h not in distinct:
                    distinct.add(h)
                    if len(keep) < 400:
                        keep.append(case)
            if msg is not None:
                c = canon(case)
                if not best or (len(c), c) <= (len(canon(best["case"])), canon(best["case"])):
                    best.update(case=case, msg=msg)
                if stop["t"] is None:
                    stop["t"] = time.time() + (45 if s.shrink and "no result after" not in msg else 0)
                return False
            return True

        if s.cases is not None:
            cases = s.cases(tier)
            # deterministic order; the seed rotates it so a budget cut does not always drop the same tail
            if cases:
                r = seed % len(cases)
                cases = (cases[r:] + cases[:r])[shard::shards]
            for case in cases:
                if not evaluate(case) and len(best) and not s.shrink:
                    break
                if best:
                    break
            res["exhaustive"] = res["skipped"] == 0 and not best
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            class Failed(Exception):
                pass

            phases = [Phase.generate] + ([Phase.shrink] if s.shrink else [])

            @hypothesis.seed(seed * 1000003 + sum(map(ord, pid + subname)) + 7919 * shard)
            @settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=phases,
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
                derandomize=False,
            )
            @given(s.strategy())
            def test(case):
                if not evaluate(case):
                    raise Failed()

            try:
                test()
            except Failed:
                pass
            except BaseException as e:
                if best and type(e).__module__.startswith(("hypothesis", "builtins")) and not isinstance(e, KeyboardInterrupt) and (
                    "lak" in type(e).__name__ or isinstance(e, ExceptionGroup)
                ):
                    pass
                else:
                    raise
        res["distinct"] = sorted(distinct)
        step = max(1, len(keep) // 4)
        res["samples"] = keep[::step][:4]
        res["labels"] = dict(rec.labels.most_common(60))
        res["known"] = rec.known_hit
        if best:
            res["status"] = "violation"
            res["case"] = best["case"]
            res["msg"] = best["msg"]
    except BaseException as e:
        res["status"] = "error"
        res["msg"] = f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exception(e))[-6000:]
    res["wall_s"] = round(time.time() - t0, 2)
    with open(out, "w", encoding="utf8") as f:
        json.dump(res, f, ensure_ascii=False, default=str)


def merge(parts):
    """the shares of a sub-check as one result; the smallest failing case wins"""
    out = dict(parts[0])
    order = {"violation": 0, "error": 1, "ok": 2}
    failed = sorted((p for p in parts if p["status"] != "ok"), key=lambda p: (order[p["status"]], len(canon(p.get("case"))), canon(p.get("case"))))
    if failed:
        out.update({k: failed[0][k] for k in ("status", "case", "msg") if k in failed[0]})
    for k in ("evaluations", "discarded", "skipped"):
        out[k] = sum(p.get(k, 0) for p in parts)
    out["distinct_nontrivial"] = len(set().union(*(p.get("distinct", []) for p in parts)))
    out["rule"] = next((p["rule"] for p in parts if p.get("rule")), "")
    out["samples"] = [c for p in parts for c in p.get("samples", [])[:: max(1, len(parts) // 2)]][:4]
    out["labels"] = dict(sum((Counter(p.get("labels", {})) for p in parts), Counter()).most_common(60))
    out["known"] = {k: v for p in parts for k, v in p.get("known", {}).items()}
    out["wall_s"] = max(p.get("wall_s", 0) for p in parts)
    if any("exhaustive" in p for p in parts):
        out["exhaustive"] = all(p.get("exhaustive") for p in parts)
    return out


def trim(x, n=1500):
    t = json.dumps(x, ensure_ascii=False)
    return x if len(t) <= n else t[:n] + "..."


def main(pid, tier, seed, only=None):
    t0 = time.time()
    names = subprocess.run(
        [boot.PY, "-W", "ignore", "-m", "harness.worker", "--list", pid, tier],
        env=boot.child_env(), cwd=VERIF, capture_output=True, text=True,
    )
    if names.returncode:
        print(names.stdout, names.stderr, file=sys.stderr)
        return 2
    single = json.loads(names.stdout.strip().splitlines()[-1])
    subs = list(single)
    if only:
        subs = [x for x in subs if x in only]
    tmp = tempfile.mkdtemp(prefix=f"nm_verif_{pid}_")
    width = int(os.environ.get("VERIF_JOBS", "8"))
    shared = [x for x in subs if not single[x]]
    shards = max(1, round((width - len(subs) + len(shared)) / max(1, len(shared))))
    share = {x: 1 if single[x] else shards for x in subs}
    jobs = [(x, k, os.path.join(tmp, f"{x}-{k}.json")) for k in range(shards) for x in subs if k < share[x]]
    running, parts = [], {x: [] for x in subs}
    pending = list(jobs)
    hard = 860 if tier == "quick" else 3600
    while pending or running:
        while pending and len(running) < width:
            name, k, out = pending.pop(0)
            p = subprocess.Popen(
                [boot.PY, "-W", "ignore", "-m", "harness.worker", pid, name, tier, str(seed), out, str(k), str(share[name])],
                env=boot.child_env(), cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
            )
            running.append((name, out, p))
        time.sleep(0.05)
        for item in list(running):
            name, out, p = item
            if p.poll() is not None:
                running.remove(item)
                err = p.stderr.read().decode("utf8", "replace")
                if os.path.exists(out):
                    parts[name].append(json.load(open(out, encoding="utf8")))
                else:
                    parts[name].append({"sub": name, "status": "error", "msg": f"worker died ({p.returncode}): {err[-2000:]}"})
        if time.time() - t0 > hard:
            for name, out, p in running:
                p.kill()
                parts[name].append({"sub": name, "status": "error", "msg": "out of time"})
            break
    for _, _, out in jobs:
        if os.path.exists(out):
            os.remove(out)
    os.rmdir(tmp)
    results = {x: merge(parts[x]) for x in subs if parts[x]}

    violations, errors, known = [], [], {}
    ev = dn = 0
    rules, samples, detail = [], [], {}
    for name in subs:
        r = results.get(name, {"status": "error", "msg": "not run"})
        known.update(r.get("known", {}))
        ev += r.get("evaluations", 0)
        dn += r.get("distinct_nontrivial", 0)
        rules.append(f"{name}: {r.get('rule', '')}")
        samples += [{"sub": name, "case": trim(c)} for c in r.get("samples", [])]
        detail[name] = {k: r.get(k) for k in ("status", "evaluations", "distinct_nontrivial", "discarded", "skipped", "exhaustive", "labels", "wall_s") if r.get(k) is not None}
        if r["status"] == "violation":
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{pid}-{name}.json")
            with open(path, "w", encoding="utf8") as f:
                json.dump({"property": pid, "sub": name, "case": r["case"], "message": r["msg"], "seed": seed}, f, ensure_ascii=False, indent=1)
            violations.append((name, path, r["msg"]))
        elif r["status"] == "error":
            errors.append((name, r.get("msg", "")))
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": dn,
            "rule": " || ".join(rules),
            "samples": samples or ["none"],
            "sub_checks": detail,
            "exhaustive": bool(detail) and all(d.get("exhaustive") for d in detail.values()),
        },
        "assumptions": [
            "numpy, networkx, sympy rational arithmetic and Hypothesis are trusted in the oracles",
            "database/democratic.p is missing from the repository: an empty table stands in for that one file",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf8") as f:
        json.dump(evidence, f, ensure_ascii=False, indent=1)
    listed = load_known(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k} {listed.get(k, '')}")
    print(f"{pid} {tier} seed={seed}: {ev} cases, {dn} distinct non-trivial, {evidence['wall_s']} s")
    for name in subs:
        d = detail[name]
        print("   ", name, {k: v for k, v in d.items() if k not in ("labels",)})
    for name, path, msg in violations:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {name}: {msg[:1500]}")
    for name, msg in errors:
        print(f"ERROR in {name}: {msg}", file=sys.stderr)
    if violations:
        return 1
    return 2 if errors else 0


def replay(path):
    data = json.load(open(path, encoding="utf8"))
    boot.hypothesis_path()
    load_prop(data["property"])
    rec = Rec(load_known(data["property"]))
    msg = run_case(SUBS[data["sub"]], data["case"], rec)
    if msg is None:
        print("replay: the property holds on this case")
        return 0
    print(f"VIOLATION property={data['property']} replay={path}\n  {msg}")
    return 1

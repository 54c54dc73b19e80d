"""Runner shared by all checks.

A check module defines
    PROPERTY   "C01"
    LEVEL      level reported in the evidence
    RULE       what makes an observation non-trivial/distinct
    ASSUMPTIONS list[str]
    cases(tier, seed) -> list of JSON-serialisable case descriptors (deterministic)
    run_case(case, mon) -> None        drives the real code; reports to the Monitor
    CPU_LIMIT  (optional) CPU seconds a single case may burn before it is declared a hang
    HANG_IS_VIOLATION (optional, default True)
    prepare(tier, seed) (optional)     executed once before workers are forked
    finish(agg) (optional)             offline checks over the merged observations

Outcome per case is three valued: held, violated (mon.violation), inconclusive (an exception which
does not come out of the code under test, a wall-clock watchdog).  Inconclusive => exit code 3.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import tempfile
import shutil
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAUSY_REPO", "/repo")
EVIDENCE_DIR = os.path.join(ROOT, "evidence")
REPLAY_DIR = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


class Hang(BaseException):
    pass


class WallTimeout(BaseException):
    pass


class Inconclusive(Exception):
    """raised by a check when it cannot decide (never a violation, never silently 'held')"""


def digest(obj) -> str:
    return hashlib.sha1(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


class Monitor:
    """collects what the oracle observed in one worker"""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.counters = Counter()
        self.samples = []
        self.violations = []
        self.known = set()  # kinds listed in KNOWN_FINDINGS.txt
        self.case = None

    def event(self, kind, n=1):
        """n observations of this kind were compared with the oracle"""
        self.counters[kind] += n

    def evaluate(self, key, nontrivial=True, sample=None):
        """one oracle decision; key identifies the distinct state/behaviour observed"""
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(key if isinstance(key, str) else digest(key))
        if sample is not None and len(self.samples) < 3:
            self.samples.append(sample)

    def violation(self, kind, message):
        if kind in self.known:
            self.counters["known_finding:" + kind] += 1
            if self.counters["known_finding:" + kind] > 2:
                return
        self.violations.append(
            {"case": self.case, "kind": kind, "message": str(message)[:2000]}
        )

    def check(self, cond, kind, message):
        if not cond:
            self.violation(kind, message() if callable(message) else message)
        return bool(cond)


def from_code_under_test(exc) -> bool:
    """does the traceback pass through causy's own source?"""
    tb = exc.__traceback__
    prefix = os.path.join(os.path.realpath(REPO), "causy") + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def malformed(exc) -> bool:
    """did the harness fail because something the code under test produced is missing or cannot be read?
    (a changed interface of the code shows up as ImportError, AttributeError or TypeError and stays inconclusive)"""
    import yaml

    if isinstance(exc, (ValueError, KeyError, IndexError, FileNotFoundError, yaml.YAMLError)):
        return True
    return isinstance(exc, (AttributeError, TypeError)) and "'NoneType'" in str(exc)


def short_tb(exc):
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines)[-1500:]


def _arm(cpu_limit, wall_limit):
    def on_prof(sig, frame):
        raise Hang()

    def on_alarm(sig, frame):
        raise WallTimeout()

    signal.signal(signal.SIGPROF, on_prof)
    signal.signal(signal.SIGALRM, on_alarm)
    # keep firing: code under test may swallow a single exception
    signal.setitimer(signal.ITIMER_PROF, cpu_limit, 1.0)
    signal.setitimer(signal.ITIMER_REAL, wall_limit, 5.0)


def _disarm():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


def run_one(mod, case, mon):
    """run a case; returns None or an inconclusive reason"""
    mon.case = case
    before = len(mon.violations)
    import torch

    seed = int(digest(case), 16) % (2**31)
    random.seed(seed)
    torch.manual_seed(seed)
    cpu = getattr(mod, "CPU_LIMIT", 60)
    cwd = os.getcwd()
    try:
        _arm(cpu, cpu * 6 + 60)
        try:
            mod.run_case(case, mon)
        finally:
            _disarm()
            os.chdir(cwd)
    except Hang:
        _disarm()
        if getattr(mod, "HANG_IS_VIOLATION", True):
            mon.violation("hang", f"no result after {cpu} CPU seconds")
        else:
            return f"cpu limit {cpu}s"
    except WallTimeout:
        _disarm()
        return "wall clock watchdog"
    except Inconclusive as e:
        return f"inconclusive: {e}"
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa
        _disarm()
        if from_code_under_test(e):
            mon.violation("crash:" + type(e).__name__, short_tb(e))
        elif malformed(e):
            mon.violation("malformed:" + type(e).__name__, "what the code produced cannot be read: " + short_tb(e))
        else:
            return "harness error: " + short_tb(e)
    return None


MAX_VIOLATIONS_PER_WORKER = 20


def _worker(mod, cases, counter, out_path):
    mon = Monitor()
    mon.known = {k for p, k, _ in load_known() if p == mod.PROPERTY}
    inconclusive = []
    done = 0
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            break
        case = cases[i]
        r = run_one(mod, case, mon)
        done += 1
        if r is not None:
            inconclusive.append({"case": case, "reason": r})
            if len(inconclusive) >= 5:
                break
        if sum(v["kind"] not in mon.known for v in mon.violations) >= MAX_VIOLATIONS_PER_WORKER:
            break
    with open(out_path, "w") as f:
        json.dump(
            {
                "done": done,
                "evaluations": mon.evaluations,
                "distinct": sorted(mon.distinct),
                "counters": dict(mon.counters),
                "samples": mon.samples,
                "violations": mon.violations,
                "inconclusive": inconclusive,
            },
            f,
            default=str,
        )


def load_known():
    """lines 'finding: property=<id> key=<mechanism key> <text>' ('fixed:' lines suppress nothing)"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                res.append((prop, key, parts[3] if len(parts) > 3 else ""))
    return res


def main(prop, tier, seed):
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    os.makedirs(EVIDENCE_DIR, exist_ok=True)
    os.makedirs(REPLAY_DIR, exist_ok=True)
    evidence_path = os.path.join(EVIDENCE_DIR, f"{prop}.json")
    try:
        os.remove(evidence_path)
    except FileNotFoundError:
        pass

    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_SCRATCH"] = scratch
    rc = 3
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(tier, seed)
        cases = list(mod.cases(tier, seed))
        n = min(int(os.environ.get("VERIF_JOBS", getattr(mod, "JOBS", 8))), max(1, len(cases)))
        pids = {}
        # cases are handed out one by one so that a few expensive ones do not serialise the run
        counter = multiprocessing.get_context("fork").Value("i", 0)
        for k in range(n):
            out = os.path.join(scratch, f"worker_{k}.json")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 4
                try:
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    wd = os.path.join(scratch, f"w{k}")
                    os.makedirs(wd)
                    os.chdir(wd)
                    os.environ["VERIF_SCRATCH"] = wd
                    if not os.environ.get("VERIF_VERBOSE"):
                        dn = os.open(os.devnull, os.O_WRONLY)
                        err = os.open(
                            os.path.join(scratch, f"stderr_{k}"),
                            os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                        )
                        os.dup2(dn, 1)
                        os.dup2(err, 2)
                    _worker(mod, cases, counter, out)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids[pid] = (k, out)
        agg = {
            "done": 0,
            "evaluations": 0,
            "distinct": set(),
            "counters": Counter(),
            "samples": [],
            "violations": [],
            "inconclusive": [],
        }
        for pid, (k, out) in pids.items():
            _, status = os.waitpid(pid, 0)
            if not os.path.exists(out):
                tail = ""
                try:
                    tail = open(os.path.join(scratch, f"stderr_{k}")).read()[-1500:]
                except OSError:
                    pass
                agg["inconclusive"].append(
                    {"case": None, "reason": f"worker {k} died (status {status}) {tail}"}
                )
                continue
            d = json.load(open(out))
            agg["done"] += d["done"]
            agg["evaluations"] += d["evaluations"]
            agg["distinct"].update(d["distinct"])
            agg["counters"].update(d["counters"])
            agg["samples"] += d["samples"]
            agg["violations"] += d["violations"]
            agg["inconclusive"] += d["inconclusive"]
        if hasattr(mod, "finish"):
            mod.finish(agg, tier)
        # an execution the oracle never looked at proves nothing
        floors = getattr(mod, "FLOORS", {})
        known = [(k, t) for p, k, t in load_known() if p == prop]
        if all(v["kind"] in {k for k, _ in known} for v in agg["violations"]):
            for kind, minimum in floors.items():
                if agg["counters"].get(kind, 0) < minimum:
                    agg["inconclusive"].append(
                        {
                            "case": None,
                            "reason": f"monitor observed only {agg['counters'].get(kind, 0)} '{kind}' events (floor {minimum})",
                        }
                    )
        seen_known = {k: agg["counters"].get("known_finding:" + k, 0) for k, _ in known}
        fresh = [v for v in agg["violations"] if v["kind"] not in seen_known]
        for k, t in known:
            print(f"KNOWN-FINDING: property={prop} [{k}] {t} (observed {seen_known[k]}x this run)")
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": mod.LEVEL,
            "coverage": {
                "evaluations": agg["evaluations"],
                "distinct_nontrivial": len(agg["distinct"]),
                "rule": mod.RULE,
                "samples": agg["samples"][:6],
                "cases_planned": len(cases),
                "cases_run": agg["done"],
                "monitor_events": dict(sorted(agg["counters"].items())),
                "inconclusive": len(agg["inconclusive"]),
                "known_findings_observed": seen_known,
            },
            "assumptions": mod.ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        with open(evidence_path, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        if fresh:
            kinds = Counter(v["kind"] for v in fresh)
            printed = set()
            for v in fresh:
                if v["kind"] in printed:
                    continue
                printed.add(v["kind"])
                path = os.path.join(
                    REPLAY_DIR, f"{prop}_{digest([v['case'], v['kind']])}.json"
                )
                with open(path, "w") as f:
                    json.dump({"property": prop, **v}, f, indent=1, default=str)
                print(f"  {v['kind']} (x{kinds[v['kind']]}): {v['message'][:1200]}")
                print(f"VIOLATION property={prop} replay={path}")
            rc = 1
        elif agg["inconclusive"]:
            for i in agg["inconclusive"][:5]:
                print("INCONCLUSIVE", json.dumps(i, default=str)[:3000])
            rc = 3
        else:
            rc = 0
        print(
            f"{prop} {tier} seed={seed}: {agg['done']}/{len(cases)} cases, {agg['evaluations']} oracle decisions, "
            f"{len(agg['distinct'])} distinct, {len(fresh)} violations, {time.time()-t0:.1f}s  events={dict(agg['counters'])}"
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def replay(path):
    sys.path.insert(0, ROOT)
    d = json.load(open(path))
    prop = d["property"]
    mod = importlib.import_module(f"checks.{prop.lower()}")
    scratch = tempfile.mkdtemp(prefix=f"verif_replay_{prop}_")
    os.environ["VERIF_SCRATCH"] = scratch
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        if hasattr(mod, "prepare"):
            mod.prepare("quick", int(os.environ.get("VERIF_SEED", "1")))
        mon = Monitor()
        r = run_one(mod, d["case"], mon)
        os.chdir(cwd)
        if r:
            print("INCONCLUSIVE", r)
            return 3
        for v in mon.violations:
            print(f"  {v['kind']}: {v['message']}")
        if mon.violations:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("replay: property held")
        return 0
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)

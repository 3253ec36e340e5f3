"""Monitor, verdict and evidence machinery shared by all checks.

A check module offers
    RULE      text: what makes an observation count as distinct and non-trivial
    NEED      {event kind: minimum} or {tier: {...}}: below it the run is inconclusive
    jobs(tier, rng)    list of JSON-able job descriptions (each with its own seed)
    work(job, mon)     runs the real code and lets the monitor judge it
    setup()            optional, executed once before the workers are forked
and optionally ASSUME (list of texts) and JOB_LIMIT (seconds per job).
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
EVIDENCE = os.path.join(VERIF, "evidence")
STUBS = os.path.join(VERIF, "stubs")
KNOWN = os.path.join(VERIF, "known_findings.json")


ENDLESS = 120   # seconds of computing in one call of the code under test


class Skip(Exception):
    """The current case ended (the code under test failed on it)."""


class HarnessGap(Exception):
    """The harness, not the code under test, cannot go on."""


class JobTimeout(BaseException):
    """Watchdog of one job."""


def digest(x):
    return hashlib.blake2b(repr(x).encode("utf8", "replace"), digest_size=8).hexdigest()


def _short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Mon:
    """Observes one job: counts events, judges, records violations."""

    def __init__(self, job=None):
        self.job = job
        self.counts = {}
        self.distinct = {}
        self.samples = []
        self.evals = 0
        self.viol = []
        self.max_viol = 12

    # events -------------------------------------------------------------
    def ev(self, kind, n=1):
        """something happened in the workload (no judgement)"""
        self.counts[kind] = self.counts.get(kind, 0) + n

    def seen(self, kind, key):
        self.distinct.setdefault(kind, set()).add(digest(key))

    # judgements ---------------------------------------------------------
    def judge(self, kind, key=None, sample=None):
        """one oracle decision; key None means trivial (not counted as distinct)"""
        self.evals += 1
        self.ev("judged:" + kind)
        if key is not None:
            s = self.distinct.setdefault("judged:" + kind, set())
            d = digest(key)
            if d not in s:
                s.add(d)
                if sample is not None and len(self.samples) < 6 and (len(s) % 7 == 1):
                    self.samples.append({"what": kind, "observed": _short(sample, 240)})

    def bad(self, mechanism, msg, detail=None):
        self.ev("violations")
        if len(self.viol) < self.max_viol and sum(v["mechanism"] == mechanism for v in self.viol) < 2:
            self.viol.append({"mechanism": mechanism, "message": _short(msg, 1500),
                              "detail": _short(detail, 4000) if detail is not None else None, "job": self.job})

    def expect(self, kind, ok, msg, key=None, sample=None, mech=None, detail=None):
        self.judge(kind, key, sample)
        if not ok:
            self.bad(mech or kind, msg() if callable(msg) else msg, detail)
        return ok

    def equal(self, kind, got, want, what="", key=None, mech=None, detail=None, tol=None):
        if tol is None:
            ok = same(got, want)
        else:
            ok = close(got, want, tol)
        self.judge(kind, key, got if key is not None else None)
        if not ok:
            self.bad(mech or kind, "%s: got %s, expected %s" % (what or kind, _short(got), _short(want)), detail)
        return ok

    @contextlib.contextmanager
    def sut(self, what, allow=(), detail=None, timeout_is=None):
        """run code under test; an exception on valid input is a violation"""
        t0 = time.process_time()
        try:
            with quiet():
                yield
        except allow:
            raise
        except JobTimeout:
            # computing all the time, thousands of times longer than usual: not a slow machine
            if time.process_time() - t0 > ENDLESS:
                self.evals += 1
                self.bad("no end:%s" % what, "%s did not end within %d s of computing" % (what, time.process_time() - t0), detail)
            raise
        except (Skip, HarnessGap, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa - SystemExit from exit() included
            tb = traceback.extract_tb(e.__traceback__)
            if is_gap(e, tb):
                raise HarnessGap("stand-in gap while running %s: %r\n%s" % (
                    what, e, "".join(traceback.format_exception(type(e), e, e.__traceback__)))) from e
            fr = [f for f in tb if f.filename.startswith(REPO)]
            where = "%s:%s" % (os.path.basename(fr[-1].filename), fr[-1].name) if fr else "?"
            self.ev("judged:no error")
            self.evals += 1
            self.bad("error:%s:%s@%s" % (what, type(e).__name__, where),
                     "%s raised %s: %s (in %s)" % (what, type(e).__name__, e, where), detail)
            raise Skip() from e

    def dump(self):
        return {"counts": self.counts, "distinct": {k: sorted(v) for k, v in self.distinct.items()},
                "samples": self.samples, "evals": self.evals, "viol": self.viol}


PLAIN = {a for c in (dict, list, tuple, set, str, int, float) for a in dir(c)} - set(dir(object)) - {"copy", "update"}


def is_gap(e, tb):
    if type(e).__name__ in ("SolverTrouble", "StubGap"):
        return True
    msg = str(e)
    if isinstance(e, (ImportError, AttributeError)) and re.search(
            r"(No module named|cannot import|module) '?(pulp|dimod|pyqubo|neal|dwave|matplotlib)", msg):
        return True
    if tb and tb[-1].filename.startswith(STUBS) and isinstance(
            e, (NotImplementedError, AttributeError, ImportError)):
        return True
    # attribute of a stand-in object that the stand-in does not have
    # (asking one for what only containers, texts and numbers have is an error in any case)
    name = re.search(r"has no attribute '(\w+)'", msg)
    if isinstance(e, AttributeError) and name and name.group(1) in PLAIN:
        return False
    if isinstance(e, AttributeError) and re.search(
            r"'(Lp\w+|PULP_\w+|\w+_CMD|BinaryQuadraticModel|QuadraticModel|ConstrainedQuadraticModel|SampleSet|Binary|"
            r"LogEncInteger|Placeholder|Model|\w*Sampler|EmbeddingComposite)' object has no attribute", msg):
        return True
    return False


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def isnan(x):
    try:
        return x != x
    except Exception:
        return False


def same(a, b):
    """equality in which an empty cell (NaN / None) equals an empty cell"""
    if a is None or isnan(a):
        return b is None or bool(isnan(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    try:
        return bool(a == b)
    except Exception:
        return False


def close(a, b, tol=1e-6):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a is None or b is None:
        return a is b
    if isnan(a) or isnan(b):
        return bool(isnan(a) and isnan(b))
    return abs(a - b) <= tol


def diff(got, want, tol=None):
    """readable difference of two dicts"""
    out = []
    for k in sorted(set(got) | set(want), key=str):
        if k not in got:
            out.append("missing %s (expected %s)" % (k, _short(want[k], 80)))
        elif k not in want:
            out.append("unexpected %s: %s" % (k, _short(got[k], 80)))
        elif not (same(got[k], want[k]) if tol is None else close(got[k], want[k], tol)):
            out.append("%s: got %s, expected %s" % (k, _short(got[k], 80), _short(want[k], 80)))
    return "; ".join(out[:8]) + (" (+%d more)" % (len(out) - 8) if len(out) > 8 else "")


# ----------------------------------------------------------------------
_MOD = None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import milp
    milp._PROC = None


def _alarm(signum, frame):
    raise JobTimeout()


def _run_job(arg):
    i, job = arg
    mon = Mon(job)
    limit = getattr(_MOD, "JOB_LIMIT", 300)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    err = None
    try:
        try:
            _MOD.work(job, mon)
        except Skip:
            pass
    except JobTimeout:
        err = ("timeout", "job %s exceeded %s s" % (_short(job, 200), limit))
    except HarnessGap as e:
        err = ("gap", str(e))
    except BaseException as e:  # noqa
        err = ("harness", "".join(traceback.format_exception(type(e), e, e.__traceback__)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return i, mon.dump(), err, time.time() - t


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == pid]


def run_check(pid, mod, tier, seed, replay=None):
    global _MOD
    _MOD = mod
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    ev_path = os.path.join(EVIDENCE, pid + ".json")
    if os.path.exists(ev_path) and replay is None:
        os.remove(ev_path)
    total = {"counts": {}, "distinct": {}, "samples": [], "evals": 0, "viol": []}
    errors = []
    ok_setup = True
    if hasattr(mod, "setup"):
        mon = Mon({"setup": True})
        try:
            with mon.sut("loading the code under test"):
                mod.setup()
        except Skip:
            ok_setup = False
            total["viol"] += mon.viol
            total["evals"] += 1
        except HarnessGap as e:
            print("HARNESS-GAP %s" % e)
            return 2
    if replay is not None:
        with open(replay) as f:
            jobs = [json.load(f)["job"]]
    else:
        jobs = mod.jobs(tier, random.Random("%s/%s/%s" % (pid, tier, seed)))
    times = []
    if ok_setup:
        n = min(int(os.environ.get("VERIF_WORKERS", "0")) or os.cpu_count() or 4, len(jobs), 8)
        if n <= 1:
            it = map(_run_job, enumerate(jobs))
            pool = None
        else:
            pool = multiprocessing.get_context("fork").Pool(n, _init)
            it = pool.imap_unordered(_run_job, list(enumerate(jobs)), chunksize=1)
        done = {}
        deadline = t0 + (840 if tier == "quick" else 3 * 3600)
        try:
            while len(done) < len(jobs):
                if pool is None:
                    i, d, err, dt = next(it)
                else:
                    i, d, err, dt = it.next(timeout=max(1.0, deadline - time.time()))
                done[i] = (d, err)
                times.append(dt)
                if err and err[0] == "timeout" and d["viol"]:
                    errors.append(("timeout", "stopped early"))
                    break
                if os.environ.get("VERIF_TIMES") and dt > 5:
                    print("job %s took %.1f s: %s" % (i, dt, _short(jobs[i], 200)))
        except multiprocessing.TimeoutError:
            errors.append(("timeout", "run exceeded its wall clock limit"))
        finally:
            if pool is not None:
                pool.terminate()
        for i in sorted(done):
            d, err = done[i]
            for k, v in d["counts"].items():
                total["counts"][k] = total["counts"].get(k, 0) + v
            for k, v in d["distinct"].items():
                total["distinct"].setdefault(k, set()).update(v)
            total["samples"] += d["samples"]
            total["evals"] += d["evals"]
            total["viol"] += d["viol"]
            if err:
                errors.append(err)

    # known findings -----------------------------------------------------
    known = known_findings(pid)
    fresh, hit = [], {}
    for v in total["viol"]:
        k = next((k for k in known if re.fullmatch(k["mechanism"], v["mechanism"])), None)
        if k is None:
            fresh.append(v)
        else:
            hit.setdefault(k["mechanism"], (k, v))
    for k, v in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # evidence -------------------------------------------------------------
    rnd = random.Random(seed)
    samples = total["samples"]
    if len(samples) > 12:
        samples = rnd.sample(samples, 12)
    judged = {k: len(v) for k, v in total["distinct"].items() if k.startswith("judged:")}
    cov = {"evaluations": total["evals"], "distinct_nontrivial": sum(judged.values()),
           "rule": mod.RULE, "samples": samples, "jobs": len(jobs), "jobs_finished": len(times),
           "events": dict(sorted(total["counts"].items())),
           "distinct": {k: len(v) for k, v in sorted(total["distinct"].items())}}
    viols = []
    mechs = {}
    rep_dir = os.path.join(EVIDENCE, "replays")
    for v in fresh:
        mechs.setdefault(v["mechanism"], v)
    for n, (m, v) in enumerate(mechs.items()):
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "%s_%d.json" % (pid, n))
        if replay is None:
            with open(path, "w") as f:
                json.dump(dict(v, property=pid, tier=tier, seed=seed), f, indent=1, default=str)
        else:
            path = replay
        viols.append({"mechanism": m, "message": v["message"], "replay": path})
    need = getattr(mod, "NEED", {})
    need = need.get(tier, need.get("quick", need)) if any(isinstance(x, dict) for x in need.values()) else need
    lacking = {k: (total["counts"].get(k, 0), n) for k, n in need.items() if total["counts"].get(k, 0) < n}
    cov["required"] = need
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(time.time() - t0, 3),
                "violations": viols}
    if hit:
        evidence["known_findings"] = [k["what"] for k, _ in hit.values()]
    if replay is None:
        with open(ev_path, "w") as f:
            json.dump(evidence, f, indent=1, default=str, ensure_ascii=False)
            f.write("\n")
    if viols:
        for v in viols[:6]:
            print("  %s" % _short(v["message"], 700))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        for e in errors[:2]:
            print("(%s: %s)" % (e[0], _short(e[1], 300)))
        return 1
    hard = [e for e in errors if e[0] != "timeout"]
    if hard:
        print("HARNESS ERROR property=%s: %s\n%s" % (pid, hard[0][0], hard[0][1]))
        return 2
    if errors:
        print("INCONCLUSIVE property=%s: %s" % (pid, errors[0][1]))
        return 3
    if lacking and replay is None:
        print("INCONCLUSIVE property=%s: monitor not reached often enough: %s" % (pid, lacking))
        return 3
    print("held property=%s tier=%s seed=%s on %d judged observations (%d distinct), %d jobs, %.1f s" % (
        pid, tier, seed, total["evals"], cov["distinct_nontrivial"], len(jobs), time.time() - t0))
    return 0

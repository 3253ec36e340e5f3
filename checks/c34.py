"""C34 A run whose solver fails stores nothing and says so."""
import hashlib
import os
import random
import runpy
import sys

from vp import core, prog, qm, sut

RULE = ("one observation = one run with an injected solver failure: its end, the files before and after; distinct by (program, method, kind of failure, failing call, options)")
NEED = {"judged:ends with an error": 60, "judged:nothing stored": 60, "judged:earlier results kept": 30, "failures": 60, "lp": 10, "sim": 6, "real": 6, "bqm": 6, "cqm": 6,
        "later calls": 8, "wisla": 15, "real small": 25, "ko": 2}
JOB_LIMIT = 600


class Lost(Exception):
    """the connection to the solver is lost"""


FAULTS = {"lost": Lost, "os": OSError, "interrupt": KeyboardInterrupt, "value": ValueError, "memory": MemoryError}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    out = []
    for m in ("lp", "cqm", "sim", "bqm", "real"):
        out += [{"what": "wisla", "method": m, "seed": rng.randrange(10 ** 9)} for _ in range(5 if q else 60)]
        out += [{"what": "real small", "method": m, "seed": rng.randrange(10 ** 9)} for _ in range(9 if q else 80)]
    ko = [("lp", 3), ("cqm", 3)] if q else [(m, c) for m in ("lp", "cqm", "sim", "bqm", "real") for c in (1, 2, 3)]
    out = [{"what": "ko", "method": m, "case": c, "seed": rng.randrange(10 ** 9)} for m, c in ko] + out
    return out


def files():
    """results and their content; the kept annotated tables are no result of a solver"""
    out = {}
    for d, _, fs in os.walk("."):
        if d.startswith("./data"):
            continue
        for f in fs:
            p = os.path.join(d, f)
            if f != "update_tables.pkl":
                with open(p, "rb") as h:
                    out[p] = hashlib.blake2b(h.read(), digest_size=12).hexdigest()
    return out


def failing(name, args, solve):
    """run a program that is to fail -> (how it ended, what it printed)"""
    from pulp import backend
    backend.SOLVE = solve
    argv, path = sys.argv, list(sys.path)
    sys.argv = [name] + [str(a) for a in args]
    sys.path.insert(0, os.path.dirname("/repo/" + name))
    try:
        with core.quiet():
            runpy.run_path("/repo/" + name, run_name="__main__")
        return None
    except (core.JobTimeout, core.HarnessGap, core.Skip):
        raise
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except BaseException as e:  # noqa - every kind of end is looked at
        import traceback
        if core.is_gap(e, traceback.extract_tb(e.__traceback__)):
            raise core.HarnessGap("stand-in gap: %r" % e)
        return e
    finally:
        sys.argv = argv
        sys.path[:] = path
        backend.SOLVE = None


class Faulty(qm.Play):
    """samplers that fail at the n-th call"""

    def __init__(self, n, kind):
        qm.Play.__init__(self, None, None)
        self.n, self.kind, self.hit = n, kind, 0

    def note(self, xs):
        if len(self.given) + 1 == self.n:
            self.hit += 1
            raise FAULTS[self.kind]("injected")
        return qm.Play.note(self, xs)


def faulty_lp(n, kind, rng, state):
    good = prog.random_solver(rng, [])

    def solve(lp, solver):
        state["calls"] += 1
        if state["calls"] != n:
            return good(lp, solver)
        state["hit"] += 1
        if kind in FAULTS:
            raise FAULTS[kind]("injected")
        # no solution within the limits of the solver
        for v in lp.variables():
            v.varValue = None
        st = 0 if kind == "not solved" else -3
        lp.assignStatus(st)
        return st
    return solve


def work(job, mon):
    rng = random.Random(job["seed"])
    what, m = job["what"], job["method"]
    mon.ev(m)
    mon.ev(what)
    show = rng.random() < .5
    solver = rng.choice(["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"])
    runs = 1
    if what == "wisla":
        name, data = "wisla_problems.py", None
        args = ["--solve_lp", solver] + (["--show_timetable", 1] if show else []) if m == "lp" else ["--solve_quantum", m, "--min_t", rng.choice([5, 8])]
    elif what == "real small":
        name, data = "solve_real_problem.py", prog.small_real(rng)
        args = ["--case", rng.randrange(10)]
        if m == "lp":
            args += ["--solve_lp", solver] + (["--show_timetable", 1] if show else [])
        else:
            runs = rng.choice([1, 2, 3, 3])
            args += ["--solve_quantum", m, "--runs", runs, "--min_t", rng.choice([5, 8])]
    else:
        name, data = "solve_KO_GLC_problems.py", prog.small_ko(rng)
        runs = 12
        args = ["--case", job["case"]] + (["--solve_lp", solver] if m == "lp" else ["--solve_quantum", m])
    earlier = what != "ko" and rng.random() < .7
    n = rng.randint(1, runs) if rng.random() < .3 else rng.randint(min(2, runs), runs)
    kind = rng.choice(sorted(FAULTS) + (["not solved", "undefined"] * 2 if m == "lp" else []))
    label = "%s %s with failure '%s' at call %s" % (name, " ".join(map(str, args)), kind, n)
    with prog.scratch(data):
        if earlier:
            with qm.Play(None, None):
                prog.run(name, args, mon, solve=prog.random_solver(rng, []))
        before = files()
        if m == "lp":
            state = {"calls": 0, "hit": 0}
            end = failing(name, args, faulty_lp(n, kind, rng, state))
            hit = state["hit"]
        else:
            with Faulty(n, kind) as play:
                end = failing(name, args, None)
                hit = play.hit
        after = files()
        if not hit:
            # fewer solver calls than runs asked for: other checks judge that
            mon.ev("never failed")
            return
    mon.ev("failures")
    mon.ev("failure:" + kind)
    if n > 1:
        mon.ev("later calls")
    key = (what, m, kind, n, tuple(map(str, args)))
    mon.expect("ends with an error", end is not None, label + ": the program ends as if all was well", key=key, sample="%s: %s" % (label, type(end).__name__), mech="no error")
    new = sorted(f for f in after if f not in before)
    mon.expect("nothing stored", not new, "%s: stored %s" % (label, new), key=key, mech="stored")
    if before:
        lost = sorted(f for f in before if after.get(f) != before[f])
        mon.expect("earlier results kept", not lost, "%s: earlier results %s are changed or gone" % (label, lost), key=key, mech="earlier results")

"""C36 Every solution method answers the same dispatching question."""
import random
from datetime import datetime

from vp import core, ilp, milp, qm, report, sut

RULE = ("one observation = one solution returned by one method for one problem, compared with the dispatching rules, the weights and the optimum of the linear method; "
        "distinct by (problem, method, samples the solver was made to return)")
NEED = {"judged:conflict-free": 250, "judged:conflicts told": 120, "judged:objective": 500, "judged:best found": 200, "judged:nothing better": 200, "judged:departure": 1500, "method:sim": 80,
        "method:real": 80, "method:bqm": 80, "method:cqm": 120, "problems:syn": 60, "problems:gen": 20, "optima": 60, "broken plans": 60,
        "one restriction broken:minimal": 60, "one restriction broken:track": 10, "one restriction broken:single": 10, "not in whole minutes": 20, "order alone": 3}
ASSUME = ["the samplers are played by the monitor: they return chosen samples of the model they were given"]


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = ilp.specs(rng, syn=110 if q else 3000, world=60 if q else 1500, o={"small": True}, wo={"r": 1, "cat": "Integer", "d_max": 10}, gen_o={"n_tr": 3})
    # trains that differ much in speed, times in fractions of a minute
    sp += ilp.specs(rng, syn=50 if q else 1500, o={"small": True, "loose": True})
    sp += ilp.specs(rng, syn=80 if q else 1000, o={"small": True, "loose": True, "shape": "chase"})
    rng.shuffle(sp)
    return ilp.batches(sp, 6)


def one(case, mon, rng):
    if case.cat != "Integer":
        case = ilp.Case(case.ts, case.tt, case.d_max, "Integer", case.label, case.tight)
    real = ilp.Real(case, mon)
    prob = real.prob
    if prob.objective is None or not len(prob.constraints):
        return
    whole = qm.whole(prob)
    if not whole:
        mon.ev("not in whole minutes")
    lin = qm.Lin(prob)
    rules = case.rules()
    weights = case.weights()
    res = real.solve()
    if res["status"] == "limit":
        raise milp.SolverTrouble("time limit")
    value = lambda plan: sum(w * plan[k] for k, w in weights.items()) / case.d_max
    allow = case.rules(extra=True)
    b = ilp.Ref(case, allow + case.coupling(allow)).solve(weights)
    names = [v.name for v in real.vars]
    best = None
    if res["status"] == "optimal":
        best = {n: int(round(res["x"][i])) for i, n in enumerate(names)}
        mon.ev("optima")
    else:
        mon.ev("no plan exists")

    def plan_of(x):
        return {k: float(x.get(ilp.vname(*k), 0)) for k in case.slots()}
    pd = qm.pdict(rng)
    # other plans: accepted ones, and ones with a single change
    xs = [x for x in lin.assignments(rng, 6)]
    if best is not None:
        for _ in range(3):
            y = dict(best)
            v = rng.choice(names)
            y[v] = rng.randint(*lin.vars[v])
            xs.append(y)
    # plans that break one restriction only
    kinds = {}
    for n in lin.cons:
        kinds.setdefault((n.split("_")[0], lin.cons[n][2]), []).append(n)
    near = []
    for k in sorted(kinds):
        for n in rng.sample(kinds[k], min(2 if k[1] else 6, len(kinds[k]))):
            x = lin.almost(n, rng, 1.0 if whole else rng.choice([.02, .1, .4]))
            if x is not None:
                near.append(x)
                mon.ev("one restriction broken:" + k[0])
    B = None
    if whole:
        with mon.sut("building the binary model", detail=case.describe()):
            bqm, _, interp = sut.rs.convert_to_bqm(prob, pd)
        if len(bqm.variables) <= 260:
            B = qm.Bits(bqm, interp, lin, mon)
    for method in ("sim", "real", "bqm", "cqm") if whole else ("cqm",):
        if method != "cqm" and B is None:
            mon.ev("too many bits")
            continue
        alone = [[x] for x in (near if method == "cqm" else rng.sample(near, min(2, len(near))))]
        for rnd in range(2 + len(alone)):
            given = rng.sample(xs, min(len(xs), rng.randint(1, 3)))
            # times in fractions are compared as they are stored: what is just right may be rounded away
            with_best = best is not None and rnd == 0 and whole
            if with_best:
                given.insert(rng.randrange(len(given) + 1), best)
            elif rnd == 1:
                given = [x for x in given if not lin.feasible(x)] or given
            elif rnd > 1:
                given = alone[rnd - 2]
            rows = given
            if method != "cqm":
                done = [B.complete(x, rng) for x in given]
                if any(d is None for d in done):
                    mon.ev("too many bits")
                    continue
                rows = [d[0] for d in done]
            label = "%s by %s" % (case.label, method)
            mon.ev("method:" + method)
            with Exactly(rows):
                with mon.sut("solving by " + method, detail=case.describe()):
                    rec = sut.hp.solve_on_quantum(prob, method, pd, minimum_time_limit=5)
                    x, obj, feas = dict(rec["sample"]), rec["objective"] + 0.0, bool(rec["feasible"])
            key = (label, str(given))
            plan = plan_of(x)
            broken = [r for r in rules if not r.holds(plan)]
            if feas:
                mon.expect("conflict-free", not broken, lambda: "%s: a plan that breaks %s is called feasible: %s" % (label, broken[:2], plan), key=key, sample="%s: %s" % (label, x),
                           mech="feasible with conflicts", detail=case.describe())
                bound = res["fun"] if best is not None else float("inf")
                mon.expect("nothing better", obj >= bound - 1e-6 * (1 + abs(bound)) if best is not None else False,
                           lambda: "%s: objective %s, the linear method finds no better than %s" % (label, obj, bound), key=key, mech="better than the optimum", detail=case.describe())
            if broken:
                mon.ev("broken plans")
                if all(r.kind == "order" for r in broken):
                    mon.ev("order alone")
                mon.expect("conflicts told", not feas, lambda: "%s: plan %s breaks %s" % (label, plan, broken[:2]), key=key, mech="feasible with conflicts", detail=case.describe())
            want = value(plan)
            mon.expect("objective", abs(obj - want) < 1e-6 * (1 + abs(want)), lambda: "%s: objective %s, the weighted delay is %s for %s" % (label, obj, want, plan), key=key, mech="objective",
                       detail=case.describe())
            if with_best:
                ok = feas and abs(obj - res["fun"]) < 1e-6 * (1 + abs(obj))
                if b["status"] == "optimal" and case.tight:
                    ok = ok and obj <= b["fun"] / case.d_max + 1e-4 * max(1.0, abs(obj))
                mon.expect("best found", ok, lambda: "%s: the solver was given the best plan (%s), the method returns objective %s, feasible %s" % (label, res["fun"], obj, feas), key=key,
                           mech="best plan lost", detail=case.describe())
            ref = datetime(2020, 1, 1, rng.randrange(24), rng.randrange(60))
            with mon.sut("reporting the timetable", detail=case.describe()):
                rep = sut.hp.print_optimisation_results(prob, case.tt, case.ts, case.tt["tau"], case.ts.get("skip_station", {}), case.d_max, ref, x)
            report.compare(case, rep, plan, ref, mon, method, shares=weights)


class Exactly(qm.Play):
    """samplers that return exactly the given samples"""

    def __init__(self, rows):
        qm.Play.__init__(self)
        self.rows = rows

    def bits(self, bqm, n, rng):
        return [{v: r.get(v, 0) for v in bqm.variables} for r in self.rows]

    def ints(self, cqm, rng):
        return [{v: r.get(v, 0) for v in cqm.variables} for r in self.rows]


def work(job, mon):
    ilp.each(job, mon, one)

"""C26 The reported timetable is the solved plan."""
from datetime import datetime

from vp import core, ilp, report, sut, workload

RULE = ("one observation = one reported departure, arrival or share compared with the plan; distinct by (problem, plan, train, station)")
NEED = {"judged:departure": 3000, "judged:arrival": 2500, "judged:complete": 600, "judged:direct": 3000, "from the model": 250, "from a sample": 250,
        "noisy values": 60, "no delay in the model": 1, "problems:gen": 30, "problems:walk": 15, "problems:syn": 150, "over midnight": 5}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        sp = ilp.specs(rng, syn=260, world=70, walk=40, bundled=(0, 1, 3)) + ilp.specs(rng, syn=60, o={"loose": True})
        return ilp.batches(sp, 8)
    sp = ilp.specs(rng, syn=9000, world=1500, walk=800, bundled=range(6)) + ilp.specs(rng, syn=2000, o={"loose": True})
    return ilp.batches(sp, 20)


def one(case, mon, rng):
    rs, hp = sut.rs, sut.hp
    if any(case.successor(j, case.path(j)[-1]) is not None and not case.skipped(j, case.path(j)[-1]) for j in case.ts["J"]):
        # as in every schedule file: a train that hands its rolling stock on ends there
        case.ts.setdefault("skip_station", {})
        for s, prs in case.ts["Jround"].items():
            for j, _ in prs:
                case.ts["skip_station"][j] = s
    big = len(case.ts["J"]) > 10
    real = ilp.Real(case, mon)
    W = case.weights()
    plans = ilp.feasible_plans(real, rng, 2 if big else 3)
    plans.append({k: (float(rng.randint(0, case.d_max)) if case.cat == "Integer" else rng.uniform(0, case.d_max)) for k in case.slots()})
    mon.ev("no delay in the model", len(real.absent))
    skip = dict(case.ts.get("skip_station", {}))
    for n, plan in enumerate(plans):
        ref = datetime(2020, 1, 1, rng.choice([0, 8, 14, 16, 23]), rng.choice([0, 0, 30]))
        plan = {k: (0.0 if k in real.absent else v) for k, v in plan.items()}
        if n % 2 == 0:
            mode = "from the model"
            sample = None
            noise = rng.choice([0, 0, 1e-9, -1e-9, -1e-7])
            if noise:
                mon.ev("noisy values")
            for i, v in enumerate(real.vars):
                v.varValue = (plan[real.back[i]] + noise) if i in real.back else float(rng.randint(0, 1))
        else:
            mode = "from a sample"
            sample = {}
            for i, v in enumerate(real.vars):
                x = plan[real.back[i]] if i in real.back else rng.randint(0, 1)
                sample[v.name] = int(x) if case.cat == "Integer" and rng.random() < .5 else x
                v.varValue = rng.choice([None, 0.0, 3.0])   # what the model holds does not matter
        mon.ev(mode)
        args = (real.prob, case.tt, case.ts, case.tt["tau"], skip, case.d_max, ref)
        with mon.sut("reporting a timetable", detail=case.describe()):
            rep = hp.print_optimisation_results(*args) if sample is None else hp.print_optimisation_results(*(args + (sample,)))
        report.compare(case, rep, plan, ref, mon, mode, shares=W)
        for j, s in case.slots():
            d, e = plan[(j, s)], case.E(j, s)
            with mon.sut("time of one departure", detail=case.describe()):
                a = rs.delay_and_acctual_time(case.ts, case.tt, real.prob, j, s) if sample is None else rs.delay_and_acctual_time(case.ts, case.tt, real.prob, j, s, sample)
            mon.expect("direct", core.close([float(x) for x in a], [d, e + d, e], 1e-5), lambda: "%s: %s at %s: delay, departure, departure without it %s, expected %s" % (case.label, j, s, a, (d, e + d, e)),
                       key=(case.label, tuple(plan.values()), j, s), detail=case.describe())


def work(job, mon):
    ilp.each(job, mon, one)

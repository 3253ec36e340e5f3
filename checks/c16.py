"""C16 Every accepted plan respects each train's own running and turnaround times."""
from vp import core, ilp, sut, workload

RULE = ("one observation = one rule instance checked on an accepted plan, or one search of the accepted plans for a violation; distinct by "
        "(rule constants, plan) or (rule constants)")
KINDS = ("stay", "circulation")
NEED = {"judged:plan:stay": 1500, "judged:plan:circulation": 100, "judged:search:stay": 300, "judged:search:circulation": 30,
        "judged:earliest": 500, "judged:limits": 500, "accepted plans": 300, "problems:gen": 20, "problems:walk": 10, "problems:syn": 100}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        sp = ilp.specs(rng, syn=260, world=50, walk=30, bundled=(0, 3))
        return ilp.batches(sp, 8)
    sp = ilp.specs(rng, syn=8000, world=1000, walk=600, bundled=range(6))
    return ilp.batches(sp, 20)


def one(case, mon, rng):
    big = len(case.ts["J"]) > 10
    real, rules, plans = ilp.soundness(case, mon, rng, KINDS, n_plans=2 if big else 4, n_rules=12 if big else None, time=10 if big else 60)
    # the limits of each delay, and what a delay of zero means
    if plans:
        for k in real.idx:
            if k in real.absent:
                continue
            for obj, bound in (({k: 1.0}, 0.0), ({k: -1.0}, float(case.d_max))):
                i = real.idx[k]
                lo, hi = real.model["lb"][i], real.model["ub"][i]
                ok = lo is not None and hi is not None and lo >= -1e-9 and hi <= case.d_max + 1e-9
                if not ok:      # the declared range is wider: may the model still go there?
                    row = real.row((0.0, {k: 1.0}), None, -ilp.EPS) if bound == 0.0 else real.row((0.0, {k: 1.0}), case.d_max + ilp.EPS)
                    ok = real.solve([row], obj={})["status"] == "infeasible"
                mon.expect("limits", ok, lambda: "%s: delay of %s may leave [0, %s]" % (case.label, k, case.d_max), key=(k, case.d_max, bound),
                           detail=case.describe())
    zero = {v.name: 0 for v in real.vars}
    for j, s in case.slots():
        if (j, s) in real.absent:
            continue
        with mon.sut("reporting a departure"):
            t = sut.rs.delay_and_acctual_time(case.ts, case.tt, real.prob, j, s, zero)
            e = sut.rs.earliest_dep_time(case.ts["Paths"], case.tt, j, s)
        mon.expect("earliest", float(t[1]) >= case.E(j, s) - 1e-6 and float(e) >= case.E(j, s) - 1e-6,
                   lambda: "%s: train %s leaves %s at %s (%s) without delay, earliest is %s" % (case.label, j, s, t[1], e, case.E(j, s)),
                   key=(case.E(j, s), "%s_%s" % (j, s) in case.tt.get("schedule", {}), case.prev(j, s) is None), detail=case.describe())


def work(job, mon):
    ilp.each(job, mon, one)

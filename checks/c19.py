"""C19 No conflict-free plan is excluded and the best one is found."""
from vp import core, ilp, milp, sut, workload

RULE = ("one observation = one conflict-free plan offered to the model, or one optimum compared with that of an independent model of the "
        "rules; distinct by (problem, delays) or (problem, optimum); problems without any plan count once each")
NEED = {"judged:plan accepted": 800, "judged:optimum": 250, "judged:solved": 60, "judged:feasibility": 250, "infeasible problems": 30,
        "problems:gen": 30, "problems:walk": 15, "problems:syn": 200}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        return ilp.batches(ilp.specs(rng, syn=420, world=70, walk=40, bundled=(0,)), 8)
    return ilp.batches(ilp.specs(rng, syn=12000, world=1500, walk=800, bundled=range(4)), 20)


def one(case, mon, rng):
    big = len(case.ts["J"]) > 10
    real = ilp.Real(case, mon)
    need, allow = case.rules(), case.rules(extra=True)
    coup = case.coupling(allow)
    ref = ilp.Ref(case, allow)
    keys = case.slots()

    def explain(plan):
        return "coupled" if any(not c.holds(plan) for c in coup) else None

    def undecided(what):
        if not big:
            raise milp.SolverTrouble("time limit: " + what)
        mon.ev("undecided " + what)

    # plans from the independent model
    found = 0
    for k in range(2 if big else 5):
        if k == 0:
            obj = case.weights()
        elif k == 1:
            obj = {x: -1.0 for x in keys}
        else:
            obj = {x: rng.choice([-3, -1, 0, 1, 2]) * rng.random() for x in keys}
        res = ref.solve(obj, time=15 if big else 60)
        if res["status"] == "limit" and "x" not in res:
            undecided("plan")
            continue
        if "x" not in res:
            mon.ev("infeasible problems")
            break
        plan = ref.plan(res)
        found += 1
        ok = ilp.accepts(real, plan)
        why = None if ok else explain(plan)
        mon.expect("plan accepted", ok, lambda: "%s: conflict-free plan is rejected; delays %s" % (case.label, plan),
                   key=(case.label, tuple(plan.values())), sample="%s accepts %s" % (case.label, list(plan.values())[:12]),
                   mech="rejected plan" + (" (one order for two switches)" if why else ""), detail=case.describe())
    # optimum
    t = 20 if big else 60
    got = real.solve(time=t)
    a = ilp.Ref(case, need).solve(case.weights(), time=t)
    b = ref.solve(case.weights(), time=t)
    if "limit" in (got["status"], a["status"], b["status"]):
        undecided("optimum")
        return
    f = lambda r: r["fun"] / case.d_max if r["status"] == "optimal" else float("inf")
    val = got["fun"] if got["status"] == "optimal" else float("inf")
    tol = 1e-4 * max(1.0, abs(val) if val < 1e9 else 1.0)
    mon.judge("feasibility", key=(case.label, val < 1e9))
    ok = f(a) - tol <= val <= f(b) + tol
    mech = "optimum"
    if val > f(b) + tol:
        mech = "optimum too large" if val < 1e9 else "wrongly infeasible"
        if coup:
            c = ilp.Ref(case, allow + coup).solve(case.weights(), time=t)
            if val <= f(c) + tol:
                mech += " (one order for two switches)"
    mon.expect("optimum", ok, lambda: "%s: optimum %s, independent model gives %s..%s" % (case.label, val, f(a), f(b)),
               key=(case.label, round(val, 6) if val < 1e9 else "none"), sample="%s: optimum %s" % (case.label, val), mech=mech, detail=case.describe())
    # the solving function itself
    if not big and rng.random() < .3:
        with mon.sut("solving the problem", detail=case.describe()):
            prob = sut.rs.solve_linear_problem(case.ts, case.tt, case.d_max, cat=case.cat)
        if prob.status == 1:
            v = prob.objective.value() if prob.objective is not None and len(prob.objective) else 0.0
            mon.expect("solved", abs((v or 0.0) - val) <= tol, lambda: "%s: solved objective %s, optimum %s" % (case.label, v, val), key=(case.label, v))
        else:
            mon.expect("solved", val == float("inf"), "%s: reported status %s but a plan exists" % (case.label, prob.status), key=(case.label, "none"))


def work(job, mon):
    ilp.each(job, mon, one)

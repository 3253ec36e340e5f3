"""C20 The optimised quantity is exactly the weighted relative delay."""
from vp import core, ilp, sut, workload

RULE = ("one observation = one variable's role and range, or one objective / share compared on one assignment; distinct by "
        "(problem, variable) or (problem, assignment)")
NEED = {"judged:delay": 1500, "judged:order choice": 1000, "judged:objective": 1000, "judged:share": 1500, "judged:minimised": 250,
        "whole minutes": 150, "continuous": 60, "handed on": 60, "problems:gen": 30, "problems:syn": 200}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        return ilp.batches(ilp.specs(rng, syn=400, world=60, walk=30, bundled=(0, 1, 3, 4)), 10)
    return ilp.batches(ilp.specs(rng, syn=15000, world=2000, walk=1000, bundled=range(6)), 25)


def one(case, mon, rng):
    real = ilp.Real(case, mon)
    W = case.weights()
    mon.ev("whole minutes" if case.cat == "Integer" else "continuous")
    mon.ev("handed on", sum(len(p) for p in case.ts["Jround"].values()))
    touched = set(k for r in case.rules() for alt in r.alts for e in alt for k in e[1])
    for k in case.slots():
        if k in real.absent:
            # nothing weighs it and nothing but single station rules may restrict it
            own = [x for x in case.slots() if x[0] == k[0]]
            mon.expect("delay", W[k] == 0 and len(own) == 1, lambda: "%s: no delay for the departure %s" % (case.label, k), key=None,
                       mech="departure without delay", detail=case.describe())
            continue
        v = real.vars[real.idx[k]]
        lo, hi, whole = v.lowBound, v.upBound, v.cat == "Integer"
        ok = lo is not None and hi is not None and abs(lo) < 1e-9 and abs(hi - case.d_max) < 1e-9 and whole == (case.cat == "Integer")
        mon.expect("delay", ok, lambda: "%s: delay %s in [%s, %s] %s, expected [0, %s] %s" % (case.label, k, lo, hi, v.cat, case.d_max, case.cat),
                   key=(case.label, k), sample="%s: %s in [%s, %s]" % (k, v.name, lo, hi), detail=case.describe())
    for i, v in enumerate(real.vars):
        if i in real.back:
            continue
        ok = v.lowBound == 0 and v.upBound == 1 and v.cat == "Integer"
        mon.expect("order choice", ok, lambda: "%s: variable %s is neither a departure delay nor a yes/no choice" % (case.label, v.name),
                   key=(case.label, v.name), detail=case.describe())
    mon.expect("minimised", real.prob.sense == 1, "%s: the objective is not minimised" % case.label, key=case.label)
    # objective on assignments
    for n in range(3):
        vals = {}
        for i, v in enumerate(real.vars):
            hi = v.upBound if v.upBound is not None else 1
            vals[v.name] = rng.choice([0, hi]) if rng.random() < .3 else (rng.randint(0, int(hi)) if v.cat == "Integer" else rng.uniform(0, hi))
            if n == 0:
                vals[v.name] = hi if i in real.back else 0
            v.varValue = float(vals[v.name])
        plan = {k: vals[real.vars[i].name] if k not in real.absent else 0 for k, i in real.idx.items()}
        want = sum(W[k] * plan[k] / case.d_max for k in plan)
        with mon.sut("value of the objective"):
            ob = real.prob.objective
            got = (ob.value() if ob is not None else None) or 0.0
            got2 = sut.rs.get_objective(real.prob, vals) if ob is not None and len(real.vars) else 0.0
        mon.expect("objective", abs(got - want) < 1e-6 and abs(got2 - want) < 1e-6,
                   lambda: "%s: objective %s (from a sample %s), weighted relative delay %s" % (case.label, got, got2, want),
                   key=(case.label, tuple(plan.values())) if want else None, sample="%s: %s" % (case.label, got), detail=case.describe())
        shares = 0.0
        for j in case.ts["J"]:
            for s in case.path(j):
                with mon.sut("share of a station"):
                    a = sut.rs.impact_to_objective(real.prob, case.tt, j, s, case.d_max)
                    b = sut.rs.impact_to_objective(real.prob, case.tt, j, s, case.d_max, vals)
                w = W.get((j, s), 0.0) * plan.get((j, s), 0.0) / case.d_max
                mon.expect("share", abs(a - w) < 1e-6 and abs(b - w) < 1e-6, lambda: "%s: share of %s at %s is %s / %s, expected %s" % (case.label, j, s, a, b, w),
                           key=(case.label, j, s, w) if w else None, detail=case.describe())
                shares += a
        mon.expect("shares add up", abs(shares - want) < 1e-6, lambda: "%s: shares add up to %s, objective %s" % (case.label, shares, want),
                   key=(case.label, n) if want else None)


def work(job, mon):
    ilp.each(job, mon, one)

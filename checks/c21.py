"""C21 Names, order of listing and time origin do not influence the solution."""
import copy

from vp import core, ilp, milp, sut, workload
from vp.ilp import Case, Real

RULE = ("one observation = one optimum under one objective, or one accepted plan, compared between a problem and its renamed, reordered or "
        "shifted twin; distinct by (problem, change, objective or plan)")
NEED = {"judged:optimum": 1200, "judged:plan": 800, "renamed": 200, "reordered": 200, "shifted": 200, "problems:gen": 15, "problems:syn": 150}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        return ilp.batches(ilp.specs(rng, syn=260, world=30, walk=20), 8)
    return ilp.batches(ilp.specs(rng, syn=8000, world=900, walk=500, bundled=(0,)), 20)


def renamed(case, rng):
    n_st = sorted(set(s for p in case.ts["Paths"].values() for s in p), key=str)
    J = list(case.ts["J"])
    style = rng.choice(ilp.STYLES)
    st, tr = None, None
    if len(n_st) <= 5 and len(J) <= 8:
        st, tr = ilp.names(rng, len(n_st), len(J), style)
        rng.shuffle(st), rng.shuffle(tr)
    else:
        st = ["N%d" % i for i in rng.sample(range(1000), len(n_st))]
        tr = rng.sample(range(1, 10 ** 5), len(J))
    S, T = dict(zip(n_st, st)), dict(zip(J, tr))
    return ilp.rename(case, S, T)


def shuffled(x, rng):
    x = list(x)
    rng.shuffle(x)
    return x


def reordered(case, rng):
    ts, tt = case.ts, copy.deepcopy(case.tt)
    d = lambda m, f=lambda x: x: {k: f(m[k]) for k in shuffled(m, rng)}
    groups = lambda g: shuffled([shuffled(x, rng) for x in g], rng)
    n = {"Paths": d(ts["Paths"]), "J": shuffled(ts["J"], rng), "Jd": d(ts["Jd"], lambda m: d(m, groups)), "Jtrack": d(ts["Jtrack"], groups),
         "Jround": d(ts["Jround"], lambda x: shuffled(x, rng)), "Jswitch": d(ts["Jswitch"], lambda x: shuffled([d(e) for e in x], rng))}
    jos = {}
    for (a, b), prs in ts["Josingle"].items():
        for j, jp in prs:
            if rng.random() < .5:
                jos.setdefault((b, a), []).append([jp, j])
            else:
                jos.setdefault((a, b), []).append([j, jp])
    n["Josingle"] = d(jos, lambda x: shuffled(x, rng))
    for k in ("skip_station", "add_swithes_at_s"):
        if k in ts:
            n[k] = copy.deepcopy(ts[k])
    n = d(n)
    m = {k: (d(v) if isinstance(v, dict) and k != "tau" else v) for k, v in tt.items()}
    m["tau"] = {k: (d(v) if isinstance(v, dict) else v) for k, v in tt["tau"].items()}
    return Case(n, m, case.d_max, case.cat, case.label + " reordered"), {k: k for k in case.slots()}


def shifted(case, rng):
    tt = copy.deepcopy(case.tt)
    by = rng.choice([1, -1, 60, -37, 1000, -500])
    for k in ("initial_conditions", "schedule"):
        if k in tt:
            tt[k] = {x: v + by for x, v in tt[k].items()}
    return Case(case.ts, tt, case.d_max, case.cat, case.label + " shifted %s" % by), {k: k for k in case.slots()}


def one(case, mon, rng):
    big = len(case.ts["J"]) > 10
    real = Real(case, mon)
    twins = [("renamed", renamed), ("reordered", reordered), ("shifted", shifted)]
    for name, change in twins:
        other, m = change(case, rng)
        mon.ev(name)
        twin = Real(other, mon)
        for k in range(4):
            keys = case.slots()
            if k == 0:
                a, b = real.solve(), twin.solve()
            else:
                obj = {x: (-1.0 if k == 1 else rng.choice([-3, -1, 0, 1, 2]) * rng.random()) for x in keys}
                a, b = real.solve(obj=obj), twin.solve(obj={m[x]: v for x, v in obj.items()})
            if "limit" in (a["status"], b["status"]):
                raise milp.SolverTrouble("time limit")
            ok = a["status"] == b["status"] and (a["status"] != "optimal" or abs(a["fun"] - b["fun"]) <= 1e-4 * max(1, abs(a["fun"])))
            mon.expect("optimum", ok, lambda: "%s: optimum %s, %s: %s" % (case.label, a.get("fun", a["status"]), other.label, b.get("fun", b["status"])),
                       key=(case.label, name, k, round(a.get("fun", 1e9), 4)), mech=name, detail=[case.describe(), other.describe()])
            if a["status"] == "optimal":
                p = real.plan(a)
                q = {m[x]: v for x, v in p.items()}
                mon.expect("plan", ilp.accepts(twin, q), lambda: "%s accepts a plan that %s rejects: %s" % (case.label, other.label, p),
                           key=(case.label, name, tuple(round(v, 3) for v in p.values())), mech=name, detail=[case.describe(), other.describe()])
            else:
                break


def work(job, mon):
    ilp.each(job, mon, one)

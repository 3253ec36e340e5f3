"""C37 Fewer trains, fewer shared places or more freedom never make the best plan worse."""
import copy
import random

from vp import core, ilp, milp, sut, workload

RULE = ("one observation = the best value of a problem compared with that of a changed problem; distinct by (problem, change)")
NEED = {"judged:without a train": 250, "judged:without a restriction": 200, "judged:larger delays allowed": 150, "judged:weights scaled": 150, "judged:longer headways": 100, "judged:apart or together": 60,
        "judged:schedule without a train": 40, "problems:syn": 150, "problems:gen": 25, "best value changed": 40, "became possible": 3}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = ilp.specs(rng, syn=260 if q else 8000, o={}) + [{"p": "syn", "seed": rng.randrange(10 ** 9), "o": {"feasible": False}} for _ in range(60 if q else 2000)]
    sp += ilp.specs(rng, world=50 if q else 1200, walk=15 if q else 300, gen_o={"n_tr": 4})
    rng.shuffle(sp)
    return ilp.batches(sp, 8)


INF = float("inf")


def best(case, mon):
    """smallest weighted delay in minutes"""
    res = ilp.Real(case, mon).solve()
    if res["status"] == "limit":
        raise milp.SolverTrouble("time limit")
    return res["fun"] * case.d_max if res["status"] == "optimal" else INF


def tol(*xs):
    return 1e-4 * max([1.0] + [abs(x) for x in xs if x < INF])


def without(ts, j):
    """train sets without a train"""
    g = lambda groups, least=1: [y for y in ([k for k in x if k != j] for x in groups) if len(y) >= least]
    out = {"Paths": {k: p for k, p in ts["Paths"].items() if k != j}, "J": [k for k in ts["J"] if k != j],
           "Jd": {a: {b: g(x) for b, x in m.items()} for a, m in ts["Jd"].items()}, "Josingle": {k: [p for p in x if j not in p] for k, x in ts["Josingle"].items()},
           "Jround": copy.deepcopy(ts["Jround"]), "Jtrack": {s: g(x) for s, x in ts["Jtrack"].items()}, "Jswitch": {s: [p for p in x if j not in p] for s, x in ts["Jswitch"].items()}}
    if "skip_station" in ts:
        out["skip_station"] = {k: s for k, s in ts["skip_station"].items() if k != j}
    if "add_swithes_at_s" in ts:
        out["add_swithes_at_s"] = list(ts["add_swithes_at_s"])
    return out


def paired(ts):
    return {j for prs in ts["Jround"].values() for p in prs for j in p}


def compare(mon, kind, case, more, less, what, detail=None):
    """the freer problem is at most as bad"""
    if less < more - tol(more, less):
        mon.ev("best value changed")
    if more == INF and less < INF:
        mon.ev("became possible")
    mon.expect(kind, less <= more + tol(more, less), "%s: best value %s, but %s %s" % (case.label, more, less, what), key=(case.label, str(what)),
               sample="%s: %s -> %s %s" % (case.label, more, less, what), mech=kind, detail=[case.describe(), detail])


def one(case, mon, rng):
    b = best(case, mon)
    ts, tt, D = case.ts, case.tt, case.d_max
    make = lambda ts_, tt_, d=D: ilp.Case(ts_, tt_, d, case.cat, case.label)
    # without a train that shares its rolling stock with none
    free = [j for j in ts["J"] if j not in paired(ts)]
    if len(ts["J"]) > 1:
        for j in rng.sample(free, min(2, len(free))):
            compare(mon, "without a train", case, b, best(make(without(ts, j), tt), mon), "without train %s" % j)
    # without a shared place
    todo = [("Josingle", k, i) for k, x in ts["Josingle"].items() for i in range(len(x))] + [("Jswitch", k, i) for k, x in ts["Jswitch"].items() for i in range(len(x))]
    for name, k, i in rng.sample(todo, min(2, len(todo))):
        t2 = copy.deepcopy(ts)
        gone = t2[name][k].pop(i)
        compare(mon, "without a restriction", case, b, best(make(t2, tt), mon), "without %s at %s" % (gone, k))
    # larger delays
    more = D + rng.choice([1, 2, 5, 20])
    compare(mon, "larger delays allowed", case, b, best(make(ts, tt, more), mon), "with delays up to %s instead of %s" % (more, D))
    # longer headways
    if tt["tau"]["headway"]:
        t2 = copy.deepcopy(tt)
        by = rng.choice([1, 2, 3])
        ks = [k for k in t2["tau"]["headway"] if rng.random() < .5] or list(t2["tau"]["headway"])
        for k in ks:
            t2["tau"]["headway"][k] += by
        h = best(make(ts, t2), mon)
        compare(mon, "longer headways", case, h, b, "with headways shorter by %s" % by, ks)
    # weights
    c = rng.choice([2, 3, 0.5, 10])
    t2 = dict(tt, penalty_weights={k: v * c for k, v in tt["penalty_weights"].items()})
    v = best(make(ts, t2), mon)
    mon.expect("weights scaled", v == b if INF in (v, b) else abs(v - c * b) <= c * tol(b) + tol(v), "%s: best value %s, with all weights times %s it is %s" % (case.label, b, c, v), key=(case.label, c),
               mech="weights scaled", detail=case.describe())
    # together with a problem elsewhere
    if len(ts["J"]) <= 4:
        other = ilp.synthetic("other/%s" % rng.randrange(10 ** 6), small=True, d_max=D)
        if other.tt["tau"]["res"] != tt["tau"]["res"]:
            other = ilp.Case(other.ts, dict(other.tt, tau=dict(other.tt["tau"], res=tt["tau"]["res"])), D, case.cat, other.label)
        other = ilp.Case(other.ts, other.tt, D, case.cat, other.label)
        o = best(other, mon)
        both = together(case, other)
        v = best(both, mon)
        want = b + o
        mon.expect("apart or together", v == want if INF in (v, want) else abs(v - want) <= tol(v) + tol(b, o), "%s: best value %s, another problem %s, both in one %s" % (case.label, b, o, v),
                   key=(case.label, other.label), mech="apart or together", detail=[case.describe(), other.describe()])


def together(a, b):
    """one problem out of two that share nothing"""
    S = {s: "far%d" % i for i, s in enumerate(sorted(set(s for p in b.ts["Paths"].values() for s in p), key=str))}
    T = {j: "other%d" % i for i, j in enumerate(b.ts["J"])}
    b, _ = ilp.rename(b, S, T)
    ts = {}
    for k in ("Paths", "Jd", "Josingle", "Jround", "Jtrack", "Jswitch", "skip_station"):
        if k in a.ts or k in b.ts:
            ts[k] = {**a.ts.get(k, {}), **b.ts.get(k, {})}
    ts["J"] = list(a.ts["J"]) + list(b.ts["J"])
    if "add_swithes_at_s" in a.ts or "add_swithes_at_s" in b.ts:
        ts["add_swithes_at_s"] = list(a.ts.get("add_swithes_at_s", [])) + list(b.ts.get("add_swithes_at_s", []))
    tt = {"tau": {k: {**a.tt["tau"][k], **b.tt["tau"][k]} for k in ("pass", "headway", "stop", "prep")}}
    tt["tau"]["res"] = a.tt["tau"]["res"]
    for k in ("initial_conditions", "penalty_weights", "schedule"):
        if k in a.tt or k in b.tt:
            tt[k] = {**a.tt.get(k, {}), **b.tt.get(k, {})}
    return ilp.Case(ts, tt, a.d_max, a.cat, a.label + " and another")


def schedule(spec, mon):
    """a train taken out of the schedule itself"""
    rng = random.Random("take/%s" % core.digest(spec))
    w = ilp.with_preparation(workload.make(spec["world"]), rng)
    pairs = {j for p in w.ref_pairs() for j in p}
    free = [j for j in w.J if j not in pairs]
    if not free or len(w.J) < 2 or len(w.J) > 8:
        return
    j = rng.choice(free)
    rest = [k for k in w.J if k != j]
    v = w.sub(rest)
    v.df = getattr(w, "df", None)
    args = dict(spec["o"], d_max=20, r=1, cat="Integer")
    with mon.sut("deriving the problem from a schedule"):
        a = ilp.from_world(w, random.Random(1), **args)
        c = ilp.from_world(v, random.Random(1), **args)
    c.tt["initial_conditions"] = {k: x for k, x in a.tt["initial_conditions"].items() if k in c.tt["initial_conditions"]}
    if a.reference != c.reference:
        with mon.sut("schedule"):
            c.tt["schedule"] = {k: x for k, x in a.tt["schedule"].items() if k in c.tt["schedule"]}
    compare(mon, "schedule without a train", a, best(a, mon), best(c, mon), "with train %s taken out of the schedule" % j)


def work(job, mon):
    ilp.each(job, mon, one)
    for spec in job["cases"]:
        if spec["p"] == "world":
            mon.job = {"cases": [spec]}
            try:
                schedule(spec, mon)
            except core.Skip:
                mon.ev("ended early")

"""C29 A solved schedule can be run block by block without conflict."""
import random

from vp import core, ilp, milp, sut, workload, world
from vp.ilp import add, minus, value

RULE = ("one observation = one place (line block, station track or switch) used by two trains, either in the run of an accepted plan or in a search for an accepted plan in which "
        "their uses coincide; distinct by (kind, running times and delays of both trains)")
NEED = {"judged:run:block": 1500, "judged:run:head-on": 500, "judged:run:track": 400, "judged:run:switch": 400, "judged:search:block": 200, "judged:search:head-on": 60,
        "judged:search:track": 80, "judged:search:switch": 60, "accepted plans": 150, "judged:departures": 80, "problems:gen": 60, "problems:walk": 20, "problems:bundled": 1, "planned in minutes": 20}
EPS = 0.05
RES = 1.0   # minutes between two movements over a switch


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        return ilp.batches(specs(rng, 170, 65, (0,)), 6)
    return ilp.batches(specs(rng, 2600, 900, range(6)), 10)


def specs(rng, world, walk, bundled):
    out = ilp.specs(rng, world=world, walk=walk, bundled=bundled, wo={"r": 0})
    for s in out:
        s["world"].setdefault("o", {})
        if s["world"]["w"] != "bundled" and rng.random() < .3:
            s["o"] = {"r": 1}
        if s["world"]["w"] == "gen" and rng.random() < .4:
            s["world"]["o"]["n_st"] = rng.choice([2, 3])
            s["world"]["o"]["n_tr"] = rng.choice([4, 5, 6])
    return out


def own_case(w, case):
    """what the schedule means, read without the code under test; only reference time and delays are taken over"""
    rounds = w.ref_jround()
    ts = {"J": list(w.J), "Paths": {j: w.path(j) for j in w.J}, "Jround": {s: [list(p) for p in prs] for s, prs in rounds.items()}, "Jd": {}, "Josingle": {}, "Jtrack": {}, "Jswitch": {},
          "skip_station": {j: w.ends_at(j) for j in w.J if w.ends_at(j)}}
    tau = {"pass": {}, "stop": {}, "prep": {}, "headway": {}}
    for j in w.J:
        for k, d in zip(("pass", "stop", "prep"), w.ref_taus(j)):
            tau[k].update(d)
    tt = {"tau": tau, "initial_conditions": dict(case.tt["initial_conditions"]), "penalty_weights": {}, "schedule": w.ref_schedule(case.reference)}
    return ilp.Case(ts, tt, case.d_max, case.cat, case.label)


def planned_in_minutes(own, case, mon):
    """the same with departures counted from times rounded to minutes, as the programs do; None if a time is not a rounding"""
    exact, used = own.tt["tau"], case.tt["tau"]
    for k in ("pass", "stop", "prep"):
        bad = [x for x in exact[k] if x not in used[k] or abs(used[k][x] - exact[k][x]) > .5 + 1e-6]
        if not mon.expect("rounded times", not bad, "%s: %s is %s, blocks give %s" % (case.label, bad[:1], [used[k].get(x) for x in bad[:1]], [exact[k][x] for x in bad[:1]]), key=(case.label, k)):
            return None
    r = ilp.Case(own.ts, dict(own.tt, tau=used), case.d_max, case.cat, case.label)
    for j in r.ts["J"]:
        for s in r.path(j):
            if not r.skipped(j, s):
                own._E[(j, s)] = r.E(j, s)
    return own


def uses(w, own, pairs=None):
    """[(kind, place, train, train, first use, second use)], a use being (from, to) as linear expressions"""
    out = []
    J = w.J
    run = {}
    for j in J:
        p = w.path(j)
        for a, b in zip(p, p[1:]):
            if not own.departs(j, a):
                continue
            t, seq = own.out(j, a), []
            for blk, dt in zip(w.between(j, a, b), w.block_times(j, a, b)):
                t2 = add((1, t), (1, dt))
                seq.append((blk, t, t2))
                t = t2
            run[(j, a, b)] = seq
    keys = list(run)
    for x in range(len(keys)):
        for y in range(x + 1, len(keys)):
            (j, a, b), (jp, ap, bp) = keys[x], keys[y]
            if j == jp or {a, b} != {ap, bp}:
                continue
            same = a == ap
            c1, c2 = [u[0] for u in run[keys[x]]], [u[0] for u in run[keys[y]]]
            if not set(c1) & set(c2):
                continue
            if (c1 != c2) if same else (c1 != c2[::-1]):
                continue        # partially shared: outside the property
            if not same and own.same_stock(j, jp):
                continue
            for u in run[keys[x]]:
                for v in run[keys[y]]:
                    if u[0] == v[0]:
                        out.append(("block" if same else "head-on", u[0], j, jp, u[1:], v[1:]))
            if not same:
                # between the stations at the same time, whatever the block
                out.append(("head-on", "section", j, jp, (run[keys[x]][0][1], run[keys[x]][-1][2]), (run[keys[y]][0][1], run[keys[y]][-1][2])))
    for s in w.stations:
        if s in world.DEPOT_STATIONS:
            continue
        at = [j for j in J if s in w.path(j)]
        for x in range(len(at)):
            for y in range(x + 1, len(at)):
                j, jp = at[x], at[y]
                if own.same_stock(j, jp):
                    continue
                blk = w.blocks(j)[w.pos(j, s)]
                lj, lp = own.leaves(j, s), own.leaves(jp, s)
                if blk == w.blocks(jp)[w.pos(jp, s)] and blk not in world.DEPOT_BLOCKS and lj is not None and lp is not None:
                    out.append(("track", blk, j, jp, (own.enters(j, s), lj), (own.enters(jp, s), lp)))
    for s, prs in w.ref_jswitch().items():
        for p in prs:
            (j, a), (jp, b) = sorted(p, key=str)
            if own.same_stock(j, jp):
                continue
            if (a == "out" and not own.departs(j, s)) or (b == "out" and not own.departs(jp, s)):
                continue
            t = own.arr(j, s) if a == "in" else own.out(j, s)
            tp = own.arr(jp, s) if b == "in" else own.out(jp, s)
            out.append(("switch", s, j, jp, (t, add((1, t), (1, RES))), (tp, add((1, tp), (1, RES)))))
    return out


def one(spec, mon):
    rng = random.Random("case/%s" % core.digest(spec))
    w = ilp.with_preparation(workload.make(spec["world"]), rng)
    if not w.trains:
        return
    with mon.sut("deriving the problem from a schedule"):
        case = ilp.from_world(w, rng, **spec["o"])
    mon.ev("problems:" + spec["world"]["w"])
    own = own_case(w, case)
    ok = mon.expect("departures", sorted(own.slots(), key=str) == sorted(case.slots(), key=str), lambda: "%s: departures planned %s, the schedule has %s" % (
        case.label, sorted(set(case.slots()) - set(own.slots()), key=str)[:4], sorted(set(own.slots()) - set(case.slots()), key=str)[:4]), key=case.label)
    if not ok:
        return
    # every rounded time is off by up to half a minute
    half = 0.0
    if spec["o"]["r"]:
        half = .5
        mon.ev("planned in minutes")
        own = planned_in_minutes(own, case, mon)
        if own is None:
            return
    big = len(w.J) > 10
    real = ilp.Real(case, mon)
    us = uses(w, own)
    plans = ilp.feasible_plans(real, rng, 2 if big else 4)
    mon.ev("accepted plans", len(plans))

    def clash(u, plan):
        f1, t1, f2, t2 = (value(x, plan) for x in u[4] + u[5])
        return min(t1 - f2, t2 - f1)

    def slack(u):
        return half * (2 if u[0] == "switch" else 1)
    shape = lambda u: (u[0],) + tuple((round(e[0], 2), tuple(sorted(e[1].values()))) for e in u[4] + u[5])
    for plan in plans:
        for u in us:
            c = clash(u, plan)
            mon.expect("run:" + u[0], c < EPS + slack(u), lambda: "%s: trains %s and %s both use %s for %.2f minutes (%s); delays %s" % (case.label, u[2], u[3], u[1], c, u[0], plan),
                       key=(shape(u), tuple(round(plan[k], 2) for e in u[4] + u[5] for k in e[1])), sample="%s, %s: apart by %.2f at %s" % (u[2], u[3], -c, u[1]), mech=u[0], detail=case.describe())
    if not plans:
        mon.ev("model without plan")
        return
    todo = us if len(us) <= 40 else [u for u in us if rng.random() < 40 / len(us)]
    for u in todo:
        e1, e2 = minus(u[4][1], u[5][0]), minus(u[5][1], u[4][0])
        hi = lambda e: e[0] + sum(a * own.d_max for a in e[1].values() if a > 0)
        lim = EPS + slack(u)
        if min(hi(e1), hi(e2)) < lim:
            mon.ev("too far apart:" + u[0])
            continue
        res = real.solve([real.row(e1, lim), real.row(e2, lim)], obj={}, time=20 if big else 60)
        if res["status"] == "limit":
            mon.ev("search undecided:" + u[0])
            continue
        plan = real.plan(res) if res["status"] == "optimal" else None
        bad = plan is not None and clash(u, plan) > lim - EPS / 2
        mon.expect("search:" + u[0], not bad, lambda: "%s: accepted plan in which trains %s and %s both use %s for %.2f minutes (%s); delays %s" % (
            case.label, u[2], u[3], u[1], clash(u, plan), u[0], plan), key=shape(u), sample="no plan puts %s and %s on %s together" % (u[2], u[3], u[1]), mech=u[0], detail=case.describe())


def work(job, mon):
    for spec in job["cases"]:
        mon.job = {"cases": [spec]}
        try:
            one(spec, mon)
        except core.Skip:
            mon.ev("ended early")

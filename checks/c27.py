"""C27 The solving programs solve the announced cases and store what they solved."""
import copy
import os
import pickle
import random
from datetime import datetime

from vp import core, ilp, prog, qm, report, sut

RULE = ("one observation = one problem handed to a solver compared with the announced one, one stored result compared with the solve, or one "
        "entry of a displayed timetable; distinct by (program, options, disturbance, solution)")
NEED = {"judged:problem": 60, "judged:stored": 60, "judged:departure": 800, "judged:printed": 8, "runs:real full": 10, "runs:real small": 20, "runs:ko": 4, "runs:wisla": 10,
        "lp": 14, "sim": 3, "real": 3, "bqm": 3, "cqm": 3, "shown": 20}
JOB_LIMIT = 600
REF = datetime(2020, 1, 1)

LONG = list(zip([94766, 26013, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359, 44862, 73000], [30, 12, 18, 5, 30, 23, 3, 21, 35, 10, 25, 7, 5, 16]))
DELAYS = {0: [], 1: [(14006, 12)], 2: list(zip([94766, 40518, 41004, 44862, 4120], [15, 12, 13, 6, 21])), 3: LONG, 4: [], 5: LONG, 6: LONG, 7: LONG,
          8: list(zip([94766, 26013, 42009, 5312, 34319, 14006, 94611, 40150, 41004, 45101, 94113, 40673, 54101], [28, 10, 12, 7, 30, 13, 3, 10, 28, 30, 11, 5, 7])),
          9: list(zip([94766, 26013, 42009, 5312, 40518, 34319, 14006, 40150, 41004, 45101, 4500, 49317, 64359, 44862, 73000], [30, 11, 15, 19, 5, 28, 21, 4, 21, 34, 11, 25, 7, 5, 5]))}
FILES = {k: ("important_stations", "trains_schedules") for k in (0, 1, 2, 3)}
FILES.update({k: ("important_stations_Gt", "trains_schedules_Gt") for k in (4, 5)})
FILES.update({6: ("important_stations", "trains_schedules_1track")})
FILES.update({k: ("important_stations_Gt", "trains_schedules_1track_Gt") for k in (7, 8, 9)})

KO_FILES = {1: ("important_stations_KO_GLC", "trains_schedules_KO_GLC"), 2: ("important_stations_KO_GLC_R", "trains_schedules_KO_RCB_ZZ_GLC"),
            3: ("important_stations_KO_GLC_R", "trains_schedules_KO_RCB_ZZ_GLC_v2")}


def ko_delays(case, J):
    if case != 3:
        return [{}, {4602: 2}, {6401: 3, 4604: 13}, {1: 2, 3: 2, 5: 7}, {2: 2, 4: 2, 6405: 3, 6407: 3}, {1: 5, 2: 3, 3: 7, 4: 2, 5: 1, 6401: 2},
                {3: 7, 4: 2, 5: 1, 23: 6, 1: 6, 6407: 2, 101: 4, 4602: 7}, {1: 5, 11: 3, 21: 3, 25: 2, 2: 4, 4: 6, 6: 6, 8: 3, 10: 3, 22: 6, 24: 1},
                {1: 3, 2: 5, 3: 7, 4: 25, 5: 8, 6: 12, 7: 17, 23: 4, 25: 3, 24: 8, 10: 4, 6401: 3, 6403: 7, 101: 8},
                {2: 3, 4602: 1, 4: 10, 102: 2, 6: 15, 8: 7, 4604: 4, 10: 1, 12: 7, 1: 10, 101: 8, 3: 2, 6401: 6, 5: 15, 7: 1, 103: 30, 9: 7, 6403: 8},
                {i: i % 3 for i in J}, {i: i % 10 for i in J}]
    return [{}, {2: 18}, {2: 36, 4602: 20}, {101: 18, 1: 29, 3: 25}, {101: 18, 1: 29, 3: 25, 5: 15, 2: 18}, {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12},
            {101: 18, 1: 29, 3: 25, 5: 15, 2: 36, 4602: 20, 9: 12, 103: 15, 10: 50, 4606: 30}, {2: 50, 4602: 32, 4: 10, 102: 5, 1: 12, 101: 10},
            {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 3: 20},
            {2: 90, 4602: 72, 4: 72, 102: 45, 4604: 10, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 10: 25},
            {1: 29, 2: 36, 4602: 20, 9: 12, 4606: 30, 102: 45, 101: 47, 6401: 35, 6403: 20, 5: 25, 103: 30, 3: 60, 4604: 10, 10: 25},
            {2: 92, 4602: 70, 4: 72, 102: 46, 101: 45, 6401: 33, 6403: 20, 5: 25, 103: 28, 3: 59, 4604: 12, 10: 25}]


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    out = [{"what": "real full", "case": k, "seed": rng.randrange(10 ** 9)} for k in range(10)]
    ko = [("lp", 1), ("lp", 2), ("cqm", 3), ("sim", 3), ("bqm", 1)] if q else [(m, c) for m in ("lp", "cqm", "sim", "bqm", "real") for c in (1, 2, 3)] * 2
    out += [{"what": "ko", "method": m, "case": c, "seed": rng.randrange(10 ** 9)} for m, c in ko]
    todo = [(m, k) for m in ("lp", "cqm", "sim", "bqm", "real") for k in range(10)]
    rng.shuffle(todo)
    if q:
        todo = todo[:25]
    for i, (m, k) in enumerate(todo if q else todo * 6):
        out.append({"what": "real small", "method": m, "case": k, "seed": rng.randrange(10 ** 9)})
    for m in ("lp", "cqm", "sim", "bqm", "real"):
        for _ in range(3 if q else 20):
            out.append({"what": "wisla", "method": m, "seed": rng.randrange(10 ** 9)})
    return out


def delayed(init, who, by):
    return {k: v + (by if k.split("_")[0] == str(who) else 0) for k, v in init.items()}


def base(stations, schedule, t_ref, mon):
    """the data of a case, put together from what the other checks judge one by one"""
    hp, df = sut.hp, sut.df
    with mon.sut("building the case"):
        imp = hp.load_important_stations(stations)
        paths = hp.load_data_paths("data/network_paths.ods")
        td = hp.build_timetables(schedule, False, imp, paths)
        skip = df.get_skip_stations(td)
        ts = {"skip_station": skip, "Paths": df.get_Paths(td), "J": df.get_J(td), "Jd": df.jd(td, imp), "Josingle": df.josingle(td, imp),
              "Jround": df.get_jround(td, imp), "Jtrack": df.jtrack(td, imp), "Jswitch": df.jswitch(td, imp, paths)}
        tt = {"tau": times(td, imp, 1), "initial_conditions": df.get_initial_conditions(td, t_ref), "schedule": df.get_schedule(td, t_ref),
              "penalty_weights": df.make_weights(td, skip, stopping=1, fast=1.5, express=1.75, empty=0)}
        taus = times(td, imp, 0)
    return td, ts, tt, taus


def times(td, imp, r):
    df = sut.df
    stop, extra = df.get_taus_stop(td, imp, r=r)
    return {"pass": df.get_taus_pass(td, r=r), "headway": df.get_taus_headway(td, imp, r=r), "stop": stop, "prep": dict(df.get_taus_prep(td, imp, r=r), **extra), "res": 1}


def model(ts, tt, d_max, cat, mon):
    with mon.sut("building the linear problem"):
        return sut.rs.create_linear_problem(ts, tt, d_max, cat=cat)


def exact(pairs):
    return [(dict(s), e) for s, e in pairs]


# --------------------------------------------------------------------------------
def real(job, mon):
    rng = random.Random(job["seed"])
    k = job["case"]
    full = job["what"] == "real full"
    method = "lp" if full else job["method"]
    mon.ev(method)
    cat = "Integer" if method != "lp" or rng.random() < .5 else "Continuous"
    with prog.scratch(None if full else prog.small_real(rng)) as d:
        st, sched = FILES[k]
        td, ts, tt, taus = base("data/%s.npz" % st, "data/%s.csv" % sched, "16:00", mon)
        if full:
            for tr, by in DELAYS[k]:
                mon.expect("announced train", tr in ts["J"], "case %s delays train %s by %s minutes, but there is no such train" % (k, tr, by), key=(k, tr),
                           mech="delay of an unknown train:%s:%s" % (k, tr))
        for tr, by in DELAYS[k]:
            tt["initial_conditions"] = delayed(tt["initial_conditions"], tr, by)
        want = model(ts, tt, 40, cat, mon)
        case = ilp.Case(ts, tt, 40, cat, "case %s %s" % (k, method))
        run_time = lambda j, s, sp: float(taus["pass"]["%s_%s_%s" % (j, s, sp)])
        ref = REF.replace(hour=16)
        os.remove("update_tables.pkl") if os.path.exists("update_tables.pkl") else None
        if method == "lp":
            solver = rng.choice(["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"])
            show = full or rng.random() < .6
            log = []
            args = ["--case", k, "--category", cat, "--solve_lp", solver] + (["--show_timetable", 1] if show else [])
            text, calls = prog.run("solve_real_problem.py", args, mon, solve=prog.random_solver(rng, log))
            mon.ev("runs:" + job["what"])
            ok = len(calls) == 1 and getattr(calls[0][1], "name", None) == solver
            mon.expect("solver", ok, "case %s: solvers called %s, asked for %s" % (k, [getattr(c[1], "name", None) for c in calls], solver), key=(k, solver))
            if not calls:
                return
            problem(calls[0][0], want, "case %s" % k, mon, (k, cat, solver))
            val = qm_obj(want, log[0])
            mon.expect("printed", prog.printed(text, val) and prog.printed(text, val * 40), "case %s: objective %s (x d_max %s) is not printed" % (k, val, val * 40), key=(k, val))
            if show:
                mon.ev("shown")
                rep = load_one("solutions_quantum/data4diagrams", mon, "case %s" % k)
                report.compare(case, rep, prog.plan_of(case, None, log[0]), ref, mon, "linear", run=run_time)
            # the annotated tables are kept for later
            if os.path.exists("update_tables.pkl"):
                with mon.sut("reading stored tables"):
                    again = sut.hp.load_timetables("update_tables.pkl")
                same = list(again) == list(td) and all(frame_same(again[j][1], td[j][1]) and again[j][0] == td[j][0] for j in td)
                mon.expect("tables", same, "case %s: stored tables differ from those used" % k, key=(k, "tables"))
            else:
                mon.expect("tables", False, "case %s: the tables are not stored" % k)
            return
        runs, mt, pen = rng.choice([1, 2, 3]), rng.choice([5, 7, 20]), rng.choice([1.0, 2.5, 10.0])
        args = ["--case", k, "--category", cat, "--solve_quantum", method, "--min_t", mt, "--runs", runs, "--penalty", pen]
        lin = qm.Lin(want)
        xs = [x for x in (lin.solved(rng) for _ in range(2)) if x]
        with qm.Play(None, xs) as play:
            text, calls = prog.run("solve_real_problem.py", args, mon)
            mon.ev("runs:" + job["what"])
            recs = load_one("solutions_quantum", mon, "case %s" % k)
            sampler(play, method, runs, want, dict({f: pen for f in qm.FAMILIES}, occupation=pen, objective=1), mt, "case %s" % k, mon, rng)
            ok = set(recs) == set(range(1, runs + 1))
            mon.expect("complete runs", ok, "case %s: runs stored %s, asked for %s" % (k, sorted(recs), runs), key=(k, method, runs))
            for i in sorted(recs):
                stored(recs[i], i, lin, method, play, "case %s run %s" % (k, i), mon)
        prog.run("solve_real_problem.py", args + ["--show_timetable", 1], mon)
        mon.ev("shown")
        rep = load_one("solutions_quantum/data4diagrams", mon, "case %s" % k)
        mon.expect("complete runs", set(rep) == set(recs), "case %s: runs shown %s, stored %s" % (k, sorted(rep), sorted(recs)), key=(k, method, "shown"))
        for i in sorted(set(rep) & set(recs)):
            report.compare(case, rep[i], prog.plan_of(case, None, recs[i]["sample"]), ref, mon, "run %s" % i, run=run_time)


def frame_same(a, b):
    return list(a.columns) == list(b.columns) and core.same([list(r) for r in a.values.tolist()], [list(r) for r in b.values.tolist()])


def qm_obj(prob, x):
    return float(prob.objective.constant) + sum(float(a) * x[v.name] for v, a in prob.objective.items())


def problem(got, want, label, mon, key):
    d = prog.differ(got, want)
    mon.expect("problem", d is None, lambda: "%s: another problem is solved: %s" % (label, d), key=key, sample="%s: %s variables, %s constraints" % (label, len(want.variables()), len(want.constraints)))


def load_one(where, mon, label):
    """the only result stored in a directory"""
    names = [n for n in os.listdir(where) if n.endswith(".pkl")]
    ok = mon.expect("one file", len(names) == 1, "%s: files stored in %s: %s" % (label, where, names), key=(label, where))
    if not names:
        raise core.Skip()
    with open(os.path.join(where, names[0]), "rb") as f:
        return pickle.load(f)


def sampler(play, method, runs, want, pd, mt, label, mon, rng):
    """every call went to the right sampler with the announced problem"""
    cs = play.calls()
    ok = mon.expect("sampler", len(cs) == runs and all(c["kind"] == method for c in cs), "%s: samplers called %s, asked for %s x %s" % (label, [c["kind"] for c in cs], runs, method), key=(label, method, runs))
    if not ok:
        raise core.Skip()
    lin = qm.Lin(want)
    if method != "cqm":
        with mon.sut("building the binary model"):
            bqm = sut.rs.convert_to_bqm(want, pd)[0]
    for c in cs:
        if method == "cqm":
            ok = set(c["cqm"].variables) == set(lin.vars) and len(c["cqm"].constraints) == len(lin.cons)
            for x in [lin.random(rng) for _ in range(3)] if ok else []:
                sat = sum(v <= 1e-9 for v in c["cqm"].violations(dict(x)).values())
                ok = ok and sat == sum(lin.violation(n, x) == 0 for n in lin.cons) and abs(c["cqm"].objective.energy(dict(x)) - lin.objective(x)) < 1e-6
        else:
            ok = qm.same_bqm(c["bqm"], bqm, rng)
        mon.expect("problem", ok, "%s: the sampler got another problem or other penalties" % label, key=(label, method, "sampler", str(pd)))
        if method in ("bqm", "cqm"):
            mon.expect("time limit", abs(c["used"] - max(mt, c["least"])) < 1e-9, "%s: time limit %s, asked for %s" % (label, c["used"], mt), key=(label, method, mt))


def stored(rec, i, lin, method, play, label, mon):
    """a stored record is what the i-th call of the sampler gave"""
    x = {n: float(v) for n, v in dict(rec["sample"]).items()}
    ok = set(x) == set(lin.vars) and rec["info"].get("stub") == i
    if ok:
        ok = abs(rec["objective"] - lin.objective(x)) < 1e-6 and bool(rec["feasible"]) == lin.feasible(x) and rec["feas_constraints"][1] == sum(lin.violation(n, x) == 0 for n in lin.cons)
    if ok and method == "cqm":
        ok = any(core.close(x, {n: float(v) for n, v in g.items()}) for g in play.given[i - 1])
    elif ok:
        es = [play.calls()[i - 1]["bqm"].binary.energy(g) for g in play.given[i - 1]]
        ok = any(abs(rec["energy"] - e) < 1e-6 * (1 + abs(e)) for e in es)
    mon.expect("stored", ok, lambda: "%s: stored record %s is not what the sampler gave" % (label, {k: rec[k] for k in rec if k not in ("feas_constraints", "sample")}),
               key=(label, method, rec.get("energy"), rec.get("objective")), sample="%s: objective %s" % (label, rec.get("objective")))


# --------------------------------------------------------------------------------
def ko(job, mon):
    rng = random.Random(job["seed"])
    k, method = job["case"], job["method"]
    mon.ev(method)
    with prog.scratch(prog.small_ko(rng)):
        st, sched = KO_FILES[k]
        td, ts, tt0, taus = base("data/KO_GLC/%s.npz" % st, "data/KO_GLC/%s.csv" % sched, "14:00", mon)
        cat = "Integer" if method != "lp" or rng.random() < .5 else "Continuous"
        want = []
        for dist in ko_delays(k, ts["J"]):
            tt = dict(tt0, initial_conditions=dict(tt0["initial_conditions"]))
            for tr, by in dist.items():
                tt["initial_conditions"] = delayed(tt["initial_conditions"], tr, by)
            want.append(model(ts, tt, 40, cat, mon))
        args = ["--case", k, "--category", cat]
        label = "generic case %s" % k
        if method == "lp":
            solver, lim = rng.choice(["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"]), rng.choice([0, 0, 5, 2.5])
            args += ["--solve_lp", solver] + (["--time_limit", lim] if lim else [])
            log = []
            text, calls = prog.run("solve_KO_GLC_problems.py", args, mon, solve=prog.random_solver(rng, log))
            mon.ev("runs:ko")
            res = load_one("results_KO_GLC", mon, label)
            ok = len(calls) == len(want) and all(getattr(c[1], "name", None) == solver and getattr(c[1], "timeLimit", None) == (lim or None) for c in calls)
            mon.expect("solver", ok, "%s: solvers called %s, asked for %s with limit %s" % (label, [(getattr(c[1], "name", None), getattr(c[1], "timeLimit", None)) for c in calls][:3], solver, lim), key=(k, solver, lim))
            for i, w in enumerate(want[:len(calls)]):
                problem(calls[i][0], w, "%s disturbance %s" % (label, i), mon, (k, i, cat))
            for i, w in enumerate(want):
                r = res.get(i)
                if r is None:
                    mon.expect("stored", False, "%s: no result for disturbance %s" % (label, i))
                    continue
                counts(r, w, "%s disturbance %s" % (label, i), mon)
                ok = i < len(log) and abs(r["objective"] - 40 * qm_obj(w, log[i])) < 1e-5 and r.get("feasible") is True and r.get("broken_constraints") == 0 and 0 <= r["comp_time_seconds"] < 1e4
                mon.expect("stored", ok, lambda: "%s disturbance %s: stored %s, solved objective %s" % (label, i, r, 40 * qm_obj(w, log[i]) if i < len(log) else None), key=(k, i, str(r.get("objective"))),
                           sample="%s disturbance %s: objective %s" % (label, i, r["objective"]))
        else:
            mt, pen = rng.choice([5, 9]), rng.choice([None, 1.5, 4.0])
            args += ["--solve_quantum", method, "--min_t", mt] + (["--penalty", pen] if pen else [])
            pen = pen or 2.5
            with qm.Play(None, None) as play:
                prog.run("solve_KO_GLC_problems.py", args, mon)
                mon.ev("runs:ko")
                res = load_one("results_KO_GLC", mon, label)
                cs = play.calls()
                mon.expect("sampler", len(cs) == len(want) and all(c["kind"] == method for c in cs), "%s: samplers called %s" % (label, [c["kind"] for c in cs]), key=(k, method))
                pd = dict({f: pen for f in qm.FAMILIES}, occupation=pen, objective=1)
                for i, w in enumerate(want[:len(cs)]):
                    one = type("P", (), {"calls": lambda self, i=i: [cs[i]]})()
                    sampler(one, method, 1, w, pd, mt, "%s disturbance %s" % (label, i), mon, rng)
                for i, w in enumerate(want):
                    r = res.get(i)
                    if r is None:
                        mon.expect("stored", False, "%s: no result for disturbance %s" % (label, i))
                        continue
                    lin = qm.Lin(w)
                    counts(r, w, "%s disturbance %s" % (label, i), mon)
                    stored(r, i + 1, lin, method, play, "%s disturbance %s" % (label, i), mon)
                    x = dict(r["sample"])
                    mon.expect("broken", r["broken_constraints"] == sum(lin.violation(n, x) > 0 for n in lin.cons), "%s disturbance %s: %s broken constraints stored" % (label, i, r["broken_constraints"]), key=(k, i, r["broken_constraints"]))
        ok = res.get("method") == (solver if method == "lp" else "") and res.get("d_max") == 40 and res.get("case") == k and res.get("samples") == len(want)
        mon.expect("heading", ok, "%s: stored method %s, d_max %s, case %s, samples %s" % (label, res.get("method"), res.get("d_max"), res.get("case"), res.get("samples")), key=(k, method))


def counts(r, w, label, mon):
    bits = sum(v.lowBound == 0 and v.upBound == 1 and v.cat == "Integer" for v in w.variables())
    want = (bits, len(w.variables()) - bits, len(w.constraints))
    got = (r.get("order_vars"), r.get("int_vars"), r.get("constraints"))
    mon.expect("size", got == want, "%s: stored sizes %s, the problem has %s" % (label, got, want), key=(label, want))


# --------------------------------------------------------------------------------
def wisla_problem():
    """six trains on the single-track line 1-3-5-10, as published"""
    up, down = ["Ks1", "Ks3", "Ic1"], ["Ks2", "Ks4", "Ic2"]
    line = [1, 3, 5, 10]
    secs = list(zip(line, line[1:]))
    ts = {"skip_station": dict([(j, 10) for j in up] + [(j, 1) for j in down]), "Paths": dict([(j, line) for j in up] + [(j, line[::-1]) for j in down]), "J": up + down,
          "Jd": {s: {} for s in line}, "Josingle": {(a, b): [[j, jp] for j in up for jp in down] for a, b in secs}, "Jround": {10: [["Ic1", "Ic2"]]}, "Jtrack": {}, "Jswitch": {}}
    for a, b in secs:
        ts["Jd"][a][b] = [list(up)]
        ts["Jd"][b][a] = [list(down)]
    slow, fast = {(1, 3): 4, (3, 5): 6, (5, 10): 6}, {(1, 3): 4, (3, 5): 4, (5, 10): 5}
    tau = {"pass": {}, "headway": {}, "prep": {"Ic2_10": 20}, "stop": {"%s_%s" % (j, s): 1 for j in up + down for s in line}}
    for a, b in secs:
        for grp, (x, y) in ((up, (a, b)), (down, (b, a))):
            for j in grp:
                tau["pass"]["%s_%s_%s" % (j, x, y)] = (fast if j[0] == "I" else slow)[(a, b)]
                for jp in grp:
                    if j != jp:
                        tau["headway"]["%s_%s_%s_%s" % (j, jp, x, y)] = 2
    start = {"Ks1_1": 0, "Ks3_1": 60, "Ic1_1": 30, "Ks2_10": 40, "Ks4_10": 100, "Ic2_10": 95}
    tt = {"tau": tau, "initial_conditions": dict(start), "penalty_weights": {"Ks1_5": 0.9, "Ks3_5": 0.9, "Ic1_5": 0.9, "Ks2_3": 1, "Ks2_5": 1, "Ic2_3": 1.5},
          "schedule": dict(start, Ic1_1=10)}
    return ts, tt


def wisla(job, mon):
    rng = random.Random(job["seed"])
    method = job["method"]
    mon.ev(method)
    ts, tt = wisla_problem()
    want = model(ts, tt, 10, "Integer", mon)
    case = ilp.Case(ts, tt, 10, "Integer", "Wisla " + method)
    ref = REF.replace(hour=8)
    with prog.scratch():
        if method == "lp":
            solver, lim = rng.choice(["PULP_CBC_CMD", "GUROBI_CMD", "CPLEX_CMD"]), rng.choice([0, 0, 1, 5, 12.5])
            log = []
            args = ["--solve_lp", solver, "--show_timetable", 1] + (["--time_limit", lim] if lim else [])
            text, calls = prog.run("wisla_problems.py", args, mon, solve=prog.random_solver(rng, log))
            mon.ev("runs:wisla")
            ok = len(calls) == 1 and getattr(calls[0][1], "name", None) == solver and getattr(calls[0][1], "timeLimit", None) == (lim or None)
            mon.expect("solver", ok, "Wisla: solvers called %s, asked for %s with limit %s" % ([(getattr(c[1], "name", None), getattr(c[1], "timeLimit", None)) for c in calls], solver, lim), key=(solver, lim))
            problem(calls[0][0], want, "Wisla", mon, ("wisla", solver, lim))
            val = qm_obj(want, log[0])
            mon.expect("printed", prog.printed(text, val), "Wisla: objective %s is not printed" % val, key=("wisla", val))
            mon.ev("shown")
            rep = load_one("solutions_quantum/wisla/data4diagrams", mon, "Wisla")
            report.compare(case, rep, prog.plan_of(case, None, log[0]), ref, mon, "linear")
            return
        mt = rng.choice([5, 8, 20])
        lin = qm.Lin(want)
        pd = dict({f: 10 for f in qm.FAMILIES}, occupation=10, objective=1)
        pd["circulation"] = 4
        xs = [x for x in (lin.solved(rng) for _ in range(2)) if x]
        args = ["--solve_quantum", method, "--min_t", mt]
        with qm.Play(None, xs) as play:
            prog.run("wisla_problems.py", args, mon)
            mon.ev("runs:wisla")
            rec = load_one("solutions_quantum/wisla", mon, "Wisla")
            sampler(play, method, 1, want, pd, mt, "Wisla", mon, rng)
            stored(rec, 1, lin, method, play, "Wisla " + method, mon)
        prog.run("wisla_problems.py", args + ["--show_timetable", 1], mon)
        mon.ev("shown")
        rep = load_one("solutions_quantum/wisla/data4diagrams", mon, "Wisla")
        report.compare(case, rep, prog.plan_of(case, None, rec["sample"]), ref, mon, method)


def work(job, mon):
    mon.job = job
    {"real full": real, "real small": real, "ko": ko, "wisla": wisla}[job["what"]](job, mon)

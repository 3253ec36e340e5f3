"""C35 What cannot be represented is refused, never approximated."""
import copy
import hashlib
import os
import random
import runpy
import sys
import traceback

from vp import core, ilp, prog, qm, sut, workload

RULE = ("one observation = one request outside of what can be represented, made by damaging a request that was accepted just before: how it ended, and the files it left; "
        "distinct by (kind of damage, place of the damage, request)")
NEED = {"judged:data refused": 900, "judged:model refused": 250, "judged:conversion refused": 250, "judged:fractions": 100, "judged:program refused": 25, "judged:nothing stored": 25,
        "accepted before": 120, "speed class": 120, "category": 100, "time": 200, "reference": 120, "unmet pair": 100, "broken route": 100, "missing pass": 60, "missing headway": 40,
        "missing stop": 20, "missing prep": 8, "missing initial": 40, "continuous:bqm": 25, "continuous:cqm": 25, "maximised:bqm": 20, "maximised:cqm": 20, "unknown rule": 20,
        "unbounded:bqm": 20, "unbounded:cqm": 20, "unknown method": 20, "fractions:generic": 20, "fractions:dispatching": 20, "case": 6, "method": 2, "solver": 2, "train": 2}
ASSUME = ["any error and any end of the process with a non-zero status counts as a refusal"]
JOB_LIMIT = 600


def setup():
    sut.load()
    workload.preload(range(4))


def jobs(tier, rng):
    q = tier == "quick"
    n = 60 if q else 1500
    out = [{"what": "ko", "seed": rng.randrange(10 ** 9)} for _ in range(3 if q else 12)]
    out += [{"what": "programs", "seed": rng.randrange(10 ** 9)} for _ in range(10 if q else 60)]
    out += [dict(j, what="data") for j in workload.jobs(rng, range(4), gen=n, walk=n // 3, batch=8)]
    out += [{"what": "model", "seeds": [rng.randrange(10 ** 9) for _ in range(6)]} for _ in range(12 if q else 300)]
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 3 == 0} for k in range(60 if q else 1800)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9)} for k in range(20 if q else 600)]
    rng.shuffle(sp)
    return out + [dict(j, what="conversion") for j in qm.batches(sp, 6)]


def refusal(fn):
    """None if accepted, else how it was refused"""
    try:
        with core.quiet():
            fn()
        return None
    except (core.JobTimeout, core.HarnessGap, core.Skip, KeyboardInterrupt):
        raise
    except SystemExit as e:
        return None if e.code in (None, 0) else e
    except BaseException as e:  # noqa - any error is a refusal
        if core.is_gap(e, traceback.extract_tb(e.__traceback__)):
            raise core.HarnessGap("stand-in gap: %r" % e)
        return e


def refused(mon, kind, damage, label, fn, key, detail=None):
    mon.ev(damage)
    e = refusal(fn)
    mon.expect(kind + " refused", e is not None, "%s: accepted with %s: %s" % (label, damage, key), key=(damage, key), sample="%s, %s: %s" % (damage, str(key)[:120], type(e).__name__),
               mech="%s accepted with %s" % (kind, damage.split(":")[0]), detail=detail)


# data -----------------------------------------------------------------------------
def changed(td, j, row=None, col=None, value=None, category=None):
    """timetables with one cell or the category of one train changed"""
    out = {k: [list(v[0]), v[1].copy()] for k, v in td.items()}
    if category is not None:
        out[j][0][0] = category
    else:
        out[j][1][col] = [value if i == row else x for i, x in enumerate(out[j][1][col].tolist())]
    return out


BAD_TIMES = ["2x:10", "10:75", "ten", "--:--", "1o:30", "10h30"]


def data(w, mon, rng):
    df, net = sut.df, sut.network(w)
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    ref = "%02d:%02d" % (rng.randrange(24), rng.randrange(60))
    pairs = w.ref_pairs()
    shunting = {b for _, b in pairs}
    with mon.sut("times and weights"):
        df.get_schedule(td, ref), df.get_initial_conditions(td, ref)
        df.make_weights(td, df.get_skip_stations(td))
    mon.ev("accepted before")
    js = rng.sample(list(w.J), min(3, len(w.J)))
    for j in js:
        n = len(w.blocks(j))
        route = tuple(w.blocks(j))
        # a speed class without running times
        i, bad = rng.randrange(n - 1), rng.choice(["X", "r", "RE", "ic", "EC", "R IC", "IR"])
        x = changed(td, j, i, "speed", bad)
        refused(mon, "data", "speed class", "%s train %s" % (w.label, j), lambda: df.update_all_timetables(x, net, w.stations), (bad, i, route))
        # a category without a weight
        if j not in shunting:
            bad = rng.choice(["XX - Y", "IC", "KS", "IC - ", "TLK", "KS - Os2", "PR - RE", "PR - IR", ""])
            x2 = changed(td, j, category=bad)
            refused(mon, "data", "category", "%s train %s" % (w.label, j), lambda: df.make_weights(x2, {}), (bad, route))
        # an unreadable departure
        stops = [i for s, i in w.stops(j) if w.by[j]["rows"][i][1]["Dep"]]
        if stops:
            i, bad = rng.choice(stops), rng.choice(BAD_TIMES)
            x3 = changed(td, j, i, "Dep", bad)
            refused(mon, "data", "time", "%s train %s" % (w.label, j), lambda: df.get_schedule(x3, ref), (bad, i, route, "schedule"))
            i = w.stops(j)[0][1]
            if w.by[j]["rows"][i][1]["Dep"]:
                x4 = changed(td, j, i, "Dep", bad)
                refused(mon, "data", "time", "%s train %s" % (w.label, j), lambda: df.get_initial_conditions(x4, ref), (bad, i, route, "start"))
        # a gap in the route
        gaps = [k for k in range(1, n - 1) if (route[k - 1], route[k + 1]) not in w.pair]
        if gaps:
            k = rng.choice(gaps)
            x5 = changed(td, j, 0, "path", route[0])
            x5[j][1] = x5[j][1].drop(index=[k]).reset_index(drop=True)
            refused(mon, "data", "broken route", "%s train %s" % (w.label, j), lambda: df.update_all_timetables(x5, net, w.stations), (route[k - 1], route[k + 1]))
    if stops_any(w):
        for bad in rng.sample(BAD_TIMES, 2):
            refused(mon, "data", "reference", w.label, lambda: df.get_schedule(td, bad), (bad, w.label, "schedule"))
    if w.ref_jround() is None:
        return
    with mon.sut("rolling-stock connections"):
        df.get_jround(td, w.stations)
    # two trains numbered like a pair whose routes do not meet
    free = [j for j in w.J if not any(j in p for p in pairs)]
    todo = [(a, b) for a in free for b in free if a != b and a * 10 + 9 not in w.by and a % 10 != 9 and b * 10 + 9 not in w.by
            and w.blocks(a)[0] != w.blocks(b)[-1] and w.blocks(b)[0] != w.blocks(a)[-1]]
    todo = [(a, b) for a, b in todo if (a * 10 + 9) * 10 + 9 not in w.by]
    rng.shuffle(todo)
    for a, b in todo[:4]:
        new = [(a * 10 + 9 if j == b else j, v) for j, v in td.items()]
        how = rng.choice(["first", "last", "mixed"])
        if how == "last":       # behind the pairs that meet
            new.sort(key=lambda p: p[0] == a)
        elif how == "first":
            new.sort(key=lambda p: p[0] != a)
        else:
            rng.shuffle(new)
        refused(mon, "data", "unmet pair", "%s trains %s and %s as %s" % (w.label, a, b, a * 10 + 9), lambda: df.get_jround(dict(new), w.stations), (tuple(w.blocks(a)), tuple(w.blocks(b)), how))


def stops_any(w):
    return any(w.by[j]["rows"][i][1]["Dep"] for j in w.J for s, i in w.stops(j))


# models ---------------------------------------------------------------------------
def model(seed, mon):
    rng = random.Random("refuse/%s" % seed)
    case = ilp.synthetic(seed, small=rng.random() < .6)
    with mon.sut("building the linear problem", detail=case.describe()):
        sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat=case.cat)
    mon.ev("accepted before")
    tau = case.tt["tau"]
    todo = []
    active = {j for j, _ in case.slots()}
    for j in case.ts["J"]:
        p = case.path(j)
        for a, b in zip(p, p[1:]):
            if not case.skipped(j, b) and not case.skipped(j, a) and "%s_%s" % (j, b) not in case.tt["initial_conditions"]:
                todo.append(("pass", "%s_%s_%s" % (j, a, b)))
        for a in p[1:-1]:
            if "%s_%s" % (j, a) not in case.tt["initial_conditions"]:
                todo.append(("stop", "%s_%s" % (j, a)))
        if j in active and len(p) > 1 and not case.skipped(j, p[1]):
            todo.append(("initial", "%s_%s" % (j, p[0])))
    for s, d in case.ts["Jd"].items():
        for sp, gs in d.items():
            for g in gs:
                todo += [("headway", "%s_%s_%s_%s" % (a, b, s, sp)) for a in g for b in g if a != b]
    for s, prs in case.ts["Jround"].items():
        todo += [("prep", "%s_%s" % (b, s)) for a, b in prs]
    by = {}
    for part, key in sorted(set(todo)):
        if key in (case.tt["initial_conditions"] if part == "initial" else tau.get(part, {})):
            by.setdefault(part, []).append(key)
    for part, keys in sorted(by.items()):
        for key in rng.sample(keys, min(2, len(keys))):
            tt = copy.deepcopy(case.tt)
            del (tt["initial_conditions"] if part == "initial" else tt["tau"][part])[key]
            refused(mon, "model", "missing " + part, case.label, lambda: sut.rs.create_linear_problem(case.ts, tt, case.d_max, cat=case.cat), (key, case.label), detail=case.describe())


# conversions ----------------------------------------------------------------------
def rebuilt(prob, sense=None, var=None, names=None, coef=None):
    """the same problem with another sense, one variable replaced, rules renamed, or a coefficient changed"""
    import pulp
    out = pulp.LpProblem(prob.name, prob.sense if sense is None else sense)
    vs = {}
    for v in prob.variables():
        vs[v.name] = pulp.LpVariable(v.name, v.lowBound, v.upBound, cat=v.cat)
    if var:
        vs[var[0]] = pulp.LpVariable(var[0], *var[1:3], cat=var[3])
    o = prob.objective
    out += pulp.lpSum(a * vs[v.name] for v, a in o.items()) + o.constant
    for n, c in prob.constraints.items():
        co = {v.name: a for v, a in c.items()}
        if coef and coef[0] == n:
            co[coef[1]] = coef[2]
        e = pulp.lpSum(a * vs[v] for v, a in co.items()) + c.constant
        e = e <= 0 if c.sense == -1 else e >= 0 if c.sense == 1 else e == 0
        out += e, (names or {}).get(n, n)
    return out


def conversion(label, lin, mon, rng):
    prob = lin.prob
    if prob.objective is None or not lin.obj[0]:
        mon.ev("nothing to optimise")
        return
    pd = qm.pdict(rng)
    to = {"bqm": lambda p: sut.rs.convert_to_bqm(p, pd), "cqm": lambda p: sut.rs.convert_to_cqm(p)}
    with mon.sut("converting the problem", detail=lin.text()):
        to["bqm"](rebuilt(prob)), to["cqm"](rebuilt(prob))
    mon.ev("accepted before")
    names = sorted(v for v in lin.vars)
    used = [v for v in names if any(v in co for co, _, _ in lin.cons.values()) or v in lin.obj[0]]
    for kind in ("bqm", "cqm"):
        v = rng.choice(used)
        lo, hi = lin.vars[v]
        p = rebuilt(prob, var=(v, lo, hi, "Continuous"))
        refused(mon, "conversion", "continuous:" + kind, label, lambda: to[kind](p), (v, label), detail=lin.text())
        p = rebuilt(prob, sense=-1)
        refused(mon, "conversion", "maximised:" + kind, label, lambda: to[kind](p), label, detail=lin.text())
        v = rng.choice(used)
        lo, hi = lin.vars[v]
        p = rebuilt(prob, var=(v, lo, None, "Integer"))
        refused(mon, "conversion", "unbounded:" + kind, label, lambda: to[kind](p), (v, label), detail=lin.text())
    if lin.cons:
        n = rng.choice(sorted(lin.cons))
        new = rng.choice(["x_", "my_", "rule", "min_span_", "deadline_"]) + n
        p = rebuilt(prob, names={n: new})
        refused(mon, "conversion", "unknown rule", label, lambda: to["bqm"](p), (new, label), detail=lin.text())
    with qm.Play(None, None) as play:
        bad = rng.choice(["", "SIM", "quantum", "hybrid", "cqm ", "dqm", "qubo"])
        refused(mon, "conversion", "unknown method", label, lambda: sut.hp.solve_on_quantum(prob, bad, pd, 5), (bad, label), detail=lin.text())
        mon.expect("no sampler called", not play.calls(), "%s: method %r runs a sampler" % (label, bad), key=(bad, label))
    # fractions in an inequality: the slack is whole
    cs = [n for n, (co, k, sense) in lin.cons.items() if sense != 0]
    if cs:
        n = rng.choice(cs)
        co = lin.cons[n][0]
        v = rng.choice(sorted(co))
        x = co[v] + rng.choice([.5, .25, -.5, .2])
        exact("generic", label, rebuilt(prob, coef=(n, v, x)), pd, mon, rng)


def exact(kind, label, prob, pd, mon, rng):
    """a problem with fractions is refused or has the energies of the problem"""
    mon.ev("fractions:" + kind)
    lin = qm.Lin(prob)
    got = []
    e = refusal(lambda: got.append(sut.rs.convert_to_bqm(prob, pd)))
    key = (label, kind)
    if e is not None:
        mon.expect("fractions", True, "", key=key, sample="refused: " + type(e).__name__)
        return
    mon.ev("fractions accepted")
    B = qm.Bits(got[0][0], got[0][2], lin, mon)
    for x in lin.assignments(rng, 12):
        if lin.feasible(x):
            b = B.complete(x, rng)
            if b is not None:
                want = pd["objective"] * lin.objective(x)
                mon.expect("fractions", abs(b[1] - want) < 1e-6 * (1 + abs(want)), "%s: the binary model of a problem with fractions charges %s for %s, which breaks no rule (expected %s)" % (
                    label, b[1], x, want), key=key + (str(x),), mech="fractions charged", detail=lin.text())


def fractional(seed, mon):
    """dispatching with times that are no whole minutes"""
    rng = random.Random("fractional/%s" % seed)
    for k in range(30):
        case = ilp.synthetic("%s/%s" % (seed, k), small=True)
        with mon.sut("building the linear problem", detail=case.describe()):
            prob = sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat="Integer")
        if len(prob.constraints) and not qm.whole(prob):
            return exact("dispatching", case.label, prob, qm.pdict(rng), mon, rng)


# programs -------------------------------------------------------------------------
def files():
    out = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.join(d, f)
            if not d.startswith("./data") and f != "update_tables.pkl":
                with open(p, "rb") as h:
                    out[p] = hashlib.blake2b(h.read(), digest_size=12).hexdigest()
    return out


def run(name, args, rng):
    from pulp import backend
    argv, path = sys.argv, list(sys.path)
    sys.argv = [name] + [str(a) for a in args]
    sys.path.insert(0, os.path.dirname("/repo/" + name))
    backend.SOLVE = prog.random_solver(rng, [])
    try:
        with qm.Play(None, None):
            return refusal(lambda: runpy.run_path("/repo/" + name, run_name="__main__"))
    finally:
        sys.argv = argv
        sys.path[:] = path
        backend.SOLVE = None


def asked(mon, damage, name, args, key, rng):
    mon.ev(damage)
    before = files()
    e = run(name, args, rng)
    after = files()
    label = "%s %s" % (name, " ".join(map(str, args)))
    key = (damage, name, key, tuple(map(str, args)))
    mon.expect("program refused", e is not None, "%s: ends as if all was well (%s)" % (label, damage), key=key, sample="%s: %s" % (label, type(e).__name__), mech="program accepted unknown " + damage)
    mon.expect("nothing stored", after == before, "%s: stored or changed %s" % (label, sorted(f for f in after if after[f] != before.get(f))), key=key, mech="stored for unknown " + damage)


def programs(job, mon):
    rng = random.Random("programs/%s" % job["seed"])
    method = lambda: rng.choice(["quantum", "SIM", "annealing", "hybrid", "Real", "qubo", "bqm,cqm"])
    solver = lambda: rng.choice(["CBC", "cbc_cmd", "HIGHS2", "PULP_CBC", "GLPK CMD", "none"])
    show = ["--show_timetable", 1] if rng.random() < .6 else []
    with prog.scratch(prog.small_real(rng)):
        what = rng.choice(["case", "case", "method", "solver"])
        if what == "case":
            bad = rng.choice([10, 11, -1, 19, 100])
            args = ["--case", bad] + rng.choice([["--solve_lp", "PULP_CBC_CMD"] + show, ["--solve_quantum", rng.choice(["sim", "cqm", "bqm"])]])
        elif what == "method":
            bad = method()
            args = ["--case", rng.randrange(10), "--solve_quantum", bad] + rng.choice([[], ["--solve_lp", "PULP_CBC_CMD"] + show])
        else:
            bad = solver()
            args = ["--case", rng.randrange(10), "--solve_lp", bad] + show
        asked(mon, what, "solve_real_problem.py", args, bad, rng)
    with prog.scratch():
        if rng.random() < .5:
            bad = method()
            asked(mon, "method", "wisla_problems.py", ["--solve_quantum", bad] + rng.choice([[], ["--solve_lp", "PULP_CBC_CMD"] + show]), bad, rng)
        else:
            bad = solver()
            asked(mon, "solver", "wisla_problems.py", ["--solve_lp", bad] + show, bad, rng)
        bad = rng.choice([0, 4, 5, -1, 13])
        asked(mon, "case", "solve_KO_GLC_problems.py", ["--case", bad, "--solve_lp", "PULP_CBC_CMD"], bad, rng)


def ko(job, mon):
    """a delay of a train that is not in the schedule"""
    rng = random.Random("ko/%s" % job["seed"])
    case = rng.choice([1, 2, 3])
    gone = rng.choice([2, 4602, 101, 1, 3, 5, 4, 102, 4604, 10, 6401, 6403])
    fill = prog.small_ko(rng)

    def data_(d):
        fill(d)
        for n in ("trains_schedules_KO_GLC", "trains_schedules_KO_RCB_ZZ_GLC", "trains_schedules_KO_RCB_ZZ_GLC_v2"):
            p = "%s/KO_GLC/%s.csv" % (d, n)
            head, secs = prog.sections(p)
            prog.write(p, head, [s for s in secs if s[0] != gone])
    with prog.scratch(data_):
        args = ["--case", case] + rng.choice([["--solve_lp", "PULP_CBC_CMD"], ["--solve_quantum", "cqm"]])
        asked(mon, "train", "solve_KO_GLC_problems.py", args, gone, rng)


def work(job, mon):
    if job["what"] == "data":
        workload.each(job, mon, data)
    elif job["what"] == "model":
        for s in job["seeds"]:
            mon.job = {"what": "model", "seeds": [s]}
            for fn in (model, fractional):
                try:
                    fn(s, mon)
                except core.Skip:
                    mon.ev("ended early")
    elif job["what"] == "conversion":
        qm.each(job, mon, conversion)
    elif job["what"] == "ko":
        ko(job, mon)
    else:
        programs(job, mon)

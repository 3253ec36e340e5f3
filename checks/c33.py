"""C33 Asking never changes the data, and asking again gives the same answer."""
import random
from datetime import datetime

from vp import core, ilp, prog, qm, sut, workload

RULE = ("one observation = one question asked: the data it was given compared before and after, and its answer with the one given earlier; distinct by "
        "(data, question, questions asked in between)")
NEED = {"judged:data untouched": 2500, "judged:same answer": 900, "judged:model untouched": 700, "judged:same model": 150, "judged:samples untouched": 100, "judged:problem data untouched": 200,
        "histories": 45, "problems": 60, "binary models": 60}
REF = datetime(2020, 1, 1, 12)


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    n = 36 if tier == "quick" else 900
    out = workload.jobs(rng, (0, 3, 4) if tier == "quick" else range(6), gen=n, walk=n // 2, gen_o={"n_tr": 7}, batch=3)
    out += ilp.batches(ilp.specs(rng, syn=60 if tier == "quick" else 2000, world=16 if tier == "quick" else 300, walk=8 if tier == "quick" else 150), 6)
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 3 == 0} for k in range(60 if tier == "quick" else 2000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9)} for k in range(40 if tier == "quick" else 800)]
    return out + qm.batches(sp, 8)


def norm(x):
    """a value that can be compared: tables by content, mappings without order"""
    if hasattr(x, "columns") and hasattr(x, "values"):
        return ["table", list(map(str, x.columns)), [norm(r) for r in x.values.tolist()], [norm(i) for i in x.index.tolist()]]
    if hasattr(x, "items"):
        return ["map"] + sorted(([repr(k), norm(v)] for k, v in x.items()), key=lambda p: p[0])
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(map(repr, x))
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, float) and x != x:
        return "nan"
    if hasattr(x, "item"):
        return norm(x.item())
    return x


def questions(w, td, net, rng):
    """named questions about a schedule; the answers may be compared"""
    df, hp = sut.df, sut.hp
    st = w.stations
    j = rng.choice(w.J)
    jp = rng.choice(w.J)
    tab = td[j][1]
    p = w.path(j)
    two = df.get_skip_stations(td)
    r = rng.choice([0, 1])
    ref = rng.choice(["16:00", "00:00", "12:30"])
    q = {
        "trains": lambda: df.get_J(td), "routes": lambda: df.get_Paths(td), "skipped stations": lambda: df.get_skip_stations(td), "running times": lambda: df.get_taus_pass(td, r=r),
        "stopping times": lambda: df.get_taus_stop(td, st, r=r), "preparation times": lambda: df.get_taus_prep(td, st, r=r), "headways": lambda: df.get_taus_headway(td, st, r=r),
        "line groups": lambda: df.jd(td, st), "head-on pairs": lambda: df.josingle(td, st), "rolling stock": lambda: df.get_jround(td, st), "track groups": lambda: df.jtrack(td, st),
        "switch pairs": lambda: df.jswitch(td, st, net), "trains at stations": lambda: df.get_trains_at_station(td, st, rng.random() < .5) and df.get_trains_at_station(td, st),
        "schedule": lambda: df.get_schedule(td, ref), "initial conditions": lambda: df.get_initial_conditions(td, ref),
        "weights": lambda: df.make_weights(td, two, stopping=1, fast=1.5, express=1.75, empty=0), "stations of a train": lambda: df.train_important_stations(tab),
        "block times": lambda: df.passing_times_4blocks(tab, net), "pairs by number": lambda: df.get_trains_pair9(td), "common stations": lambda: sorted(df.check_common_station(td, j, jp)),
        "all times": lambda: hp.make_taus(td, st, r), "whole timetable": lambda: hp.make_timetable(td, st, two, ref), "whole problem": lambda: hp.make_train_set(td, st, net, two),
        "planned times": lambda: df.get_arr_dep_vals(tab), "times columns": lambda: df.get_arrdep(tab), "table of a train": lambda: df.train_time_table(td, j),
        "route check": lambda: df.check_path_continuity(tab["path"], net[["previous_block", "next_block"]]),
    }
    if len(p) > 1:
        s, s2 = p[0], p[1]
        q["blocks between"] = lambda: df.get_blocks_b2win_station4train(tab, s, s2, verbose=False)
        q["next station"] = lambda: df.subsequent_station(tab, s)
        q["station blocks"] = lambda: df.blocks_list_4station(tab, s, st)
        both = [k for k in range(len(p) - 1) if jp != j and p[k] in w.path(jp) and p[k + 1] in w.path(jp)]
        if both:
            a, b = p[both[0]], p[both[0] + 1]
            q["common blocks"] = lambda: df.get_common_blocks_and_direction_b2win_trains(td, j, jp, a, b)
    return q


def world(w, mon, rng):
    net = sut.network(w)
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("skipped stations"):
        q = questions(w, td, net, rng)
    parts = {"schedule": lambda: norm({k: v for k, v in td.items()}), "stations": lambda: norm(w.stations), "network": lambda: norm(net)}
    before = {k: f() for k, f in parts.items()}
    order = [k for k in q if not (k in ("headways", "all times", "whole timetable") and len(w.J) > 14)]
    order = order + order
    rng.shuffle(order)
    if len(w.J) > 14:
        order = order[:16]
    mon.ev("histories")
    said, last = {}, None
    for k in order:
        with mon.sut("asking for " + k, detail=w.csv_text()[:3000]):
            ans = norm(q[k]())
        for part, f in parts.items():
            if part == "network" and k not in ("switch pairs", "whole problem", "block times", "route check"):
                continue
            now = f()
            mon.expect("data untouched", now == before[part], lambda: "%s: asking for %s changes the %s: %s" % (w.label, k, part, where(before[part], now)), key=(w.label, k, part, last),
                       mech="changed:%s" % part)
            before[part] = now
        if k in said:
            mon.expect("same answer", ans == said[k], lambda: "%s: %s: first %s, after other questions %s" % (w.label, k, core._short(said[k]), core._short(ans)), key=(w.label, k, last),
                       sample="%s after %s" % (k, last), mech="answer:" + k)
        said[k] = ans
        last = k
    # a delay belongs to its train only, in a copy
    with mon.sut("initial conditions"):
        init = sut.df.get_initial_conditions(td, "16:00")
    was = dict(init)
    with mon.sut("adding a delay"):
        sut.df.add_delay(init, rng.choice(w.J), 7)
    mon.expect("data untouched", init == was, w.label + ": adding a delay changes the given conditions", key=(w.label, "delay"), mech="changed:conditions")


def where(a, b, path=""):
    if type(a) is not type(b) or not isinstance(a, list) or len(a) != len(b):
        return "%s: %s, now %s" % (path, core._short(a, 120), core._short(b, 120))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return where(x, y, path + "/%s" % i)
    return "nothing"


def state(prob):
    """a problem with its values"""
    return (prog.canon(prob), [(v.name, v.varValue) for v in prob.variables()], prob.sense, sorted(prob.constraints))


def asked(prob, label, what, fn, mon, before, detail=None):
    with mon.sut(what, detail=detail):
        out = fn()
    now = state(prob)
    mon.expect("model untouched", now == before, lambda: "%s: %s changes the model" % (label, what), key=(label, what), mech="changed:model")
    return out


def problem(case, mon, rng):
    mon.ev("problems")
    given = norm([case.ts, case.tt])
    d = case.describe()
    with mon.sut("building the optimisation model", detail=d):
        prob = sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat=case.cat)
    mon.expect("problem data untouched", norm([case.ts, case.tt]) == given, case.label + ": building the model changes the data it is built from", key=case.label, mech="changed:problem data", detail=d)
    with mon.sut("building the optimisation model", detail=d):
        again = sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat=case.cat)
    diff = prog.differ(again, prob)
    mon.expect("same model", diff is None, lambda: "%s: built again, the model is another one: %s" % (case.label, diff), key=case.label, mech="model again", detail=d)
    for v in prob.variables():
        v.varValue = rng.choice([0.0, 1.0]) if v.upBound == 1 else float(rng.randint(0, int(case.d_max)))
        if rng.random() < .5:
            v.varValue += rng.choice([-1e-10, 1e-10]) if v.varValue else 1e-13      # as solvers return them
    was = state(prob)
    slots = case.slots()
    asked(prob, case.label, "counting the variables", lambda: sut.hp.count_vars(prob), mon, was, d)
    for j, s in rng.sample(slots, min(3, len(slots))):
        asked(prob, case.label, "reading a delay", lambda: sut.rs.delay_and_acctual_time(case.ts, case.tt, prob, j, s), mon, was, d)
    asked(prob, case.label, "printing the sizes", lambda: sut.hp.check_count_vars(prob), mon, was, d)
    outside = {v.name: round(v.varValue) for v in prob.variables()}
    kept = dict(outside)
    for j, s in rng.sample(slots, min(2, len(slots))):
        asked(prob, case.label, "reading a delay of a sample", lambda: sut.rs.delay_and_acctual_time(case.ts, case.tt, prob, j, s, outside), mon, was, d)
    asked(prob, case.label, "reporting a sample", lambda: sut.hp.print_optimisation_results(prob, case.tt, case.ts, case.tt["tau"], case.ts.get("skip_station", {}), case.d_max, REF, outside), mon, was, d)
    mon.expect("samples untouched", outside == kept, case.label + ": reporting a sample changes it", key=(case.label, "sample"), mech="changed:samples", detail=d)
    rep = None
    for _ in range(2):
        new = asked(prob, case.label, "reporting the timetable", lambda: sut.hp.print_optimisation_results(prob, case.tt, case.ts, case.tt["tau"], case.ts.get("skip_station", {}), case.d_max, REF), mon, was, d)
        if rep is not None:
            mon.expect("same answer", norm(new) == norm(rep), case.label + ": the timetable reported again is another one", key=(case.label, "report"), mech="answer:report", detail=d)
        rep = new
    mon.expect("problem data untouched", norm([case.ts, case.tt]) == given, case.label + ": reporting changes the data", key=(case.label, "report"), mech="changed:problem data", detail=d)


def qubo(label, lin, mon, rng):
    if lin.prob.objective is None:
        return
    mon.ev("binary models")
    prob, rs = lin.prob, sut.rs
    pd = qm.pdict(rng)
    was, pwas = state(prob), dict(pd)
    d = lin.text()
    bqm, _, interp = asked(prob, label, "converting to a binary model", lambda: rs.convert_to_bqm(prob, pd), mon, was, d)
    cqm = asked(prob, label, "converting to a constrained model", lambda: rs.convert_to_cqm(prob), mon, was, d)
    bqm2, _, interp2 = asked(prob, label, "converting to a binary model", lambda: rs.convert_to_bqm(prob, pd), mon, was, d)
    mon.expect("problem data untouched", pd == pwas, label + ": converting changes the penalties", key=(label, "penalties"), mech="changed:penalties")
    mon.expect("same model", qm.same_bqm(bqm2, bqm, rng), label + ": converted again, the binary model is another one", key=(label, "bqm"), mech="model again", detail=d)
    cqm2 = asked(prob, label, "converting to a constrained model", lambda: rs.convert_to_cqm(prob), mon, was, d)
    xs = [lin.random(rng) for _ in range(3)]
    ok = all(core.close(cqm.objective.energy(dict(x)), cqm2.objective.energy(dict(x))) and sorted(cqm.violations(dict(x)).values()) == sorted(cqm2.violations(dict(x)).values()) for x in xs)
    mon.expect("same model", ok, label + ": converted again, the constrained model is another one", key=(label, "cqm"), mech="model again", detail=d)
    # samples
    import dimod
    vs = list(bqm.variables)
    rows = [{v: rng.randint(0, 1) for v in vs} for _ in range(4)]
    ss = dimod.SampleSet.from_samples(rows, energy=[bqm.binary.energy(r) for r in rows], vartype="BINARY")
    flat = lambda s: [(dict(t.sample), t.energy) for t in s.data()]
    was_ss = flat(ss)
    with mon.sut("decoding samples", detail=d):
        a = interp(ss)
        b = interp2(ss)
    mon.expect("samples untouched", flat(ss) == was_ss, label + ": decoding changes the samples", key=(label, "decode"), mech="changed:samples")
    was_a = flat(a)
    mon.expect("same answer", sorted(map(repr, was_a)) == sorted(map(repr, flat(b))), label + ": samples decoded again differ", key=(label, "decoded"), mech="answer:decoding")
    res = asked(prob, label, "judging samples", lambda: rs.get_results(a, prob=prob), mon, was, d)
    mon.expect("samples untouched", flat(a) == was_a, label + ": judging changes the samples", key=(label, "judge"), mech="changed:samples")
    copy = norm([{k: v for k, v in r.items()} for r in res])
    best = asked(prob, label, "choosing a sample", lambda: rs.get_best_feasible_sample(res), mon, was, d)
    mon.expect("samples untouched", norm([{k: v for k, v in r.items()} for r in res]) == copy, label + ": choosing changes the records", key=(label, "choose"), mech="changed:records")
    with mon.sut("choosing a sample"):
        best2 = rs.get_best_feasible_sample(rs.get_results(a, prob=prob))
    mon.expect("same answer", norm(dict(best)) == norm(dict(best2)), label + ": another sample is chosen the second time", key=(label, "best"), mech="answer:choice")


def work(job, mon):
    if "worlds" in job:
        workload.each(job, mon, world)
    elif "q" in job["cases"][0]:
        qm.each(job, mon, qubo)
    else:
        ilp.each(job, mon, problem)

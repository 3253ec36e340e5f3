"""The whole way from a schedule to its model and report, and runs of it in processes of their own."""
import copy
import os
import pickle
import random
import signal
import traceback
from datetime import datetime

from . import core, ilp, prog, qm, sut, world

REF = datetime(2020, 1, 1, 12)


def norm(x):
    """a value that can be compared: tables by content, mappings without order"""
    if hasattr(x, "columns") and hasattr(x, "values"):
        return ["table", list(map(str, x.columns)), [norm(r) for r in x.values.tolist()], [norm(i) for i in x.index.tolist()]]
    if hasattr(x, "items"):
        return ["map"] + sorted(([repr(k), norm(v)] for k, v in x.items()), key=lambda p: p[0])
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(map(repr, x))
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, float) and x != x:
        return "nan"
    if hasattr(x, "item"):
        return norm(x.item())
    return x


def alone(fn):
    """the value of fn() computed in a process that does nothing else; None if it did not survive"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(300)
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            code = 0
        except BaseException as e:  # noqa
            if core.is_gap(e, traceback.extract_tb(e.__traceback__)):
                code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        pid = None
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 3:
        raise core.HarnessGap("a stand-in lacks something")
    return pickle.loads(data) if status == 0 else None


def parts(td, stations, net, d_max=10, cat="Integer", late=(), seed=0, solve=True):
    """everything derived from annotated tables, by name; a refusal is an answer as well"""
    df, hp, rs = sut.df, sut.hp, sut.rs
    out = {}

    def ask(name, fn):
        try:
            with core.quiet():
                v = fn()
        except (Exception, SystemExit) as e:
            if core.is_gap(e, traceback.extract_tb(e.__traceback__)):
                raise
            out[name] = "refused with %s" % type(e).__name__
            return None
        x = norm(v)
        out[name] = (core.digest(x), core._short(repr(x), 300))
        return v

    ask("tables", lambda: td)
    skip = ask("skipped stations", lambda: df.get_skip_stations(td)) or {}
    taus = ask("rounded times", lambda: hp.make_taus(td, stations, 1))
    ask("exact times", lambda: hp.make_taus(td, stations, 0))
    ts = ask("conflicts", lambda: hp.make_train_set(td, stations, net, skip))
    tt = ask("timetable", lambda: hp.make_timetable(td, stations, skip, "12:00", taus))
    ask("other reference time", lambda: (df.get_schedule(td, "16:30"), df.get_initial_conditions(td, "16:30")))
    ask("rolling stock", lambda: df.get_jround(td, stations))
    if ts is None or tt is None or not solve:
        return out
    for j, m in late:
        tt["initial_conditions"] = ask("delay of %s" % j, lambda: df.add_delay(tt["initial_conditions"], j, m)) or tt["initial_conditions"]
    prob = None

    def build():
        nonlocal prob
        prob = rs.create_linear_problem(ts, tt, d_max, cat=cat)
        return prog.canon(prob)
    ask("model", build)
    if prob is None:
        return out
    rng = random.Random("values/%s" % seed)
    for v in sorted(prob.variables(), key=lambda v: v.name):
        v.varValue = float(rng.randint(0, int(v.upBound)))
    ask("sizes", lambda: hp.count_vars(prob))
    ask("report", lambda: hp.print_optimisation_results(prob, tt, ts, tt["tau"], skip, d_max, REF))
    sample = {v.name: rng.randint(0, int(v.upBound)) for v in sorted(prob.variables(), key=lambda v: v.name)}
    ask("report of a sample", lambda: hp.print_optimisation_results(prob, tt, ts, tt["tau"], skip, d_max, REF, sample))
    if cat == "Integer":
        def hybrid():
            cqm = rs.convert_to_cqm(prob)
            return [round(float(cqm.objective.energy(dict(sample))), 6), sorted(round(float(x), 6) for x in cqm.violations(dict(sample)).values())]
        ask("hybrid model", hybrid)

        def judged():
            import dimod
            rows = [{v.name: rng.randint(0, int(v.upBound)) for v in sorted(prob.variables(), key=lambda v: v.name)} for _ in range(3)]
            got = rs.get_results(dimod.SampleSet.from_samples(dimod.as_samples(rows), "INTEGER", [3, 1, 2]), prob)
            best = rs.get_best_feasible_sample(got)
            return [[float(g["energy"]), round(float(g["objective"]), 6), bool(g["feasible"]), sorted((k, int(x)) for k, x in dict(g["sample"]).items())] for g in got + [best]]
        ask("judged samples", judged)

        def binary():
            import dimod
            bqm, (terms, offset), decode = rs.convert_to_bqm(prob, qm.pdict(random.Random("penalties/%s" % seed)))
            bits = sorted(bqm.variables)
            row = {b: rng.randint(0, 1) for b in bits}
            energy = offset + sum(x for (u, v), x in terms.items() if row[u] and row[v])
            values = decode(dimod.SampleSet.from_samples(dimod.as_samples([row]), "BINARY", [energy]))
            return [bits, round(float(bqm.energy(row)), 6), round(float(energy), 6), [sorted((k, int(x)) for k, x in dict(s).items()) for s in values.samples()],
                    rs.count_linear_fields(bqm), rs.count_quadratic_couplings(bqm)]
        ask("binary model", binary)
    return out


def differ(a, b):
    """names of the parts that differ"""
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


# look-alike schedules --------------------------------------------------------------
def _copy(w, label, trains=None, rows=None, stations=None):
    v = world.World()
    v.label = "%s, %s" % (w.label, label)
    v.trains = copy.deepcopy(w.trains) if trains is None else trains
    v.rows = w.rows if rows is None else rows
    v.stations = w.stations if stations is None else stations
    if rows is None and getattr(w, "df", None) is not None:
        v.df = w.df
    return v.index()


TIMES = ("time_inter_city_A-B", "time_regional_train_A-B", "time_inter_city_B-A", "time_regional_train_B-A")


def finer(w, rng):
    """the same schedule with running times in hundredths and thousandths of a minute"""
    rows = []
    for r in w.rows:
        r = dict(r)
        for c in TIMES:
            x = world.num(r[c])
            if x is not None:
                r[c] = str(round(x + rng.choice([.03, .07, .125, .35, .0625]), 4))
        rows.append(r)
    return _copy(w, "with finer times", rows=rows)


def alike(w, rng):
    """schedules with the same trains, stations and blocks in which one thing differs"""
    try:
        w = ilp.with_preparation(w, rng)
    except core.Skip:
        pass
    out = [w]
    rows = []
    for r in w.rows:
        r = dict(r)
        for c in TIMES:
            x = world.num(r[c])
            if x is not None and rng.random() < .7:
                r[c] = str(round(x + rng.choice([.3, .5, 1, 2.2]), 2))
        rows.append(r)
    out.append(_copy(w, "other running times", rows=rows))
    sw = [r["switches"] for r in w.rows]
    k = rng.randrange(1, max(2, len(sw)))
    out.append(_copy(w, "other switches", rows=[dict(r, switches=x) for r, x in zip(w.rows, sw[k:] + sw[:k])]))
    t = copy.deepcopy(w.trains)
    if len(t) > 1:
        a, b = rng.sample(range(len(t)), 2)
        t[a]["number"], t[b]["number"] = t[b]["number"], t[a]["number"]
        out.append(_copy(w, "two trains with exchanged numbers", trains=t))
        t = copy.deepcopy(w.trains)
        t.pop(rng.randrange(len(t)))
        out.append(_copy(w, "without a train", trains=t))
    t = copy.deepcopy(w.trains)
    for x in t:
        h = rng.choice([-1, 1, 2])
        x["type"] = rng.choice(world.TYPES)
        for _, c in x["rows"]:
            for n in ("Arr", "Dep", "Approx_enter"):
                if c[n]:
                    a, b = c[n].split(":")[:2]
                    c[n] = "%02d:%02d" % ((int(a) + h) % 24, (int(b) + 3) % 60)
            if c["Turnaround_time_minutes"]:
                c["Turnaround_time_minutes"] = str(rng.choice([1, 4, 7]))
    out.append(_copy(w, "at another time", trains=t))
    t = copy.deepcopy(w.trains)
    for x in t:
        for _, c in x["rows"]:
            c["speed"] = "R" if c["speed"] == "IC" else "IC"
    out.append(_copy(w, "with exchanged speeds", trains=t))
    st = {s: list(b) for s, b in w.stations.items()}
    if len(st) > 2:
        st.pop(rng.choice(sorted(st)))
        out.append(_copy(w, "with a station less", stations=st))
    if len(w.stations) > 1:
        a, b = rng.sample(sorted(w.stations), 2)
        out.append(_copy(w, "with two stations renamed", stations={{a: b, b: a}.get(s, s): bl for s, bl in w.stations.items()}))
    return out

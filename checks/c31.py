"""C31 Published statistics and plots show the stored results."""
import ast
import math
import os
import pickle
import random
import re
import shutil

from vp import core, prog, sut

RULE = ("one observation = one drawn series or one printed row of statistics compared with the stored results; distinct by (program, data, quantity)")
NEED = {"judged:series": 600, "judged:printed": 200, "judged:figures": 60, "judged:nothing else": 60, "judged:infeasible refused": 6, "runs:statistics": 12, "runs:sweep": 12,
        "runs:sweep by time": 12, "runs:comparison": 12, "runs:comparison with limit": 12, "infeasible points": 40, "bundled": 3}
SWEEP = (5, 6, 7, 10, 15, 20, 25, 30, 40, 60)
STATIONS = ("KO(STM)", "KO", "CB", "KL", "MJ")
SQ, SD, KO = "solutions_quantum/", "solutions_quantum/data4diagrams/", "results_KO_GLC/"


def setup():
    sut.load()
    import matplotlib.pyplot  # noqa: F401 - the stand-in


def jobs(tier, rng):
    n = 40 if tier == "quick" else 250
    out = [{"what": w, "seed": None} for w in ("statistics", "sweep", "sweep by time")]
    for w in ("statistics", "sweep", "sweep by time", "comparison", "comparison with limit"):
        out += [{"what": w, "seed": rng.randrange(10 ** 9)} for _ in range(n)]
    return out


def dump(name, x):
    with open(name, "wb") as f:
        pickle.dump(x, f)


def load(name):
    with open(name, "rb") as f:
        return pickle.load(f)


def run(name, mon):
    import matplotlib.pyplot as plt
    del plt.SAVED[:]
    plt.close()
    text, _ = prog.run(name, [], mon)
    return text, list(plt.SAVED)


# statistics of delays ------------------------------------------------------------
def quantile(v, q):
    v = sorted(v)
    p = q * (len(v) - 1)
    i = int(math.floor(p))
    return v[i] + (p - i) * (v[min(i + 1, len(v) - 1)] - v[i])


def timetable(rng):
    out = {}
    places = list(STATIONS) + ["KZ", "GLC", "Ty", "RCB"]
    wide = rng.choice([3, 20, 60])
    for j in rng.sample(range(1, 99999), rng.randint(3, 8)):
        path = rng.sample(places, rng.randint(2, 6))
        d = {}
        for n, s in enumerate(path):
            e = {}
            if n:
                e["arrive"] = e["conflicted_arrive"] = "x"
            if n + 1 < len(path) or rng.random() < .3:
                e.update({"departure": "x", "conflicted_departure": "x", "secondary delay": rng.choice([0, 0, rng.randint(0, wide)]), "impact_to_objective": rng.random()})
            d[s] = e
        out[j] = d
    j = max(out) + 1
    out[j] = {s: {"secondary delay": rng.choice([0, rng.randint(0, wide)])} for s in STATIONS if rng.random() < .9 or True}
    return out


def collected(tables):
    d = {}
    for t in tables:
        for j in t:
            for s, e in t[j].items():
                if "secondary delay" in e:
                    d.setdefault(s, []).append(e["secondary delay"])
    return d


def statistics(job, mon, rng):
    for k in range(10):
        if rng is None:
            for m in ("cqm5", "PULP_CBC_CMD"):
                shutil.copy("/repo/%s%s_case%d_Integer.pkl" % (SD, m, k), ".")
        else:
            ks = list(range(1, 1 + rng.randint(1, 5)))
            dump("cqm5_case%d_Integer.pkl" % k, {i: timetable(rng) for i in ks})
            dump("PULP_CBC_CMD_case%d_Integer.pkl" % k, timetable(rng))
    text, figs = run(SD + "visualise_statistics.py", mon)
    want = {}
    for k in range(10):
        want[("hybrid", k)] = collected(load("cqm5_case%d_Integer.pkl" % k).values())
        want[("classical", k)] = collected([load("PULP_CBC_CMD_case%d_Integer.pkl" % k)])
    rows = {"max": lambda v: max(v), "quantile 75": lambda v: quantile(v, .75), "mean": lambda v: sum(v) / len(v), "quantile 25": lambda v: quantile(v, .25), "min": lambda v: min(v)}
    # printed rows, in the order of the parts
    got, part, case = {}, "hybrid", None
    for line in text.splitlines():
        low = line.lower()
        if re.search(r"\bclas+ical\b", low):
            part, case = "classical", None
        m = re.match(r"\W*case\W+(\d+)\W*$", low)
        if m:
            case = int(m.group(1))
        if "[" in line and case is not None:
            for r in rows:
                if low.strip().startswith(r):
                    try:
                        got[(part, case, r)] = [float(x) for x in ast.literal_eval(line[line.index("["):])]
                    except (ValueError, SyntaxError, TypeError):
                        got[(part, case, r)] = line
    for (p, k), d in want.items():
        for r, f in rows.items():
            exp = [f(d[s]) for s in STATIONS]
            mon.expect("printed", core.close(got.get((p, k, r)), exp, 1e-6), lambda: "case %s (%s): %s printed as %s, stored delays give %s" % (k, p, r, got.get((p, k, r)), exp),
                       key=(p, k, r, tuple(exp)), sample="%s %s %s: %s" % (p, k, r, exp), mech="statistics")
    # figures
    names = {}
    for f, axes, _ in figs:
        m = re.search(r"case(\d+)", f)
        if m:
            names[("classical" if "classical" in f else "hybrid", int(m.group(1)))] = [s for a in axes for s in a]
    expected = {(p, k) for p in ("hybrid", "classical") for k in (0, 4, 7)}
    mon.expect("figures", set(names) == expected, "figures saved for %s" % sorted(names), key=tuple(sorted(names)), mech="statistics figures")
    for (p, k) in expected & set(names):
        d, ss = want[(p, k)], names[(p, k)]
        mean = [rows["mean"](d[s]) for s in STATIONS]
        hit = [s for s in ss if s["kind"] == "errorbar" and list(s["x"]) == list(STATIONS) and core.close(s["y"], mean, 1e-6)]
        mon.expect("series", bool(hit), "case %s (%s): mean delays %s are not drawn" % (k, p, mean), key=(p, k, "mean", tuple(mean)), mech="statistics drawing")
        if hit and hit[0]["yerr"] is not None:
            lo, hi = [list(map(float, x)) for x in hit[0]["yerr"]]
            ok = core.close([m - x for m, x in zip(mean, lo)], [float(min(d[s])) for s in STATIONS], 1e-6) and core.close([m + x for m, x in zip(mean, hi)], [float(max(d[s])) for s in STATIONS], 1e-6)
            mon.expect("series", ok, "case %s (%s): range of delays drawn from %s below to %s above the mean" % (k, p, lo, hi), key=(p, k, "range", tuple(lo), tuple(hi)), mech="statistics drawing")
        for q in ("quantile 25", "quantile 75"):
            exp = [rows[q](d[s]) for s in STATIONS]
            mon.expect("series", any(s["kind"] == "plot" and list(s["x"]) == list(STATIONS) and core.close(s["y"], exp, 1e-6) for s in ss), "case %s (%s): %s %s is not drawn" % (k, p, q, exp),
                       key=(p, k, q, tuple(exp)), mech="statistics drawing")


# sweep over the time parameter -----------------------------------------------------
def sweep(job, mon, rng):
    by_time = job["what"] == "sweep by time"
    broken = None
    if rng is not None and rng.random() < .3:
        broken = (rng.choice(["case7", "case9"]), rng.choice(SWEEP))
    data = {}
    for case in ("case7", "case9"):
        base = rng.uniform(1, 6) if rng else 0
        for t in SWEEP:
            name = "cqm%d_%s_Integer.pkl" % (t, case)
            if rng is None:
                shutil.copy("/repo/" + SQ + name, ".")
            else:
                n = rng.randint(1, 6)
                d = {i + 1: {"objective": base + rng.random(), "energy": rng.random(), "feasible": True, "info": {"run_time": rng.randint(t * 900000, t * 1400000), "qpu_access_time": rng.randint(0, 40000)},
                             "comp_time_seconds": rng.uniform(5, 90)} for i in range(n)}
                if broken == (case, t):
                    d[rng.randint(1, n)]["feasible"] = False
                dump(name, d)
            data[(case, t)] = load(name)
    prog_name = SQ + ("tmin_plot_rev.py" if by_time else "tmin_plot.py")
    if broken:
        m2 = core.Mon(mon.job)
        try:
            run(prog_name, m2)
            refused = False
        except core.Skip:
            refused = any("AssertionError" in v["mechanism"] or "Error" in v["mechanism"] for v in m2.viol)
        mon.expect("infeasible refused", refused, "%s draws an infeasible solution (%s) as if it were a solution" % (prog_name, broken), key=(job["what"], broken), mech="infeasible drawn")
        return
    text, figs = run(prog_name, mon)
    files = {}
    for f, axes, _ in figs:
        m = re.search(r"case\d+", f)
        files[m.group(0) if m else f] = [s for a in axes for s in a]
    mon.expect("figures", set(files) == {"case7", "case9"}, "figures saved: %s" % [f for f, _, _ in figs], key=(job["what"], tuple(sorted(files))), mech="sweep figures")
    for case, ss in files.items():
        if case not in ("case7", "case9"):
            continue
        obj = [[r["objective"] * 40 for r in data[(case, t)].values()] for t in SWEEP]
        tim = [[r["info"]["run_time"] / 1e6 for r in data[(case, t)].values()] for t in SWEEP]
        qpu = [[r["info"]["qpu_access_time"] / 1e6 for r in data[(case, t)].values()] for t in SWEEP]
        mean = lambda v: sum(v) / len(v)
        x = [mean(v) for v in tim] if by_time else [float(t) for t in SWEEP]
        y = [mean(v) for v in obj]
        lx = [math.log(v) for v in x]
        mx, my = mean(lx), mean(y)
        a = sum((u - mx) * (v - my) for u, v in zip(lx, y)) / sum((u - mx) ** 2 for u in lx)
        exp = {"mean objective": (x, y), "smallest objective": (x, [min(v) for v in obj]), "largest objective": (x, [max(v) for v in obj]),
               "fit": (x, [my + a * (u - mx) for u in lx])}
        if not by_time:
            exp.update({"mean time": (x, [mean(v) for v in tim]), "smallest QPU time": (x, [min(v) for v in qpu]), "largest QPU time": (x, [max(v) for v in qpu])})
        shows(mon, job["what"] + " " + case, ss, exp, "sweep", {"mean": {"mean objective", "mean time"}, "fit": {"fit"}}, ok_const=True)


def shows(mon, who, ss, exp, mech, labels, ok_const=False):
    """every expected series is drawn, nothing else is, and labels tell the truth"""
    f = lambda s: ([float(v) for v in s["x"]], [float(v) for v in s["y"]])
    hits = {}
    for name, (x, y) in exp.items():
        tol = 1e-6 * max(1.0, max(abs(v) for v in y))
        hit = [n for n, s in enumerate(ss) if core.close(f(s)[0], x, 1e-6) and core.close(f(s)[1], y, tol)]
        hits[name] = hit
        mon.expect("series", bool(hit), lambda: "%s: %s is not drawn (%s at %s)" % (who, name, y, x), key=(who, name, tuple(y)), sample="%s: %s %s" % (who, name, y[:4]), mech=mech + " drawing")
    known = set(i for h in hits.values() for i in h)
    odd = [s for n, s in enumerate(ss) if n not in known and not (ok_const and len(set(f(s)[1])) == 1)]
    mon.expect("nothing else", not odd, lambda: "%s: also drawn: %s" % (who, odd[:1]), key=(who, tuple(tuple(v[1]) for v in exp.values())), mech=mech + " drawing")
    for word, allowed in labels.items():
        for n, s in enumerate(ss):
            if s["label"] and word in str(s["label"]).lower():
                mon.expect("label", any(n in hits[a] for a in allowed if a in hits), "%s: the series labelled %r is none of %s" % (who, s["label"], sorted(allowed)), key=(who, word), mech=mech + " label")


# comparison of solvers -----------------------------------------------------------
def comparison(job, mon, rng):
    lim = job["what"].endswith("limit")
    n = rng.randint(2, 12)
    st = {}
    for case in (1, 2, 3):
        for t in (5, 20):
            d = {"method": "", "d_max": rng.choice([40, 40, 10, 25]), "case": case, "samples": n}
            for i in range(n):
                d[i] = {"objective": rng.uniform(0, 5), "energy": rng.random(), "feasible": rng.random() < .7, "info": {"run_time": rng.randint(4000000, 30000000), "qpu_access_time": rng.randint(0, 90000)},
                        "comp_time_seconds": rng.uniform(5, 90), "order_vars": 1, "int_vars": 1, "constraints": 1}
            dump("results%d__cqm_%d_Integer.pkl" % (t, case), d)
            st[(case, t)] = d
        for k in ("", "_ilp_t_lim5.0"):
            d = {"method": "CPLEX_CMD", "d_max": 40, "case": case, "samples": n}
            for i in range(n):
                d[i] = {"order_vars": rng.randint(10, 900), "int_vars": rng.randint(10, 200), "constraints": rng.randint(20, 4000), "objective": rng.uniform(0, 200), "comp_time_seconds": rng.uniform(0, 50),
                        "feasible": k == "" or rng.random() < .8}
            dump("results_CPLEX_CMD%s__%d_Integer.pkl" % (k, case), d)
            st[(case, "lp" + k)] = d
    text, figs = run(KO + ("fast_plot_lim.py" if lim else "fast_plot.py"), mon)
    files = {}
    for f, axes, _ in figs:
        m = re.search(r"case(\d+)", f)
        files[int(m.group(1)) if m else f] = axes
    mon.expect("figures", set(files) == {1, 2, 3}, "figures saved: %s" % [f for f, _, _ in figs], key=(lim, tuple(sorted(map(str, files)))), mech="comparison figures")
    nums = prog.numbers(text)
    at = 0
    for case in (1, 2, 3):
        lp = st[(case, "lp")]
        for q in ("int_vars", "order_vars", "constraints"):
            want = sum(lp[i][q] for i in range(n)) / n
            hit = next((k for k in range(at, len(nums)) if abs(nums[k] - want) < 1e-6 * (1 + want)), None)
            mon.expect("printed", hit is not None, "case %s: mean %s %s is not printed in its place" % (case, q, want), key=(case, q, want), mech="comparison sizes")
            at = hit + 1 if hit is not None else at
        axes = files.get(case)
        if axes is None:
            continue
        who = "%s, case %d" % (job["what"], case)
        x = [float(i) for i in range(n)]
        panels = [{}, {}, {}]
        for t in (5, 20):
            d = st[(case, t)]
            col = ["green" if d[i]["feasible"] else "red" for i in range(n)]
            mon.ev("infeasible points", col.count("red"))
            for ax, q, f in ((0, "objective", lambda r: r["objective"] * d["d_max"]), (1, "time", lambda r: r["info"]["run_time"] / 1e6), (2, "QPU time", lambda r: r["info"]["qpu_access_time"] / 1e6)):
                y = [f(d[i]) for i in range(n)]
                panels[ax]["%s (CQM %s)" % (q, t)] = (x, y)
                s = next((s for s in axes[ax] if core.close([float(v) for v in s["y"]], y, 1e-6)), None) if len(axes) == 3 else None
                mon.expect("series", s is not None and s["colour"] == col, "%s: %s of the hybrid solver with %s s is not drawn with its feasibility (%s)" % (who, q, t, s and s["colour"]), key=(who, q, t, tuple(y)), mech="comparison drawing")
                if s is not None and s["label"]:
                    w = [float(z) for z in re.findall(r"\d+(?:\.\d+)?", str(s["label"]))]
                    mon.expect("label", not w or float(t) in w, "%s: results for %s s are labelled %r" % (who, t, s["label"]), key=(who, q, t), mech="comparison label")
        for k, name in (("lp", "exact"),) + ((("lp_ilp_t_lim5.0", "limited"),) if lim else ()):
            d = st[(case, k)]
            panels[0]["objective (%s)" % name] = (x, [d[i]["objective"] for i in range(n)])
            panels[1]["time (%s)" % name] = (x, [d[i]["comp_time_seconds"] for i in range(n)])
        for ax, exp in enumerate(panels):
            if len(axes) == 3:
                shows(mon, "%s, panel %d" % (who, ax + 1), axes[ax], exp, "comparison", {"exact": {"objective (exact)", "time (exact)"} if ax < 2 else set(), "limit": {"objective (limited)", "time (limited)"}} if lim and ax < 2 else {}, ok_const=ax == 2)
        mon.expect("figures", len(axes) == 3, "%s: %d panels" % (who, len(axes)), key=(who, "panels"), mech="comparison figures")


def work(job, mon):
    rng = random.Random("plots/%s" % job["seed"]) if job["seed"] is not None else None
    mon.ev("runs:" + job["what"])
    if rng is None:
        mon.ev("bundled")
    with prog.scratch():
        {"statistics": statistics, "sweep": sweep, "sweep by time": sweep, "comparison": comparison, "comparison with limit": comparison}[job["what"]](job, mon, rng)

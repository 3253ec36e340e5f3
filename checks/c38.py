"""C38 What was computed before does not influence a result."""
import traceback

from vp import core, pipe, sut, workload

RULE = ("one observation = one derived part (tables, times, conflicts, timetable, model, sizes, reports, quantum models, judged samples) of one schedule, computed in a process that did other work before, compared with the same part "
        "computed in a process of its own; distinct by (schedule, part, work done before)")
NEED = {"judged:part": 1000, "histories": 12, "schedules computed alone": 70, "answered: model": 100, "answered: binary model": 50, "answered: judged samples": 50, "answered: report": 100}
JOB_LIMIT = 600


def setup():
    sut.load()
    workload.preload((0, 1, 5))


def jobs(tier, rng):
    n = 12 if tier == "quick" else 150
    return workload.jobs(rng, (), gen=n, walk=n // 3, gen_o={"n_tr": 4}, walk_o={"n_tr": 3}, batch=1)


def whole(w, how):
    """everything derived from a schedule, from its file on"""
    net = sut.network(w)
    try:
        with core.quiet():
            td = sut.via_helpers(w, net=net)
    except (Exception, SystemExit) as e:
        if core.is_gap(e, traceback.extract_tb(e.__traceback__)):
            raise
        return {"reading": "refused with %s" % type(e).__name__}
    return pipe.parts(td, w.stations, net, **how)


def one(w, mon, rng):
    ws = pipe.alike(w, rng)
    hows = [{"d_max": 10, "cat": "Integer", "seed": 1}, {"d_max": rng.choice([5, 20]), "cat": rng.choice(["Integer", "Continuous"]), "late": [(rng.choice(w.J), rng.choice([3, 8, 15]))], "seed": 2}]
    items = [(v, hows[0]) for v in ws] + [(rng.choice(ws), hows[1])]
    fresh = [pipe.alone(lambda: whole(v, h)) for v, h in items]
    mon.ev("schedules computed alone", len(fresh))
    if any(f is None for f in fresh):
        raise core.HarnessGap("a schedule could not be worked on in a process of its own")
    order = list(range(len(items))) * 2
    rng.shuffle(order)

    def history():
        return [whole(*items[i]) for i in order]
    later = pipe.alone(history)
    if later is None:
        raise core.HarnessGap("a sequence of schedules could not be worked on in one process")
    mon.ev("histories")
    seen = {}
    for n, (i, got) in enumerate(zip(order, later)):
        want = fresh[i]
        if seen.setdefault("parts of %s" % i, core.digest(sorted(map(repr, want.items())))):
            mon.ev("parts different from the schedule before" if n and len(pipe.differ(fresh[order[n - 1]], want)) > 2 else "parts as in the schedule before")
        bad = pipe.differ(got, want)
        before = [items[k][0].label for k in order[:n]][-3:]
        for k in sorted(set(got) | set(want)):
            mon.ev(("refused: " if isinstance(want.get(k), str) else "answered: ") + k.split(" of ")[0])
            mon.expect("part", k not in bad, lambda: "%s: %s after work on %s: %s; in a process of its own: %s" % (items[i][0].label, k, before, core._short(str(got.get(k)), 200), core._short(str(want.get(k)), 200)),
                       key=(items[i][0].label, i, k, order[:n]), sample="%s: %s the same after %d other schedules" % (items[i][0].label, k, n), mech="influenced:" + k)


def work(job, mon):
    workload.each(job, mon, one)

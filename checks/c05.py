"""C05 Running, stopping and preparation times add up from the blocks."""
from vp import core, sut, workload

RULE = ("one observation = one running, stopping or preparation time of one train compared with the sum over its blocks; "
        "distinct by (kind, block times, turnaround, position in the route, rounding)")
NEED = {"judged:pass": 400, "judged:stop": 400, "judged:prep": 100, "intermediate turnaround": 30, "first turnaround": 30,
        "judged:assembled": 100, "subset requests": 20}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 70 if tier == "quick" else 1800
    return workload.jobs(rng, range(6) if tier == "quick" else range(7), gen=n, walk=n // 2, batch=5)


def ok_time(got, want, r):
    if got is None or core.isnan(got):
        return False
    if r == 1:
        return abs(got - round(got)) < 1e-9 and abs(got - want) <= 0.5 + 1e-6
    return abs(got - want) < 1e-6


def compare(w, mon, kind, got, want, r, default=None):
    """dict of times; with a default, absent means that value"""
    keys = set(got) | set(want)
    for k in sorted(keys):
        j = int(k.split("_")[0])
        if default is None and (k not in got or k not in want):
            mon.expect(kind, False, "%s %s %s: %s" % (w.label, kind, k, "missing" if k not in got else "unexpected, %r" % got[k]),
                       mech=kind + " keys")
            continue
        g, x = got.get(k, default), want.get(k, default)
        mon.expect(kind, ok_time(g, x, r), lambda: "%s %s %s (rounding %s): got %r, expected %r" % (w.label, kind, k, r, g, x),
                   key=(k, x, r, tuple(w.blocks(j))) if x else None, sample="%s %s = %s" % (kind, k, g))


def one(w, mon, rng):
    df = sut.df
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    ref = [{}, {}, {}]
    per = {}
    for j in w.J:
        per[j] = w.ref_taus(j)
        for a, b in zip(ref, per[j]):
            a.update(b)
        for k, (s, i) in enumerate(w.stops(j)):
            if w.turnaround(j, s):
                mon.ev("first turnaround" if k == 0 else "intermediate turnaround")
    for r in (0, 1):
        with mon.sut("running and stopping times"):
            tp = df.get_taus_pass(td, r=r)
            ts, extra = df.get_taus_stop(td, w.stations, r=r)
            tr = df.get_taus_prep(td, w.stations, r=r)
        compare(w, mon, "pass", tp, ref[0], r)
        compare(w, mon, "stop", ts, ref[1], r)
        compare(w, mon, "prep", tr, ref[2], r, default=0)
        compare(w, mon, "prep", dict(tr, **extra), ref[2], r, default=0)
    # a subset of trains, in another order
    some = rng.sample(w.J, rng.randrange(1, len(w.J) + 1))
    mon.ev("subset requests")
    r = rng.choice([0, 1])
    with mon.sut("times of a subset of trains"):
        tp = df.get_taus_pass(td, trains=some, r=r)
        ts, extra = df.get_taus_stop(td, w.stations, trains=some, r=r)
    compare(w, mon, "pass", tp, {k: v for j in some for k, v in per[j][0].items()}, r)
    compare(w, mon, "stop", ts, {k: v for j in some for k, v in per[j][1].items()}, r)
    bad = [k for k, v in extra.items() if not ok_time(v, ref[2].get(k, 0), r)]
    mon.expect("prep", not bad, lambda: "%s preparation times %s, expected %s" % (w.label, extra, ref[2]), key=(w.label, tuple(some)))
    # assembled for the optimisation
    if len(w.J) <= 8:
        for r in (0, 1):
            with mon.sut("assembling the times"):
                t = sut.hp.make_taus(td, w.stations, r)
            compare(w, mon, "assembled pass", t["pass"], ref[0], r)
            compare(w, mon, "assembled stop", t["stop"], ref[1], r)
            compare(w, mon, "assembled prep", t["prep"], ref[2], r, default=0)
            mon.equal("assembled", t["res"], 1, "switch time", key=(w.label, r))


def work(job, mon):
    workload.each(job, mon, one)

"""C11 Rolling-stock connections are found, placed and ordered correctly."""
from vp import core, sut, workload

RULE = ("one observation = one schedule's list of number pairs or of connections; each connection counts as distinct by (station, "
        "meeting block, order, routes); schedules without a pair are trivial")
NEED = {"judged:connection": 150, "plain first": 50, "shunting first": 50, "look-alike numbers": 30, "judged:number pairs": 100}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 220 if tier == "quick" else 5000
    return (workload.jobs(rng, range(7)) + workload.jobs(rng, gen=n, gen_o={"n_tr": 6}, batch=10)
            + workload.jobs(rng, gen=n // 2, gen_o={"n_tr": 12, "n_st": 4}, batch=10))


def one(w, mon, rng):
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    order = list(w.J)
    rng.shuffle(order)
    td = {j: td[j] for j in order}
    with mon.sut("number pairs"):
        pairs = sut.df.get_trains_pair9(td)
    ref = w.ref_pairs()
    mon.expect("number pairs", sorted(map(tuple, pairs)) == sorted(ref), lambda: "%s: pairs %s, expected %s" % (w.label, pairs, sorted(ref)),
               key=tuple(sorted(w.J)) if ref else None)
    alike = [j for j in w.J if j // 10 in w.by and j % 10 != 9]
    if alike and ref:
        mon.ev("look-alike numbers")
    want = w.ref_jround()
    if want is None:
        return
    with mon.sut("rolling-stock connections"):
        got = sut.df.get_jround(td, w.stations)
    flat = sorted((s, tuple(p)) for s, prs in got.items() for p in prs)
    exp = sorted((s, p) for s, prs in want.items() for p in prs)
    mon.expect("connections", flat == exp, lambda: "%s: connections %s, expected %s" % (w.label, flat, exp), key=w.label if exp else None)
    for s, p in exp:
        mon.ev("shunting first" if p[0] > p[1] else "plain first")
        mon.expect("connection", flat.count((s, p)) == 1, lambda: "%s: connection %s at %s listed %d times" % (w.label, p, s, flat.count((s, p))),
                   key=(s, tuple(w.blocks(p[0])), tuple(w.blocks(p[1]))), sample="%s: %s then %s" % (s, p[0], p[1]))


def work(job, mon):
    workload.each(job, mon, one)

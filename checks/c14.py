"""C14 Each train is weighted once, by its category, where its delay counts."""
from vp import core, sut, workload, world

RULE = ("one observation = one train's weight or ending station; distinct by (category, shunting or not, number of partner, ending "
        "inside/beyond, station, weight values)")
NEED = {"judged:weight": 400, "judged:ending": 400, "shunting": 40, "look-alike": 10, "ends inside": 100, "goes beyond": 100, "judged:all": 80, "judged:assembled": 15, "judged:by hand": 80, "named before the last": 100}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 150 if tier == "quick" else 4000
    return (workload.jobs(rng, range(7)) + workload.jobs(rng, gen=n, gen_o={"n_tr": 7}, batch=8) + workload.jobs(rng, walk=n // 3, batch=8)
            + workload.jobs(rng, gen=n // 2, gen_o={"n_tr": 14, "n_st": 3}, batch=8))


def one(w, mon, rng):
    df = sut.df
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("ending stations"):
        skip = df.get_skip_stations(td)
    for j in w.J:
        e = w.ends_at(j)
        mon.ev("ends inside" if e else "goes beyond")
        mon.equal("ending", skip.get(j), e, "%s train %s ends at" % (w.label, j), key=(tuple(w.blocks(j)), e))
    mon.expect("only trains", set(skip) <= set(w.J), "%s: ending stations for %s" % (w.label, set(skip) - set(w.J)))
    values = rng.choice([dict(stopping=1, fast=1.5, express=1.75, empty=0), dict(stopping=3, fast=5, express=7, empty=11),
                         dict(stopping=0.5, fast=0.25, express=2, empty=0.125)])
    default = rng.random() < .3
    if default:
        values = dict(stopping=1, fast=1.5, express=1.75, empty=0)
    with mon.sut("weights"):
        got = df.make_weights(td, skip) if default else df.make_weights(td, skip, **values)
    want = w.ref_weights(values)
    mon.expect("all", set(got) == set(want), lambda: "%s weights: %s" % (w.label, core.diff(got, want)), key=tuple(sorted(want)))
    shunting = set(b for _, b in w.ref_pairs())
    partners = set(x for p in w.ref_pairs() for x in p)
    for k, v in want.items():
        j = int(k.split("_")[0])
        if j in shunting:
            mon.ev("shunting")
        elif j // 10 in partners:
            mon.ev("look-alike")
        if k in got:
            mon.equal("weight", got[k], v, "%s weight %s (%s)" % (w.label, k, w.by[j]["type"]),
                      key=(w.by[j]["type"], j in shunting, k, v), tol=1e-12)
    # endings written by hand: only where the last station is named does the weight move
    hand = {}
    for j in w.J:
        if len(w.path(j)) > 1 and rng.random() < .7:
            hand[j] = w.path(j)[-1] if rng.random() < .4 else rng.choice(w.path(j)[:-1])
    with mon.sut("weights for endings written by hand"):
        got = df.make_weights(td, hand, **values)
    want = {}
    for j in w.J:
        path = w.path(j)
        want["%s_%s" % (j, path[-2] if hand.get(j) == path[-1] else path[-1])] = values["empty"] if j in shunting else values[world.TYPE_CLASS[w.by[j]["type"]]]
    mon.ev("named before the last", sum(s != w.path(j)[-1] for j, s in hand.items()))
    mon.equal("by hand", dict(got), want, "%s: weights for endings written by hand %s" % (w.label, hand), key=(w.label, tuple(hand.items())), tol=1e-12)
    if len(w.J) <= 5:
        with mon.sut("assembling the timetable"):
            tt = sut.hp.make_timetable(td, w.stations, skip, "12:00")
        mon.equal("assembled", dict(tt["penalty_weights"]), w.ref_weights(dict(stopping=1, fast=1.5, express=1.75, empty=0)), "%s: weights of the assembled timetable" % w.label,
                  key=w.label, tol=1e-12)


def work(job, mon):
    workload.each(job, mon, one)

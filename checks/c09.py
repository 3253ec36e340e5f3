"""C09 Trains using one station track are grouped exactly."""
from vp import core, sut, workload, world

RULE = ("one observation = one station's grouping compared with the grouping by station block; distinct by (station, block per "
        "train); stations with fewer than two trains are trivial")
NEED = {"judged:station": 200, "shared tracks": 100, "several tracks": 60, "depot blocks": 15, "ending trains": 60}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 100 if tier == "quick" else 3000
    return (workload.jobs(rng, range(7)) + workload.jobs(rng, gen=n, gen_o={"n_tr": 8}, batch=6) + workload.jobs(rng, walk=n // 2, batch=6))


def compare(w, mon, got):
    ref = w.ref_jtrack()
    extra = [s for s, g in got.items() if s not in ref and any(g)]
    mon.expect("only stations", not extra, lambda: "%s: groups for %s" % (w.label, extra), key=w.label)
    for s, want in ref.items():
        groups = [list(g) for g in got.get(s, [])]
        members = [j for g in groups for j in g]
        ok = len(members) == len(set(members)) and set(frozenset(g) for g in groups if g) == want
        here = [j for j in w.J if s in w.path(j)]
        if any(len(g) > 1 for g in want):
            mon.ev("shared tracks")
        if len(want) > 1:
            mon.ev("several tracks")
        if any(w.blocks(j)[w.pos(j, s)] in world.DEPOT_BLOCKS for j in here) or (here and s in world.DEPOT_STATIONS):
            mon.ev("depot blocks")
        mon.ev("ending trains", sum(w.ends_at(j) == s for j in here))
        mon.expect("station", ok, lambda: "%s station %s: groups %s, expected %s" % (w.label, s, groups, [sorted(g) for g in want]),
                   key=(s, tuple(w.blocks(j)[w.pos(j, s)] for j in here)) if len(here) > 1 else None, sample="%s: %s" % (s, groups))


def one(w, mon, rng):
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("grouping trains on station tracks"):
        got = sut.df.jtrack(td, w.stations)
    compare(w, mon, got)
    order = list(w.J)
    rng.shuffle(order)
    with mon.sut("grouping trains on station tracks"):
        got = sut.df.jtrack({j: td[j] for j in order}, w.stations)
    compare(w, mon, got)


def work(job, mon):
    workload.each(job, mon, one)

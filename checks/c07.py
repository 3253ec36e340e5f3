"""C07 Trains sharing a line track are grouped exactly."""
from vp import core, sut, workload

RULE = ("one observation = one section (pair of consecutive stations) with its grouping compared with the grouping by block "
        "chains; distinct by the chains used on the section; a section with a single train is trivial")
NEED = {"judged:section": 200, "several groups": 20, "several in group": 80, "judged:no others": 60}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 80 if tier == "quick" else 2500
    return (workload.jobs(rng, range(7)) + workload.jobs(rng, gen=n, gen_o={"n_tr": 8}, batch=5) + workload.jobs(rng, walk=n // 2, batch=5)
            + workload.jobs(rng, gen=n // 2, gen_o={"n_tr": 9, "n_st": 3, "crossover": True}, batch=5))


def compare(w, mon, got):
    ref = w.ref_jd()
    flat = {(s, s2): g for s, d in got.items() for s2, g in d.items()}
    extra = [k for k, g in flat.items() if k not in ref and any(g)]
    mon.expect("no others", not extra, lambda: "%s: trains listed for untravelled sections %s" % (w.label, extra), key=(w.label, len(ref)))
    for k, want in ref.items():
        groups = flat.get(k, [])
        members = [j for g in groups for j in g]
        ok = len(members) == len(set(members)) and set(frozenset(g) for g in groups if g) == want
        if len(want) > 1:
            mon.ev("several groups")
        if any(len(g) > 1 for g in want):
            mon.ev("several in group")
        chains = sorted(tuple(w.between(j, *k)) for g in want for j in g)
        mon.expect("section", ok, lambda: "%s section %s: groups %s, expected %s" % (w.label, k, groups, [sorted(g) for g in want]),
                   key=(k, chains) if len(members) > 1 else None, sample="%s: %s" % (k, groups))


def one(w, mon, rng):
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("grouping trains on lines"):
        got = sut.df.jd(td, w.stations)
    compare(w, mon, got)
    # the file may list the trains in any order
    order = list(w.J)
    rng.shuffle(order)
    with mon.sut("grouping trains on lines"):
        got = sut.df.jd({j: td[j] for j in order}, w.stations)
    compare(w, mon, got)


def work(job, mon):
    workload.each(job, mon, one)

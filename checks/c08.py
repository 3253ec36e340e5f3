"""C08 Every head-on pair on a shared track is found."""
from vp import core, sut, workload

RULE = ("one observation = one head-on pair expected or listed; distinct by (section, routes of both trains); plus one "
        "observation per schedule that nothing else is listed")
NEED = {"judged:pair": 150, "judged:nothing else": 80, "one ends at the section": 40}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 80 if tier == "quick" else 2500
    return (workload.jobs(rng, range(7)) + workload.jobs(rng, gen=n, gen_o={"n_tr": 7}, batch=5) + workload.jobs(rng, walk=n // 2, batch=5)
            + workload.jobs(rng, gen=n, gen_o={"n_tr": 8, "n_st": 3}, batch=5))


def compare(w, mon, got):
    ref = w.ref_josingle()
    listed = {}
    for (s, s2), prs in got.items():
        for j, jp in prs:
            k = min(((s, s2), j, jp), ((s2, s), jp, j), key=str)
            listed.setdefault(k, []).append(((s, s2), j, jp))
    for k in sorted(ref, key=str):
        (s, s2), j, jp = k
        if w.ends_at(j) in (s, s2) or w.ends_at(jp) in (s, s2):
            mon.ev("one ends at the section")
        n = len(listed.get(k, []))
        mon.expect("pair", n == 1, lambda: "%s: head-on pair %s %s on %s-%s is listed %d times" % (w.label, j, jp, s, s2, n),
                   key=(s, s2, tuple(w.blocks(j)), tuple(w.blocks(jp))), sample="%s %s on %s-%s" % (j, jp, s, s2),
                   mech="head-on pair missing" if n == 0 else "head-on pair repeated")
    extra = [v for k, v in listed.items() if k not in ref]
    mon.expect("nothing else", not extra, lambda: "%s: listed but not head-on on one track: %s" % (w.label, extra[:3]),
               key=(w.label, tuple(w.J)))


def one(w, mon, rng):
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("head-on pairs"):
        got = sut.df.josingle(td, w.stations)
    compare(w, mon, got)
    if len(w.J) <= 12:
        order = list(w.J)
        rng.shuffle(order)
        st = list(w.stations)
        rng.shuffle(st)
        with mon.sut("head-on pairs"):
            got = sut.df.josingle({j: td[j] for j in order}, {s: w.stations[s] for s in st})
        compare(w, mon, got)


def work(job, mon):
    workload.each(job, mon, one)

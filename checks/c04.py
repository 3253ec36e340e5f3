"""C04 Route questions are answered consistently with the train's route."""
from vp import core, sut, workload

RULE = ("one observation = one question about a train, pair of trains, station or pair of stations; distinct by the "
        "question's subject (routes and stations involved); questions about stations off the route are counted as trivial")
NEED = {"judged:blocks between": 500, "judged:common blocks": 250, "judged:trains at station": 100, "opposite pairs": 40,
        "judged:next station": 300, "partial overlap": 15}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 60 if tier == "quick" else 1500
    return (workload.jobs(rng, range(7), gen=n, walk=n // 2, batch=6)
            + workload.jobs(rng, gen=n // 2, gen_o={"crossover": True, "n_tr": 6, "n_st": 3}, batch=6))


def one(w, mon, rng):
    df = sut.df
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    with mon.sut("asking for paths and stations"):
        paths = df.get_Paths(td)
        J = df.get_J(td)
        at = df.get_trains_at_station(td, w.stations)
        dep = df.get_trains_at_station(td, w.stations, True)
    mon.equal("train list", sorted(J), sorted(w.J), w.label, key=(w.label, sorted(w.J)))
    for s in w.stations:
        mon.equal("trains at station", sorted(at[s]), sorted(j for j in w.J if s in w.path(j)), "%s trains at %s" % (w.label, s),
                  key=(s, sorted(at[s])))
        mon.equal("trains going beyond", sorted(dep[s]), sorted(w.departing(s)), "%s trains leaving %s" % (w.label, s),
                  key=(s, sorted(dep[s])))
    js = list(w.J)
    rng.shuffle(js)
    for j in js[:12]:
        tab = td[j][1]
        p = w.path(j)
        mon.equal("stations of train", list(paths[j]), p, "%s train %s stations" % (w.label, j), key=(tuple(w.blocks(j)), tuple(p)))
        with mon.sut("stations of a timetable"):
            p2 = df.train_important_stations(tab)
        mon.equal("stations of train", list(p2), p, "%s train %s stations (table)" % (w.label, j))
        for s in w.stations:
            with mon.sut("station questions"):
                nxt = df.subsequent_station(tab, s)
                passing = df.is_train_passing_thru_station(tab, s)
                bl = df.blocks_list_4station(tab, s, w.stations)
            on = s in p
            mon.equal("next station", nxt, w.next_station(j, s), "%s train %s after %s" % (w.label, j, s), key=(tuple(p), s) if on else None)
            mon.equal("passes", bool(passing), on, "%s train %s passing %s" % (w.label, j, s), key=(tuple(p), s))
            mon.equal("station blocks", list(bl), [w.blocks(j)[w.pos(j, s)]] if on else [], "%s train %s blocks in %s" % (w.label, j, s),
                      key=(tuple(bl), s) if on else None)
        pairs = [(a, b) for a in w.stations for b in w.stations if a != b]
        on = [(a, b) for a, b in pairs if a in p and b in p]
        off = [x for x in pairs if x not in on]
        for a, b in on[:30] + rng.sample(off, min(4, len(off))):
            with mon.sut("blocks between stations"):
                bl, rev = df.get_blocks_b2win_station4train(tab, a, b, verbose=False)
            if a not in p or b not in p:
                want = ([], None)
            elif p.index(a) > p.index(b):
                want = ([], True)
            else:
                want = (w.between(j, a, b), False)
            mon.equal("blocks between", (list(bl), rev), want, "%s train %s blocks %s..%s" % (w.label, j, a, b),
                      key=(tuple(w.blocks(j)), a, b) if want[1] is not None else None)
    for _ in range(25):
        if len(w.J) < 2:
            break
        j, jp = rng.sample(w.J, 2)
        with mon.sut("common stations"):
            cs = df.check_common_station(td, j, jp)
        common = [s for s in w.path(j) if s in w.path(jp)]
        mon.equal("common stations", sorted(cs), sorted(common), "%s trains %s %s common stations" % (w.label, j, jp),
                  key=(tuple(w.path(j)), tuple(w.path(jp))) if common else None)
        if len(common) < 2:
            continue
        a, b = rng.sample(common, 2)
        with mon.sut("common blocks"):
            got, direction = df.get_common_blocks_and_direction_b2win_trains(td, j, jp, a, b)

        def between(t):
            p = w.path(t)
            return (w.between(t, a, b), False) if p.index(a) < p.index(b) else (w.between(t, b, a), True)
        b1, r1 = between(j)
        b2, r2 = between(jp)
        want = [x for x in b1 if x in b2]
        if r1 != r2:
            mon.ev("opposite pairs")
        if want and want != b1:
            mon.ev("partial overlap")
        mon.equal("common blocks", list(got), want, "%s trains %s %s common blocks %s..%s" % (w.label, j, jp, a, b),
                  key=(tuple(b1), tuple(b2)) if want else None)
        mon.equal("direction", direction, "same" if r1 == r2 else "opposite", "%s trains %s %s direction %s..%s" % (w.label, j, jp, a, b),
                  key=(tuple(w.path(j)), tuple(w.path(jp)), a, b))


def work(job, mon):
    workload.each(job, mon, one)

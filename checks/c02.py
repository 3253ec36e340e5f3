"""C02 Every block of a route gets its own running time and station."""
from vp import core, pipe, sut, workload, world

RULE = ("one observation = one block entry of one train (or one network row queried directly), its attached time and "
        "station compared with the network and station tables; distinct by (block, next block, class, time, station)")
NEED = {"there and back": 40, "moves repeated": 40, "judged:running time": 1500, "judged:station": 1500, "judged:row lookup": 400, "reverse rows": 200, "mixed trains": 10, "times in hundredths": 500}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 60 if tier == "quick" else 1500
    return workload.jobs(rng, range(7), gen=n, walk=n // 2, batch=6)


def check_table(w, mon, j, tab):
    bl, tm = w.blocks(j), w.times(j)
    got_t, got_s = tab["passing_time"].tolist(), tab["important_station"].tolist()
    rows = w.by[j]["rows"]
    if len(set(r["speed"] for _, r in rows)) > 1:
        mon.ev("mixed trains")
    if not mon.expect("length", len(got_t) == len(bl) == len(got_s), "%s train %s: annotation has another length" % (w.label, j)):
        return
    for i, b in enumerate(bl):
        nb = bl[i + 1] if i + 1 < len(bl) else None
        sp = rows[i][1]["speed"]
        if nb is None:
            mon.expect("last block", core.isnan(got_t[i]) or got_t[i] is None,
                       "%s train %s: last block %s has time %r" % (w.label, j, b, got_t[i]), key=(b, sp))
        else:
            mon.equal("running time", got_t[i], tm[i], "%s train %s block %s -> %s (%s)" % (w.label, j, b, nb, sp),
                      key=(b, nb, sp, tm[i]), tol=1e-9)
        mon.equal("station", got_s[i], w.station_of.get(b), "%s train %s block %s station" % (w.label, j, b),
                  key=(b, w.station_of.get(b)))


def shuttles(w, rng):
    """trains that turn round on their way, once or twice, or start anywhere"""
    out = world.World()
    out.rows, out.stations, out.label = w.rows, w.stations, "turning trains of " + w.label
    if hasattr(w, "df"):
        out.df = w.df
    for j in rng.sample(w.J, min(4, len(w.J))):
        bl = w.blocks(j)
        route = list(bl[rng.randrange(0, max(1, len(bl) - 2)):])
        for _ in range(rng.choice([1, 1, 2])):
            back = route[::-1][1:rng.randrange(2, 8)]
            k = 0
            while k < len(back) and None not in w.pair.get(((route + back)[len(route) + k - 1], back[k]), (None,))[:2]:
                k += 1
            route += back[:k]
        cls = [rng.choice(["IC", "R"])] * len(route) if rng.random() < .6 else [rng.choice(["IC", "R"]) for _ in route]
        out.trains.append({"number": j, "type": "KS - Os", "name": "S1", "origin": "from A", "dest": "to B",
                           "rows": [(b, dict(world._blank(), speed=c)) for b, c in zip(route, cls)]})
    return out.index()


def one(w, mon, rng):
    net = sut.network(w)
    with mon.sut("annotating the timetables", detail=w.csv_text()[:3000]):
        td = sut.train_dict(w)
    for j in w.J:
        check_table(w, mon, j, td[j][1])
    with mon.sut("building timetables"):
        if getattr(w, "csv_path", None):
            td = sut.hp.build_timetables(w.csv_path, False, w.stations, net)
        else:
            td = sut.via_helpers(w)
    for j in w.J:
        check_table(w, mon, j, td[j][1])
    if not getattr(w, "csv_path", None):
        fine = pipe.finer(w, rng)
        with mon.sut("annotating with times in fractions"):
            td = sut.train_dict(fine)
        for j in fine.J:
            check_table(fine, mon, j, td[j][1])
        mon.ev("times in hundredths", sum(round(x, 1) != x for j in fine.J for x in fine.times(j) if x is not None and x == x))
    turn = shuttles(w, rng)
    with mon.sut("annotating trains that turn round", detail=turn.csv_text()[:3000]):
        tt = sut.train_dict(turn)
    for j in turn.J:
        bl = turn.blocks(j)
        mv = list(zip(bl, bl[1:]))
        mon.ev("there and back", any((b, a) in mv[:i] for i, (a, b) in enumerate(mv)))
        mon.ev("moves repeated", len(mv) - len(set(mv)))
        check_table(turn, mon, j, tt[j][1])
    # direct questions
    j = rng.choice(w.J)
    with mon.sut("running times of a train"):
        got = sut.df.passing_times_4blocks(td[j][1], net)
    want = list(w.times(j))
    mon.equal("times list", list(got), [float("nan") if x is None else x for x in want], "%s train %s times" % (w.label, j),
              key=(w.label, j, want), tol=1e-9)
    rows = w.rows if len(w.rows) <= 40 else rng.sample(w.rows, 40)
    for r in rows:
        a, b = r["previous_block"], r["next_block"]
        for x, y in ((a, b), (b, a)):
            for k, sp in ((0, "IC"), (1, "R")):
                v = w.pair[(x, y)][k]
                if v is None:
                    continue            # marked as impossible
                with mon.sut("running time of a move"):
                    got = sut.df.single_passing_time([x, y, sp], net)
                if (x, y) == (b, a):
                    mon.ev("reverse rows")
                mon.equal("row lookup", got, v, "%s move %s -> %s (%s)" % (w.label, x, y, sp), key=(x, y, sp, v), tol=1e-9)


def work(job, mon):
    workload.each(job, mon, one)

"""C01 Timetable files are read completely and faithfully."""
from vp import core, sut, workload, world

RULE = ("one observation = one train section (or one whole file) compared with an independent reader; distinct by the "
        "section's content; a section with no route rows would be trivial (none is generated)")
NEED = {"judged:section": 300, "judged:file": 40, "unlucky names": 20}
COLS = world.COLS


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 90 if tier == "quick" else 2500
    return workload.jobs(rng, range(7), gen=n, walk=n // 6, batch=6)


def cell_ok(got, text):
    if text == "":
        return got is None or core.isnan(got)
    if isinstance(got, str):
        return got == text
    v = world.num(text)
    return v is not None and not core.isnan(got) and float(got) == v


def table_ok(mon, w, t, tab, how):
    rows = t["rows"]
    probs = []
    if len(tab) != len(rows):
        probs.append("route has %d rows, section has %d" % (len(tab), len(rows)))
    else:
        if list(tab["path"]) != [b for b, _ in rows]:
            probs.append("blocks differ: %r" % list(tab["path"]))
        for c in COLS:
            if c not in tab.columns:
                probs.append("column %s lost" % c)
                continue
            for i, v in enumerate(tab[c].tolist()):
                if not cell_ok(v, rows[i][1][c]):
                    probs.append("row %d %s: %r instead of %r" % (i, c, v, rows[i][1][c]))
    mon.expect("section", not probs, lambda: "%s, train %s (%s): %s" % (w.label, t["number"], how, "; ".join(probs[:4])),
               key=(how, t["type"], t["name"], t["rows"]), sample="train %s: %d rows identical" % (t["number"], len(rows)))


def one(w, mon, rng):
    with mon.sut("reading a schedule", detail=w.csv_text()[:3000]):
        td = sut.df.timetable_to_train_dict(sut.read_frame(w))
    mon.expect("file", sorted(td) == sorted(w.J), lambda: "%s: trains %s read, file has %s" % (w.label, sorted(td), sorted(w.J)),
               key=w.csv_text())
    for n in getattr(w, "repeated", ()):
        mon.judge("repeated number", (w.label, n))
        mon.bad("lost section:%s:%s" % (w.label, n), "%s has several sections with train number %s, only one is read" % (w.label, n))
    for t in w.trains:
        if t["number"] not in td:
            continue
        info, tab = td[t["number"]][0], td[t["number"]][1]
        want = [t["type"], t["name"], t["origin"], t["dest"]]
        mon.equal("heading", list(info), want, "%s, train %s heading" % (w.label, t["number"]), key=(t["number"], want))
        table_ok(mon, w, t, tab, "read")
        with mon.sut("looking up a train"):
            tab2 = sut.df.train_time_table(td, t["number"])
            ad = sut.df.get_arrdep(tab2)
            vals = sut.df.get_arr_dep_vals(tab2)
        three = ["Arr", "Dep", "Approx_enter"]
        ok = list(ad.columns) == three and len(ad) == len(t["rows"]) and all(
            cell_ok(ad[c].tolist()[i], t["rows"][i][1][c]) for c in three for i in range(len(t["rows"])))
        mon.expect("times", ok, lambda: "%s, train %s: arrival/departure columns differ" % (w.label, t["number"]),
                   key=(t["number"], t["rows"]))
        want = [[c[k] for k in three] for _, c in t["rows"] if any(c[k] for k in three)]
        ok = len(vals) == len(want) and all(cell_ok(g, x) for a, b in zip(vals, want) for g, x in zip(a, b))
        mon.expect("stated times", ok, lambda: "%s, train %s: stated times %r instead of %r" % (w.label, t["number"], vals, want),
                   key=(t["number"], want))
    with mon.sut("building timetables", detail=w.csv_text()[:3000]):
        if getattr(w, "csv_path", None):
            td = sut.hp.build_timetables(w.csv_path, False, w.stations, sut.network(w))
        else:
            td = sut.via_helpers(w)
    mon.expect("file", sorted(td) == sorted(w.J), lambda: "%s: trains %s built, file has %s" % (w.label, sorted(td), sorted(w.J)),
               key=("built", w.csv_text()))
    for t in w.trains:
        if t["number"] in td:
            table_ok(mon, w, t, td[t["number"]][1], "built")


UNLUCKY = ("Toszek 1", "Tenczynek %d", "TO %d", "Te", "Terminal %d", "From yard %d", "FROM", "Departures %d", "Depot %d", "12a%d", "7-%d", "%d.5", "-%d", "x to %d", "not from %d",
           "Łazy %d", "R", "IC", "16:%02d", "#%d", "### %d", "KS - Os", "S1", "t%d", "fro %d", "dep %d")


def unlucky(w, rng):
    """the same file with names that resemble other lines of a section"""
    line = sorted({b for t in w.trains for b, _ in t["rows"]} - {b for bl in w.stations.values() for b in bl})
    pool = [x % rng.randrange(60) if "%" in x else x for x in rng.sample(UNLUCKY, len(UNLUCKY))]
    pool = list(dict.fromkeys(pool))
    new = dict(zip(rng.sample(line, min(len(line), rng.choice([1, 3, 10, len(pool)]), len(pool))), pool))
    n = lambda b: new.get(b, b)
    v = world.World()
    v.label, v.stations = w.label + " with unlucky names", w.stations
    v.rows = [dict(r, previous_block=n(r["previous_block"]), next_block=n(r["next_block"])) for r in w.rows]
    v.trains = [dict(t, rows=[(n(b), c) for b, c in t["rows"]], name=rng.choice([t["name"], "Toszek", "Fromborg", "tele", "T 100", "#1"]),
                     origin=rng.choice([t["origin"], "from to", "from 12", "depart: Terespol"]), dest=rng.choice([t["dest"], "to from", "to 12", "terminates: departs later"]))
                for t in w.trains]
    return v.index()


def both(w, mon, rng):
    one(w, mon, rng)
    if w.label.startswith("generated"):
        mon.ev("unlucky names")
        one(unlucky(w, rng), mon, rng)


def work(job, mon):
    workload.each(job, mon, both)

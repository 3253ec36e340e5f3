"""C12 Times are measured in minutes from the reference time."""
from vp import core, sut, workload, world

RULE = ("one observation = one planned departure or starting condition, or one shifted pair of them; distinct by (clock time, "
        "reference time, station, source column)")
NEED = {"judged:departure": 400, "judged:start": 400, "before the reference": 100, "after the reference": 100,
        "from departure": 60, "from estimate": 60, "departure and estimate": 20, "judged:shift": 400}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 100 if tier == "quick" else 3000
    return workload.jobs(rng, range(7), gen=n, walk=n // 2, batch=6)


def one(w, mon, rng):
    df = sut.df
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    mid = world.minutes(rng.choice([c[k] for t in w.trains for _, c in t["rows"] for k in ("Dep", "Approx_enter", "Arr") if c[k]] or ["12:00"]))
    refs = ["16:00", "14:00", world.hhmm(mid), world.hhmm(min(23 * 60 + 59, mid + rng.randrange(1, 90))), world.hhmm(max(0, mid - rng.randrange(1, 90)))]
    refs += ["00:00", "23:59"]
    rng.shuffle(refs)
    base = None
    for ref in refs[:4]:
        with mon.sut("schedule"):
            sch = df.get_schedule(td, ref)
            ini = df.get_initial_conditions(td, ref)
        ws, wi = w.ref_schedule(ref), w.ref_initial(ref)
        if set(sch) != set(ws):
            mon.bad("departure keys", "%s: %s" % (w.label, core.diff(sch, ws)))
        if set(ini) != set(wi):
            mon.bad("start keys", "%s: %s" % (w.label, core.diff(ini, wi)))
        for k, v in ws.items():
            if k in sch:
                mon.ev("before the reference" if v < 0 else "after the reference")
                mon.equal("departure", sch[k], v, "%s departure %s from %s" % (w.label, k, ref), key=(k.split("_")[1], v, ref), tol=1e-9)
        for j in w.J:
            s, i = w.stops(j)[0]
            k = "%s_%s" % (j, s)
            if k in ini:
                if w.cell(j, i, "Dep") and w.cell(j, i, "Approx_enter"):
                    mon.ev("departure and estimate")
                mon.ev("from departure" if w.cell(j, i, "Dep") else "from estimate" if w.cell(j, i, "Approx_enter") else "no time given")
                mon.equal("start", ini[k], wi[k], "%s start %s from %s" % (w.label, k, ref), key=(s, wi[k], ref), tol=1e-9)
        if base is not None:
            d = world.minutes(base[0]) - world.minutes(ref)
            for name, old, new in (("departure", base[1], sch), ("start", base[2], ini)):
                for k in old:
                    j, s = k.split("_", 1)
                    i = w.stops(int(j))[0][1]
                    if name == "start" and not (w.cell(int(j), i, "Dep") or w.cell(int(j), i, "Approx_enter")):
                        continue
                    mon.equal("shift", new.get(k), old[k] + d, "%s %s %s after moving the reference %s -> %s" % (w.label, name, k, base[0], ref),
                              key=(name, old[k], d), tol=1e-9)
        base = (ref, sch, ini)
    if len(w.J) <= 6:
        ref = refs[0]
        with mon.sut("assembling the timetable"):
            skip = df.get_skip_stations(td)
            tt = sut.hp.make_timetable(td, w.stations, skip, ref)
        mon.equal("assembled departures", dict(tt["schedule"]), w.ref_schedule(ref), w.label, key=(w.label, ref), tol=1e-9)
        mon.equal("assembled starts", dict(tt["initial_conditions"]), w.ref_initial(ref), w.label, key=(w.label, ref), tol=1e-9)


def work(job, mon):
    workload.each(job, mon, one)

"""C32 Bundled tables and schedules describe one network."""
import os
import random
import shutil

from vp import core, prog, sut, world

RULE = ("one observation = one listed track, one probe train over a listed track, one move or planned time of a bundled train, or one table made anew by its script; distinct by "
        "(table or schedule, track, move)")
NEED = {"judged:track of the network": 120, "judged:one station per track": 120, "judged:track of its station": 90, "judged:probe train": 400, "judged:made by its script": 4,
        "judged:planned time": 800, "judged:move has a time": 3000, "judged:route unbroken": 200, "judged:calls at a station": 200, "judged:station called at once": 200,
        "tables": 4, "schedules": 7}
TABLES = ("important_stations", "important_stations_Gt", "KO_GLC/important_stations_KO_GLC", "KO_GLC/important_stations_KO_GLC_R")


def setup():
    sut.load()
    world.read_network()


def jobs(tier, rng):
    n = 6 if tier == "quick" else 60
    return ([{"table": t, "n": n, "seed": rng.randrange(10 ** 9)} for t in TABLES] + [{"schedule": k} for k in range(len(world.BUNDLED))])


def first(block):
    return block.split(",")[0].strip().strip('"')


def others(d):
    """the tables beside the scripts"""
    os.makedirs(d)
    for x in TABLES:
        shutil.copy("/repo/data/%s.npz" % x, d)


def table(job, mon):
    name = job["table"]
    rng = random.Random(job["seed"])
    mon.ev("tables")
    with mon.sut("loading a station table", detail=name):
        tab = sut.hp.load_important_stations("/repo/data/%s.npz" % name)
    # what its script makes
    with prog.scratch(others):
        f = os.path.basename(name) + ".npz"
        os.chdir("data")
        os.unlink(f)
        prog.run("data/%s.py" % name, [], mon)
        if mon.expect("table written", os.path.exists(f), "%s: the script writes no %s (but %s)" % (name, f, sorted(os.listdir("."))), key=name, mech="table written"):
            with mon.sut("loading a station table", detail=name):
                made = sut.hp.load_important_stations("./" + f)
            diff = sorted(s for s in set(made) | set(tab) if sorted(made.get(s, ())) != sorted(tab.get(s, ())))
            mon.expect("made by its script", not diff, lambda: "%s: script and table differ at %s" % (name, [(s, made.get(s), tab.get(s)) for s in diff[:3]]), key=(name, len(tab)), mech="script")
    net, rows = world.read_network()
    with mon.sut("loading the network"):
        got = sut.hp.load_data_paths("/repo/data/network_paths.ods")
    if len(got) != len(rows):
        raise core.HarnessGap("the network table is read differently")
    go = {}
    for r in rows:
        a, b = r["previous_block"], r["next_block"]
        for x, y, c in ((a, b, "A-B"), (b, a, "B-A")):
            sp = [k for k, col in (("R", "time_regional_train_"), ("IC", "time_inter_city_")) if world.num(r[col + c]) is not None]
            if sp:
                go.setdefault(x, []).append((y, sp))
    into = {}
    for x, ys in go.items():
        for y, sp in ys:
            into.setdefault(y, []).append((x, sp))
    blocks = {r[c] for r in rows for c in ("previous_block", "next_block")}
    at = {}
    for s, tracks in tab.items():
        for b in tracks:
            at.setdefault(b, []).append(s)
    for b, ss in sorted(at.items()):
        mon.expect("track of the network", b in blocks, "%s: %s of %s is no block of the network" % (name, b, ss[0]), key=(name, b), sample="%s: %s" % (ss[0], b), mech="no such block")
        mon.expect("one station per track", len(ss) == 1, "%s: %s listed at %s" % (name, b, ss), key=(name, b), mech="two stations")
        if first(b) in tab:
            mon.expect("track of its station", ss[0] == first(b) or ss[0].startswith(first(b) + "("), "%s: %s listed at %s" % (name, b, ss[0]), key=(name, b), mech="other station")
        # trains over the track
        ways = [(x, y) for x, s1 in into.get(b, ()) for y, s2 in go.get(b, ()) if x != y and "R" in s1 and "R" in s2]
        rng.shuffle(ways)
        for x, y in ways[:job["n"]]:
            want = []
            for z in (x, b, y):
                want += at.get(z, [])[:1]
            if len(set(want)) < len(want):
                continue
            nan = float("nan")
            d = sut.pd.DataFrame({"path": [x, b, y], "speed": ["R"] * 3, "Arr": [nan] * 3, "Dep": ["16:00", "16:05", nan], "Approx_enter": [nan] * 3, "Label": [nan] * 3,
                                  "Shunting": [nan] * 3, "Turnaround_time_minutes": [nan] * 3})
            td = {1: [["KS - Os", "S1", "from", "to"], d]}
            what = "%s: train over %s, %s, %s" % (name, x, b, y)
            with mon.sut("following a train over a listed track", detail=what):
                sut.df.check_path_continuity([x, b, y], net[["previous_block", "next_block"]])
                td = sut.df.update_all_timetables(td, net, tab)
                calls = sut.df.get_Paths(td)[1]
                here = [s for s, js in sut.df.get_trains_at_station(td, tab).items() if js]
                track = sut.df.blocks_list_4station(td[1][1], at[b][0], tab) if calls == want else None
            mon.expect("probe train", calls == want and sorted(here) == sorted(want) and track == [b], "%s: calls %s, listed at %s, track %s; the table says %s" % (what, calls, here, track, want),
                       key=(name, x, b, y), mech="probe")


def schedule(job, mon):
    w = world.bundled(job["schedule"])
    mon.ev("schedules")
    with mon.sut("building the timetables of a bundled schedule", detail=w.label):
        net = sut.hp.load_data_paths("/repo/data/network_paths.ods")
        tab = sut.hp.load_important_stations(w.npz_path)
        td = sut.hp.build_timetables(w.csv_path, False, tab, net)
    for j, (_, d) in td.items():
        path = d["path"].tolist()
        try:
            sut.df.check_path_continuity(path, net[["previous_block", "next_block"]])
            ok, why = True, ""
        except AssertionError as e:
            ok, why = False, str(e)
        mon.expect("route unbroken", ok, "%s train %s: %s" % (w.label, j, why), key=(w.label, j), mech="route")
        for i, t in enumerate(d["passing_time"].tolist()[:-1]):
            mon.expect("move has a time", t == t and t > 0, "%s train %s: no running time from %s to %s (%r)" % (w.label, j, path[i], path[i + 1], t), key=(path[i], path[i + 1], t), mech="no time")
        with mon.sut("stations of a train", detail="%s %s" % (w.label, j)):
            calls = sut.df.train_important_stations(d)
        mon.expect("calls at a station", bool(calls), "%s train %s calls at no station" % (w.label, j), key=(w.label, j), mech="no station")
        mon.expect("station called at once", len(set(calls)) == len(calls), "%s train %s calls at %s" % (w.label, j, calls), key=(w.label, j, tuple(calls)), mech="station twice")
        last = None
        for b, *ts in zip(path, d["Approx_enter"].tolist(), d["Arr"].tolist(), d["Dep"].tolist()):
            for t in ts:
                if not isinstance(t, str):
                    continue
                m = world.minutes(t)
                mon.expect("planned time", last is None or m >= last, "%s train %s: planned %s at %s after %s" % (w.label, j, t, b, last and world.hhmm(last)), key=(w.label, j, b, t), mech="backwards")
                last = m


def work(job, mon):
    if "table" in job:
        table(job, mon)
    else:
        schedule(job, mon)

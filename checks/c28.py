"""C28 Train diagrams show the stored timetable at the right place and time."""
import glob
import importlib
import os
import pickle
import random
import re
import sys
from datetime import datetime, timedelta

from vp import core, prog

RULE = ("one observation = one drawn or listed train path of a stored timetable, or one answer about a station or route on the lines, compared with the stored data; "
        "distinct by (timetable, segment, train, status)")
NEED = {"judged:path": 1500, "judged:listing": 800, "judged:drawn": 200, "judged:station": 25, "judged:route": 300, "judged:axis": 200, "asked for": 20, "over midnight": 10,
        "bundled": 20, "made": 120, "realisations": 40, "judged:position": 60}
DIR = "solutions_quantum/data4diagrams/"

# official distances (https://www.atlaskolejowy.net), callsigns as in the data
L137 = [("Katowice", "KO", .39), ("Katowice Towarowa KTC", "KTC", 2.91), ("Chorzów Batory", "CB", 6.16), ("Świętochłowice", "", 8.41), ("Ruda Chebzie", "RCB", 11.74),
        ("Ruda Śląska", "RŚl", 14.6), ("Zabrze", "ZZ", 18.92), ("Gliwice", "GLC", 27.10)]
L139 = [("Katowice", "KO", 0.), ("Katowice Brynów", "Bry", 3.88), ("Katowice Ligota", "KL", 6.08), ("Katowice Piotrowice", "KtP", 7.75), ("Katowice Podlesie", "", 11.35),
        ("Mąkołowiec", "Mc", 14.04), ("Tychy", "Ty", 16.97)]
L138 = [("Katowice Zawodzie", "KZ", 30.24), ("Katowice Stacja Manewrowa", "KO(STM)", 32.46), ("Katowice", "KO", 32.96)]
NAMES = {n: c for l in (L137, L138, L139) for n, c, _ in l}


def segment(*parts):
    """distances along lines put together: (line, reversed)"""
    out, at = [], 0.
    for line, rev in parts:
        seq = line[::-1] if rev else line
        start = seq[0][2]
        for n, c, km in seq[1 if out else 0:]:
            out.append((n, c, at + abs(km - start)))
        at = out[-1][2]
    return out


SEGMENTS = {"137139GLYTy": segment((L137, True), (L139, False)), "137138GLYKZ": segment((L137, True), (L138, True)), "138139KZTY": segment((L138, False), (L139, False))}
LINES = {"131": ["CB", "CM"], "137": ["KO", "KTC", "CB", "Świętochłowice", "RC", "RŚl", "Zz", "Gl"], "138": ["Kz", "KO"], "139": ["KO", "Bry", "KL", "KtP", "Katowice Podlesie", "Mc", "Ty"],
         "140": ["KL", "KtP", "MJ", "Mi"], "depot527": ["KO(STM)", "KO(IC)"], "depot200": ["KO", "KO(KS)"]}
FULL = {"CB": "Chorzów Batory", "CM": "Chorzów Miasto", "KO": "Katowice", "KTC": "Katowice Towarowa KTC", "RC": "Ruda Chebzie", "RŚl": "Ruda Śląska", "Zz": "Zabrze", "Gl": "Gliwice",
        "Kz": "Katowice Zawodzie", "Bry": "Katowice Brynów", "KL": "Katowice Ligota", "KtP": "Katowice Piotrowice", "Mc": "Mąkołowiec", "Ty": "Tychy", "MJ": "Mikołów Jamna", "Mi": "Mikołów",
        "KO(STM)": "Katowice Stacja Manewrowa", "KO(IC)": "Katowice Zawodzie Postojowa", "KO(KS)": "Katowice Raciborska"}


def where(st, seg):
    for n, c, km in SEGMENTS[seg]:
        if st.upper() in (n.upper(), c.upper()):
            return km
    return None


def jobs(tier, rng):
    q = tier == "quick"
    files = sorted(glob.glob("/repo/" + DIR + "*.pkl"))
    rng.shuffle(files)
    out = [{"what": "bundled", "files": files[i::5], "seed": rng.randrange(10 ** 9)} for i in range(5)]
    out += [{"what": "made", "n": 15, "seed": rng.randrange(10 ** 9)} for _ in range(10 if q else 200)]
    out += [{"what": "lines", "n": 400, "seed": rng.randrange(10 ** 9)} for _ in range(1 if q else 20)]
    return out


PLACES = [["GLC", "ZZ", "RCB", "CB", "KTC", "KO", "KO(STM)", "KZ"], ["KZ", "KO(STM)", "KO", "KL", "Mc", "Ty"], ["KZ", "KO(STM)", "KO", "Bry", "KL", "KtP", "Mc", "Ty"], ["GLC", "ZZ", "RCB", "CB", "KO", "KL", "Ty"],
          ["KO(IC)", "KO(STM)", "KO", "KL", "MJ", "Mi"], ["KO(KS)", "KO", "CB", "CM"], ["KO(IC)", "KO(STM)", "KO"], ["CM", "CB", "RCB"], ["kz", "ko", "kl", "Ty"], ["Gliwice", "Zabrze", "Katowice", "Tychy"]]


def made(rng):
    """a timetable as the programs store it"""
    out = {}
    for _ in range(rng.randint(1, 7)):
        route = list(rng.choice(PLACES))
        if rng.random() < .5:
            route = route[::-1]
        a = rng.randrange(len(route))
        b = rng.randint(a + 1, len(route))
        route = route[a:b] if rng.random() < .6 else route
        t = c = datetime(2020, 1, 1, rng.choice([5, 9, 16, 22, 23]), rng.randrange(60))
        tr = {}
        for i, s in enumerate(route):
            e = {}
            if i:
                t += timedelta(minutes=rng.choice([1, 2, 3, 5, 9, 30, rng.choice([0, 1])]))
                c += timedelta(minutes=rng.choice([1, 2, 3, 5, 9, 20, rng.choice([0, 1])]))
                e["arrive"], e["conflicted_arrive"] = t, c
            if i + 1 < len(route) or rng.random() < .4:
                t += timedelta(minutes=rng.choice([0, 1, 1, 4, 12]))
                c += timedelta(minutes=rng.choice([0, 1, 1, 4]))
                e.update({"departure": t, "secondary delay": rng.randint(0, 9), "conflicted_departure": c, "impact_to_objective": rng.random()})
            tr[s] = e
        num = rng.choice([rng.randint(1, 99), rng.randint(1000, 999999), "Ks%d" % rng.randint(1, 9)])
        out.setdefault(num, tr)
    return out


def points(tr, status):
    pre = "" if status == "resolved" else "conflicted_"
    out = []
    for s, e in tr.items():
        for k in ("arrive", "departure"):
            if pre + k in e:
                out.append((s, k, e[pre + k]))
    return out


def diagram(args, tt, seg, fixed, label, mon, rng):
    text, _ = prog.run(DIR + "echo_gnuplot_file.py", args, mon)
    blocks = {n: body.split("\n")[:-1] for n, body in re.findall(r"^\$(\w+) << EOD\n(.*?)^EOD$", text, re.S | re.M)}
    colour = dict(re.findall(r'set style line (\d+) lt rgb "(\w+)"', text))
    plots = text.rsplit(" plot ", 1)[-1] if " plot " in text else ""
    drawn = []
    for part in plots.split("$")[1:]:
        name = re.match(r"\w+", part).group(0)
        if "with lines" in part:
            ls = re.search(r"ls (\d+)", part)
            drawn.append([{"green": "resolved", "red": "conflicted"}.get(colour.get(ls.group(1))) if ls else None, blocks.get(name), None])
        elif "with labels" in part and drawn:
            drawn[-1][2] = blocks.get(name)
    want = []
    for n, tr in tt.items():
        on = [s for s in tr if where(s, seg) is not None and s.upper() not in ("KO", "KO(STM)")]
        if len(on) >= 2 or str(n) in fixed:
            if len(on) < 2:
                mon.ev("asked for")
            want += [(n, st, tr) for st in ("resolved", "conflicted")]
    ok = mon.expect("drawn", len(drawn) == len(want), "%s: %s paths drawn, %s expected" % (label, len(drawn), len(want)), key=(label, seg, tuple(sorted(map(str, fixed)))), detail=args)
    # the scale
    xr = re.search(r"set xrange \[([\d.]+):([\d.]+)\]", text)
    tics = re.findall(r'"([^"]*)" ([\d.]+)', (re.search(r"set xtics \((.*)\)", text) or [0, ""])[1])
    if xr is None:
        mon.expect("axis", False, "%s: no range" % label)
    else:
        ok2 = abs(float(xr.group(1))) < .02 and abs(float(xr.group(2)) - SEGMENTS[seg][-1][2]) < .02 and len(tics) >= 2 and all(
            where(c.replace("RSl", "RŚl"), seg) is not None and abs(where(c.replace("RSl", "RŚl"), seg) - float(k)) < .02 for c, k in tics)
        mon.expect("axis", ok2, "%s: range %s and marks %s do not lie along %s" % (label, xr.groups(), tics, seg), key=(label, seg, len(tics)))
    if not ok:
        return
    left = list(drawn)
    for n, st, tr in want:
        pts = [(where(s, seg), t, s) for s, _, t in points(tr, st) if where(s, seg) is not None]
        if pts and pts[-1][1].day != pts[0][1].day:
            mon.ev("over midnight")
        hit = None
        for d in left:
            if d[0] == st and d[1] is not None and same_points(d[1], pts) and labels_ok(d[2], tr, st, seg, n):
                hit = d
                break
        mon.expect("path", hit is not None, lambda: "%s: %s path of train %s is not drawn on %s; stored %s; drawn %s" % (
            label, st, n, seg, [(s, round(k, 2), t.strftime("%H:%M")) for k, t, s in pts], [d for d in left if d[0] == st][:3]), key=(label, seg, str(n), st), sample="%s %s on %s: %s points" % (n, st, seg, len(pts)), detail=args)
        if hit is not None:
            left.remove(hit)


def same_points(lines, pts):
    if len(lines) != len(pts):
        return False
    for l, (km, t, _) in zip(lines, pts):
        w = l.split()
        if len(w) != 2 or abs(float(w[0]) - km) > .02 or w[1] != t.strftime("%H:%M"):
            return False
    return True


def labels_ok(lines, tr, st, seg, n):
    """one label with the train's number halfway between neighbouring drawn stations"""
    if lines is None:
        return False
    want, prev = [], None
    for s, k, t in points(tr, st):
        km = where(s, seg)
        if km is None:
            continue
        if k == "arrive" and prev:
            want.append(((prev[0] + km) / 2, prev[1] + (t - prev[1]) / 2))
        if k == "departure":
            prev = (km, t)
    if len(lines) != len(want):
        return False
    for l, (km, t) in zip(lines, want):
        w = l.split()
        near = {(t + timedelta(minutes=d)).strftime("%H:%M") for d in (0, .5)}
        if len(w) != 3 or w[2] != str(n) or abs(float(w[0]) - km) > .02 or w[1] not in near:
            return False
    return True


STAMP = re.compile(r"\d{4}-\d\d-\d\d(?: \d\d:\d\d:\d\d)?|NaT|None|NaN")


def listing(args, tt, label, mon):
    text, _ = prog.run(DIR + "read_quantum_pickle.py", args, mon)
    got = {}
    cur = None
    for line in text.splitlines():
        m = re.match(r"^(\S+) / (\S+)$", line)
        if m:
            cur = got.setdefault(m.groups(), [])
        elif cur is not None and re.match(r"^\d+ ", line):
            ts = STAMP.findall(line)
            head = line[:line.index(ts[0])] if ts else line
            cur.append((" ".join(head.split()[1:]), [stamp(x) for x in ts]))
    for n, tr in tt.items():
        for st in ("resolved", "conflicted"):
            pre = "" if st == "resolved" else "conflicted_"
            want = [(s, [e.get(pre + "arrive"), e.get(pre + "departure")]) for s, e in tr.items()]
            g = got.get((str(n), st))
            mon.expect("listing", g == want, lambda: "%s: listing of the %s path of train %s is %s, stored %s" % (label, st, n, g, want), key=(label, str(n), st, "list"), detail=args)


def stamp(x):
    if x in ("NaT", "None", "NaN"):
        return None
    return datetime.strptime(x, "%Y-%m-%d %H:%M:%S" if " " in x else "%Y-%m-%d")


def show(path, data, runs, label, mon, rng):
    segs = list(SEGMENTS)
    for r in runs:
        tt = data[r] if r is not None else data
        if r is not None:
            mon.ev("realisations")
        for seg in segs if rng.random() < .5 else [rng.choice(segs)]:
            some = [str(n) for n in tt if rng.random() < .2]
            args = [path] + (["--segment", seg] if seg != "137138GLYKZ" or rng.random() < .5 else []) + (["--realisation", r] if r is not None and (r != 1 or rng.random() < .5) else [])
            args += ["--fixedtrains", ",".join(some)] if some else []
            if rng.random() < .3:
                args += ["--epsfile", "x.eps"] + (["--epsbw"] if rng.random() < .5 else [])
            diagram(args, tt, seg, set(some), "%s %s" % (label, r), mon, rng)
        listing([path] + ([r] if r is not None else []), tt, "%s %s" % (label, r), mon)


def lines(job, mon):
    rng = random.Random(job["seed"])
    sys.path.insert(0, "/repo/" + DIR)
    rl = importlib.import_module("railway_lines")
    every = sorted(set(FULL) | set(FULL.values()) | {"Świętochłowice", "Katowice Podlesie", "nowhere"})

    def on(st):
        return {(l, i) for l, seq in LINES.items() for i, c in enumerate(seq) if st in (c, FULL.get(c, c))}
    for st in every:
        with mon.sut("station on lines"):
            got = rl.station_on_lines(st)
        mon.expect("station", set(got) == on(st) and len(got) == len(set(got)), lambda: "%s lies on %s, expected %s" % (st, got, on(st)), key=st)
    for _ in range(job["n"]):
        route = [rng.choice(every) for _ in range(rng.randint(0, 6))]
        ls = set(rng.sample(sorted(LINES), rng.randint(1, 7)))
        with mon.sut("route on lines"):
            got = [set(x) for x in rl.route_on_lines(route, rng.choice([ls, list(ls), tuple(ls)]))]
        want = [w for w in ({x for x in on(s) if x[0] in ls} for s in route) if w]
        mon.expect("route", got == want, lambda: "route %s on %s: %s, expected %s" % (route, sorted(ls), got, want), key=(tuple(route), tuple(sorted(ls))))
        mon.ev("routes")
    for seg in SEGMENTS:
        for n, c, km in SEGMENTS[seg]:
            for st in [n, n.upper()] + ([c, c.lower()] if c and c != "RŚl" else []):
                with mon.sut("distance along a segment"):
                    got = rl.station2km(st, seg)
                    yes, no = rl.station_on_segment(st, seg), rl.station_on_segment(st, seg, exceptions=[st])
                mon.expect("position", abs(got - km) < .02 and yes and not no, "%s lies at %s of %s (%s, %s), expected %s" % (st, got, seg, yes, no, km), key=(st, seg))
        for st in ("CM", "KO(IC)", "nowhere", "MJ"):
            with mon.sut("distance along a segment"):
                yes = rl.station_on_segment(st, seg)
                try:
                    got = rl.station2km(st, seg)
                except ValueError:
                    got = None
            mon.expect("position", not yes and got is None, "%s is not on %s, yet lies at %s" % (st, seg, got), key=(st, seg))


def work(job, mon):
    mon.job = job
    rng = random.Random(job["seed"])
    if job["what"] == "lines":
        return lines(job, mon)
    with prog.scratch():
        if job["what"] == "bundled":
            for f in job["files"]:
                with open(f, "rb") as h:
                    data = pickle.load(h)
                mon.ev("bundled")
                show(f, data, sorted(data) if "cqm" in f else [None], os.path.basename(f), mon, rng)
            return
        for i in range(job["n"]):
            kind = rng.choice(["lp", "cqm", "bqm", "sim", "real"])
            data = made(rng) if kind == "lp" else {k: made(rng) for k in range(1, rng.randint(2, 5))}
            name = {"lp": rng.choice(["PULP_CBC_CMD", "CPLEX_CMD", "GUROBI_CMD"]), "cqm": "cqm5", "bqm": "bqm20_2.5", "sim": "sim_2.5", "real": "real_1.0"}[kind] + "_case%d_%s.pkl" % (i % 10, rng.choice(["Integer", "Continuous"]))
            with open(name, "wb") as h:
                pickle.dump(data, h)
            mon.ev("made")
            show(name, data, sorted(data) if kind != "lp" else [None], "%s %s %s" % (name, job["seed"], i), mon, rng)

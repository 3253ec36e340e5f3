"""Schedules and networks with an independent reading of what they mean.

World: network pairs, station table and trains, either read from the bundled files
(with readers of our own) or generated from a seed.  Nothing here imports code of
/repo; `ref_*` methods are written from the documentation of the file formats.
"""
import csv
import io
import math
import os
import random
import re

REPO = "/repo"
DATA = os.path.join(REPO, "data")
COLS = ["speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]
DEPOT_STATIONS = ("KO(KS)", "KO(IC)")
DEPOT_BLOCKS = tuple('"KO", "ST-M", %d, "(N/A)"' % n for n in (1114, 1113, 1118))
SIMPLE_SECTIONS = (frozenset(("KO(STM)", "KZ")), frozenset(("CB", "CM")), frozenset(("KTC-CB", "via Gt")))
TYPES = ["KS - Os", "PR - R", "KS - OsP", "IC - TLK", "IC - IC", "IC - EIP", "IC - EIC"]
TYPE_CLASS = {"KS - Os": "stopping", "PR - R": "stopping", "KS - OsP": "stopping", "IC - TLK": "fast",
              "IC - IC": "fast", "IC - EIP": "express", "IC - EIC": "express"}
BUNDLED = [
    ("trains_schedules.csv", "important_stations.npz"),
    ("trains_schedules_Gt.csv", "important_stations_Gt.npz"),
    ("trains_schedules_1track.csv", "important_stations.npz"),
    ("trains_schedules_1track_Gt.csv", "important_stations_Gt.npz"),
    ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC_v2.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
    ("KO_GLC/trains_schedules_KO_RCB_ZZ_GLC.csv", "KO_GLC/important_stations_KO_GLC_R.npz"),
    ("KO_GLC/trains_schedules_KO_GLC.csv", "KO_GLC/important_stations_KO_GLC.npz"),
]


def switch_set(cell):
    """switch numbers named in a cell of the network table"""
    if cell is None or cell != cell:
        return frozenset()
    if isinstance(cell, float):
        if cell == int(cell):
            # a spreadsheet turns "12,0" as well as "12" into 12.0: left out by the generator
            return frozenset(int(x) for x in repr(cell).split("."))
        return frozenset(int(x) for x in repr(cell).split("."))
    return frozenset(int(x) for x in re.findall(r"\d+", str(cell)))


def minutes(t):
    h, m = t.split(":")
    return 60 * int(h) + int(m)


def num(x):
    try:
        v = float(x)
    except (TypeError, ValueError):
        return None
    return None if v != v else v


class World:
    """trains: list of dicts number,type,name,origin,dest,rows[(block, {col: text})]"""

    def __init__(self):
        self.rows = []          # network rows: dict column -> cell
        self.stations = {}      # station -> list of blocks
        self.trains = []
        self.text = None
        self.label = ""
        self.features = set()

    # -- indices ---------------------------------------------------------
    def index(self):
        self.pair = {}
        for r in self.rows:
            a, b = r["previous_block"], r["next_block"]
            sw = switch_set(r["switches"])
            self.pair[(a, b)] = (num(r["time_inter_city_A-B"]), num(r["time_regional_train_A-B"]), sw)
            self.pair[(b, a)] = (num(r["time_inter_city_B-A"]), num(r["time_regional_train_B-A"]), sw)
        self.station_of = {}
        for s, bl in self.stations.items():
            for b in bl:
                self.station_of.setdefault(b, s)
        self.by = {t["number"]: t for t in self.trains}
        self.J = [t["number"] for t in self.trains]
        self._route = {}
        for t in self.trains:
            bl = [b for b, _ in t["rows"]]
            tm = []
            for i, b in enumerate(bl):
                if i + 1 < len(bl):
                    p = self.pair.get((b, bl[i + 1]))
                    v = None if p is None else (p[0] if t["rows"][i][1]["speed"] == "IC" else p[1])
                else:
                    v = None
                tm.append(v)
            st = [(self.station_of.get(b), i) for i, b in enumerate(bl)]
            st = [(s, i) for s, i in st if s is not None]
            self._route[t["number"]] = (bl, tm, st)
        return self

    def blocks(self, j):
        return self._route[j][0]

    def times(self, j):
        """running time of each block, None for the last one"""
        return self._route[j][1]

    def stops(self, j):
        """[(station, position in the route)]"""
        return self._route[j][2]

    def path(self, j):
        return [s for s, _ in self._route[j][2]]

    def pos(self, j, s):
        for t, i in self._route[j][2]:
            if t == s:
                return i
        return None

    def next_station(self, j, s):
        p = self.path(j)
        if s not in p or p.index(s) == len(p) - 1:
            return None
        return p[p.index(s) + 1]

    def prev_station(self, j, s):
        p = self.path(j)
        if s not in p or p.index(s) == 0:
            return None
        return p[p.index(s) - 1]

    def between(self, j, s, s2):
        """blocks strictly between two stations of the route, in travel order"""
        a, b = self.pos(j, s), self.pos(j, s2)
        return self.blocks(j)[a + 1:b]

    def cell(self, j, i, col):
        v = self.by[j]["rows"][i][1][col]
        return None if v == "" else v

    def ends_at(self, j):
        """station in which the route ends, or None"""
        bl, _, st = self._route[j]
        return st[-1][0] if st and st[-1][1] == len(bl) - 1 else None

    def departing(self, s):
        return [j for j in self.J if s in self.path(j) and self.ends_at(j) != s]

    # -- reference derivations --------------------------------------------
    def ref_pass(self, j, s, s2):
        a, b = self.pos(j, s), self.pos(j, s2)
        return math.fsum(x for x in self.times(j)[a + 1:b] if x is not None)

    def turnaround(self, j, s):
        return num(self.cell(j, self.pos(j, s), "Turnaround_time_minutes"))

    def ref_taus(self, j):
        """(pass, stop, prep) of one train, unrounded"""
        tp, ts, tr = {}, {}, {}
        p = self.path(j)
        for k, s in enumerate(p):
            if k + 1 < len(p):
                tp["%s_%s_%s" % (j, s, p[k + 1])] = self.ref_pass(j, s, p[k + 1])
            t = self.turnaround(j, s)
            if k == 0 and t:
                tr["%s_%s" % (j, s)] = t
            if self.ends_at(j) == s:
                continue
            stay = self.times(j)[self.pos(j, s)] or 0.0
            if k > 0 and t:
                stay += t
            ts["%s_%s" % (j, s)] = stay
        return tp, ts, tr

    def same_section(self, j, jp, s, s2):
        return self.between(j, s, s2) == self.between(jp, s, s2)

    def ref_headway(self, j, jp, s, s2):
        """least h: jp entering h after j never enters a block that j has not cleared
        (k=1) or whose successor j has not cleared (k=2); block level simulation"""
        bl = self.between(j, s, s2)
        k = 1 if frozenset((s, s2)) in SIMPLE_SECTIONS else 2
        tj = self.block_times(j, s, s2)
        tjp = self.block_times(jp, s, s2)
        leave, t = [], 0.0
        for x in tj:
            t += x
            leave.append(t)
        enter, t = [], 0.0
        for x in tjp:
            enter.append(t)
            t += x
        h = None
        for i in range(len(bl)):
            clear = leave[min(i + k - 1, len(bl) - 1)]
            v = clear - enter[i]
            h = v if h is None else max(h, v)
        return 0.0 if h is None else h

    def block_times(self, j, s, s2):
        a, b = self.pos(j, s), self.pos(j, s2)
        return [x or 0.0 for x in self.times(j)[a + 1:b]]

    def sections(self):
        """{(s, s2): [trains going from s to the next station s2]}"""
        out = {}
        for j in self.J:
            p = self.path(j)
            for a, b in zip(p, p[1:]):
                out.setdefault((a, b), []).append(j)
        return out

    def ref_jd(self):
        out = {}
        for (s, s2), js in self.sections().items():
            groups = {}
            for j in js:
                groups.setdefault(tuple(self.between(j, s, s2)), []).append(j)
            out[(s, s2)] = set(frozenset(g) for g in groups.values())
        return out

    def ref_josingle(self):
        """set of ((s, s2), j, jp), j going s->s2; one orientation per pair: normalised"""
        out = set()
        sec = self.sections()
        for (s, s2), js in sec.items():
            for j in js:
                for jp in sec.get((s2, s), []):
                    if j != jp:
                        b = self.between(j, s, s2)
                        if b and b == self.between(jp, s2, s)[::-1]:
                            out.add(min(((s, s2), j, jp), ((s2, s), jp, j), key=str))
        return out

    def ref_jtrack(self):
        out = {}
        for s in self.stations:
            groups = {}
            if s not in DEPOT_STATIONS:
                for j in self.J:
                    i = self.pos(j, s)
                    if i is not None and self.blocks(j)[i] not in DEPOT_BLOCKS:
                        groups.setdefault(self.blocks(j)[i], []).append(j)
            out[s] = set(frozenset(g) for g in groups.values())
        return out

    def moves(self, j, s):
        """{'in': switches, 'out': switches} of train j at station s"""
        i = self.pos(j, s)
        bl = self.blocks(j)
        p = self.path(j)
        out = {"in": frozenset(), "out": frozenset()}
        if p[0] != s:
            out["in"] = self.pair[(bl[i - 1], bl[i])][2]
        if p[-1] != s:
            out["out"] = self.pair[(bl[i], bl[i + 1])][2]
        return out

    def ref_jswitch(self):
        """{s: set of frozenset({(j, move), (jp, move)})}"""
        out = {}
        for s in self.stations:
            res = set()
            if s not in DEPOT_STATIONS:
                js = [j for j in self.J if s in self.path(j)]
                mv = {}
                for j in js:
                    m = self.moves(j, s)
                    mv[j] = [(x, m[x]) for x in ("in", "out") if m[x] and not (
                        s == "KO(STM)" and (self.prev_station(j, s) if x == "in" else self.next_station(j, s)) == "KO")]
                for a in range(len(js)):
                    for b in range(a + 1, len(js)):
                        for x, sx in mv[js[a]]:
                            for y, sy in mv[js[b]]:
                                if sx & sy:
                                    res.add(frozenset(((js[a], x), (js[b], y))))
            out[s] = res
        return out

    def ref_pairs(self):
        return set((j, j * 10 + 9) for j in self.J if j * 10 + 9 in self.by)

    def ref_jround(self):
        out = {}
        for n, n9 in self.ref_pairs():
            a, b = self.blocks(n), self.blocks(n9)
            if a[-1] == b[0]:
                out.setdefault(self.station_of[b[0]], set()).add((n, n9))
            elif b[-1] == a[0]:
                out.setdefault(self.station_of[a[0]], set()).add((n9, n))
            else:
                return None
        return out

    def ref_schedule(self, ref):
        out = {}
        for j in self.J:
            for s, i in self.stops(j):
                d = self.cell(j, i, "Dep")
                if d is not None:
                    out["%s_%s" % (j, s)] = minutes(d) - minutes(ref)
        return out

    def ref_initial(self, ref):
        out = {}
        for j in self.J:
            s, i = self.stops(j)[0]
            d = self.cell(j, i, "Dep") or self.cell(j, i, "Approx_enter")
            out["%s_%s" % (j, s)] = 0 if d is None else minutes(d) - minutes(ref)
        return out

    def ref_weights(self, values):
        shunting = set(b for _, b in self.ref_pairs())
        out = {}
        for j in self.J:
            p = self.path(j)
            s = p[-2] if self.ends_at(j) else p[-1]
            w = values["empty"] if j in shunting else values[TYPE_CLASS[self.by[j]["type"]]]
            out["%s_%s" % (j, s)] = w
        return out

    # -- output ---------------------------------------------------------------
    def csv_text(self):
        if self.text is not None:
            return self.text
        out = io.StringIO()
        w = csv.writer(out, delimiter=";", lineterminator="\n")
        w.writerow([""] + COLS)
        e = [""] * len(COLS)
        for t in self.trains:
            for x in ("####", t["type"], str(t["number"]), t["name"], t["origin"]):
                w.writerow([x] + e)
            for b, c in t["rows"]:
                w.writerow([b] + [c[k] for k in COLS])
            w.writerow([t["dest"]] + e)
        return out.getvalue()

    def frame(self):
        import pandas as pd
        return pd.DataFrame(self.rows)

    def sub(self, numbers):
        """same infrastructure, only the given trains in the given order"""
        w = World()
        w.rows, w.stations, w.label = self.rows, self.stations, self.label
        w.trains = [self.by[n] for n in numbers]
        return w.index()


# ---------------------------------------------------------------------------
# bundled data, read without the code under test
_NET = None


def read_network():
    global _NET
    if _NET is None:
        import pandas as pd
        df = pd.read_excel(os.path.join(DATA, "network_paths.ods"), engine="odf")
        _NET = (df, df.to_dict("records"))
    return _NET


def read_csv_trains(text):
    """trains of a schedule file (own reader)"""
    rows = list(csv.reader(io.StringIO(text), delimiter=";"))
    head = rows[0]
    trains = []
    i = 1
    while i < len(rows):
        if rows[i] and rows[i][0].strip("#") == "" and rows[i][0].startswith("#"):
            t = {"type": rows[i + 1][0], "number": int(rows[i + 2][0]), "name": rows[i + 3][0],
                 "origin": rows[i + 4][0], "rows": []}
            i += 5
            while not (rows[i][0].startswith("to") or rows[i][0].startswith("te")):
                t["rows"].append((rows[i][0], dict(zip(head[1:], rows[i][1:]))))
                i += 1
            t["dest"] = rows[i][0]
            trains.append(t)
        i += 1
    return trains


def bundled(k):
    import numpy as np
    f, st = BUNDLED[k]
    w = World()
    w.label = f
    w.csv_path = os.path.join(DATA, f)
    w.npz_path = os.path.join(DATA, st)
    w.df, w.rows = read_network()
    w.stations = np.load(w.npz_path, allow_pickle=True)["arr_0"][()]
    with open(w.csv_path, encoding="utf8", errors="replace") as fh:
        w.text = fh.read()
    w.sections_read = read_csv_trains(w.text)
    # numbers are documented as unique; where a bundled file repeats one, the last section counts
    last = {t["number"]: t for t in w.sections_read}
    w.trains = [last[n] for n in last]
    w.repeated = sorted(n for n in last if sum(t["number"] == n for t in w.sections_read) > 1)
    return w.index()


# ---------------------------------------------------------------------------
# generated worlds

NAMES = ["KO", "KO(STM)", "KZ", "CB", "CM", "KL", "Ty", "MJ", "Mi", "GLC", "RCB", "ZZ", "KTC", "A", "AB", "S1", "S10", "Kob"]


def _time(rng):
    return rng.choice([0.3, 0.5, 0.7, 1.0, 1.2, 1.5, 2.0, 2.1, 2.5, 3.0, 3.4, 4.0, 0.0]) if rng.random() < .7 else round(rng.uniform(0.1, 6), 1)


def _cell_switch(rng, nums):
    """one of the ways in which the table writes a set of switches"""
    nums = list(nums)
    if not nums:
        return float("nan")
    if len(nums) == 1:
        return rng.choice([str(nums[0]), str(nums[0]), nums[0]])
    if len(nums) == 2 and rng.random() < .35 and nums[1] % 10 and nums[0] > 0:
        return float("%d.%d" % (nums[0], nums[1]))
    return rng.choice([",", ", "]).join(map(str, nums))


class Net:
    """infrastructure under construction"""

    def __init__(self, rng, n_st, opts):
        self.rng = rng
        self.opts = opts
        names = list(NAMES)
        if opts.get("names") == "plain":
            names = [n for n in names if n not in ("KO(STM)",)]
        rng.shuffle(names)
        names = names[:n_st]
        if opts.get("names") != "plain" and rng.random() < .6:
            for want in (["KO", "KO(STM)"] if n_st < 5 else ["KO", "KO(STM)", "KZ"]):
                if want not in names:
                    for k in range(len(names)):
                        if names[k] not in ("KO", "KO(STM)", "KZ"):
                            names[k] = want
                            break
        self.names = names
        self.tracks = {}
        self.rows = []
        self.edges = {}         # (a, b) -> list of block chains in a->b order
        self.outside = {}       # station -> list of outside blocks
        self.sw = {}
        self.adj = set()

    def row(self, a, b, nums):
        rng = self.rng
        if rng.random() < .5:
            a, b = b, a
        as_text = rng.random() < .8
        f = (lambda x: str(x)) if as_text else (lambda x: float(x))
        self.adj.add(frozenset((a, b)))
        r = {"previous_block": a, "next_block": b, "direction": "x",
             "default_A-B": rng.choice("YN"), "default_B-A": rng.choice("YN"),
             "switches": _cell_switch(rng, nums)}
        for c in ("time_inter_city_A-B", "time_regional_train_A-B", "time_inter_city_B-A", "time_regional_train_B-A"):
            r[c] = f(_time(rng))
        self.rows.append(r)

    def switches(self, s):
        """random set of switches of one station, some shared between rows"""
        rng = self.rng
        pool = self.sw.setdefault(s, [rng.randrange(1, 99) for _ in range(rng.choice([2, 4, 8]))])
        k = rng.choice([0, 1, 1, 2, 2, 3]) if self.opts.get("no_switch", True) else rng.choice([1, 1, 2, 2, 3])
        out = []
        for x in rng.sample(pool, min(k, len(pool))):
            if x not in out:
                out.append(x)
        return out

    def build(self):
        rng = self.rng
        for s in self.names:
            n = rng.choice([1, 2, 2, 3, 4])
            if s == "KO(STM)":
                nums = rng.sample([1113, 1114, 1118, 101, 102, 103], max(2, n))
                self.tracks[s] = ['"KO", "ST-M", %d, "(N/A)"' % x for x in nums]
            else:
                if rng.random() < .2:       # tracks that look like those of a depot or yard elsewhere
                    alike = ['"%s", "ST%s", %d, "(N/A)"' % (s, "" if s == "KO" else "-M", x) for x in (1113, 1114, 1118, 101)] + ['"%s", "ST", 1114, "(1)"' % s, '"%s", "B-M", 500, "(N/A)"' % s]
                    self.tracks[s] = rng.sample(alike, n)
                else:
                    self.tracks[s] = ['"%s", "ST", %d, "(%d)"' % (s, x, (x + 1) // 2) for x in rng.sample(range(1, 20), n)]
        # tree of lines
        order = list(self.names)
        if "KO" in order and "KO(STM)" in order:
            order.remove("KO(STM)")
            order.insert(order.index("KO") + 1, "KO(STM)")
        for i in range(1, len(order)):
            if order[i] == "KO(STM)" and "KO" in order[:i]:
                a = "KO"
            else:
                a = order[rng.randrange(max(0, i - 2), i)]
            self.edge(a, order[i])
        deg = {s: sum(s in e for e in self.edges) for s in self.names}
        for s in self.names:
            if deg[s] == 1 or rng.random() < .3:
                self.outside[s] = []
                for k in range(rng.choice([1, 2])):
                    b = '"X%d-%s", "SBL", %d, "1", "(1)"' % (k, s, k + 1)
                    self.outside[s].append(b)
                    for t in self.tracks[s]:
                        self.row(b, t, self.switches(s))
        # depots
        if "KO(STM)" in self.names and rng.random() < .5:
            self.tracks["KO(IC)"] = ['"KO(IC)", "B-M", 500, "(N/A)"']
            self.names.append("KO(IC)")
            self.edge("KO(STM)", "KO(IC)", lengths=[0])
        if "KO" in self.names and rng.random() < .4:
            self.tracks["KO(KS)"] = ['"Rac(KS)", "B-M", 200, "(N/A)"']
            self.names.append("KO(KS)")
            self.edge("KO", "KO(KS)", lengths=[0])
        rng.shuffle(self.rows)
        return self

    def edge(self, a, b, lengths=None):
        rng = self.rng
        if lengths is None:
            if {a, b} == {"KO", "KO(STM)"}:
                lengths = [0]
            else:
                lengths = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        chains = []
        for t, n in enumerate(lengths):
            chain = ['"%s-%s-%d", "SBL", %d, "%d", "(%d)"' % (a, b, i + 1, t + 1, i + 1, n) for i in range(n)]
            chains.append(chain)
            if n == 0:
                for x in self.tracks[a]:
                    for y in self.tracks[b]:
                        self.row(x, y, self.switches(a))
                continue
            for x in self.tracks[a]:
                self.row(x, chain[0], self.switches(a))
            for x, y in zip(chain, chain[1:]):
                self.row(x, y, [])
            for y in self.tracks[b]:
                self.row(chain[-1], y, self.switches(b))
        if self.opts.get("crossover") and len(chains) > 1 and len(chains[0]) > 1 and len(chains[1]) > 1:
            # a crossover in the middle of the line: partially shared paths
            x, y = chains[0], chains[1]
            i = rng.randrange(1, min(len(x), len(y)))
            self.row(x[i - 1], y[i], [])
            chains.append(x[:i] + y[i:])
        self.edges[(a, b)] = chains

    def chains(self, a, b):
        if (a, b) in self.edges:
            return self.edges[(a, b)]
        return [c[::-1] for c in self.edges[(b, a)]]

    def neighbours(self, s):
        return [b if a == s else a for a, b in self.edges if s in (a, b)]


def hhmm(m):
    return "%02d:%02d" % (m // 60, m % 60)


def numbers(rng, n):
    """train numbers, many of them contained in each other"""
    out = []
    mode = rng.choice(["small", "big", "alike"])
    while len(out) < n:
        if mode == "small":
            x = rng.randrange(1, 12 + 3 * n)
        elif mode == "big":
            x = rng.randrange(1000, 99999)
        else:
            x = rng.choice([1, 2, 5, 11, 21, 101, 102, 111, 201, 1101, 1001, 10, 100, 3, 13, 23, 4601, 46010, 4602, 94766, 766, 66]) if rng.random() < .8 else rng.randrange(1, 400)
        if x % 10 == 9 or x in out:
            continue
        out.append(x)
    return out


def _blank():
    return {c: "" for c in COLS}


def generate(seed, n_st=None, n_tr=None, names=None, crossover=False, times="loose", pairs=True, no_switch=True,
             single=False, int_times=False):
    rng = random.Random("world/%s" % seed)
    n_st = n_st or rng.choice([2, 3, 3, 4, 5, 6])
    n_tr = n_tr or rng.choice([2, 3, 4, 6, 8])
    net = Net(rng, n_st, {"names": names, "crossover": crossover, "no_switch": no_switch}).build()
    w = World()
    w.label = "generated %s" % seed
    w.rows = net.rows
    w.stations = {}
    order = list(net.names)
    rng.shuffle(order)
    for s in order:
        bl = list(net.tracks[s])
        rng.shuffle(bl)
        w.stations[s] = bl
    if rng.random() < .3:
        w.stations["ZZZ"] = ['"ZZZ", "ST", 1, "(1)"']      # a station nobody visits
    nums = numbers(rng, n_tr)
    all_nums = set(nums)
    base = rng.randrange(7 * 60, 20 * 60)
    for k in nums:
        t = make_train(rng, net, k, base, times)
        if t is None:
            continue
        w.trains.append(t)
        if pairs and rng.random() < .3 and k * 10 + 9 not in all_nums:
            u = make_partner(rng, net, t, k * 10 + 9, base, times)
            if u is not None:
                all_nums.add(k * 10 + 9)
                w.trains.append(u)
                w.features.add("pair")
    rng.shuffle(w.trains)
    w.net = net
    return w.index()


def walk(rng, net, start=None, min_len=2):
    s = start or rng.choice(net.names)
    path = [s]
    want = rng.choice([2, 2, 3, 3, 4, 5, 6])
    while len(path) < want:
        nb = [x for x in net.neighbours(path[-1]) if x not in path]
        if not nb:
            break
        path.append(rng.choice(nb))
    return path if len(path) >= min_len else None


def make_train(rng, net, number, base, times, start=None, end=None, type_=None, route=None):
    """start/end: (station, block) in which the route has to begin or end"""
    for _ in range(20):
        p = walk(rng, net, start[0] if start else (end[0] if end else None))
        if p:
            break
    else:
        return None
    if end:
        p = p[::-1]
    blocks = []
    st_pos = []
    for i, s in enumerate(p):
        if i == 0 and not start and net.outside.get(s) and rng.random() < .7:
            blocks.append(rng.choice(net.outside[s]))
        if i == 0 and start:
            tr = start[1]
        elif i == len(p) - 1 and end:
            tr = end[1]
        else:
            tr = rng.choice(net.tracks[s])
        st_pos.append(len(blocks))
        blocks.append(tr)
        if i + 1 < len(p):
            blocks += rng.choice(net.chains(s, p[i + 1]))
        elif not end and net.outside.get(s) and rng.random() < .6:
            blocks.append(rng.choice(net.outside[s]))
    if len(set(blocks)) != len(blocks):
        return None
    type_ = type_ or rng.choice(TYPES)
    ic = type_.startswith("IC")
    mixed = rng.random() < .3
    rows = []
    clock = base + rng.randrange(-40, 90)
    for i, b in enumerate(blocks):
        c = _blank()
        c["speed"] = rng.choice(["IC", "R"]) if mixed else ("IC" if ic else "R")
        if i in st_pos:
            clock += rng.randrange(1, 6)
            x = rng.random()
            first = i == st_pos[0]
            last = i == len(blocks) - 1
            if x < .55 and not last:
                if not first or rng.random() < .5:
                    c["Arr"] = hhmm(clock)
                clock += rng.choice([0, 0, 1, 2, 5])
                c["Dep"] = hhmm(clock)
                if rng.random() < .2:
                    c["Approx_enter"] = hhmm(clock - rng.choice([0, 1, 2, 3]))
                c["Label"] = rng.choice(["", "Katowice", "Tychy"])
            elif x < .8 or (first and x < .9):
                if rng.random() < .3:
                    c["Arr"] = hhmm(clock)
                c["Approx_enter"] = hhmm(clock)
            elif x < .9:
                c["Arr"] = hhmm(clock)
            if rng.random() < .25:
                c["Turnaround_time_minutes"] = str(rng.choice([1, 2, 3, 5, 10, 0]))
            if rng.random() < .1:
                c["Shunting"] = "Y"
        elif rng.random() < .06:
            c["Label"] = "stop"
            c["Arr"] = c["Dep"] = hhmm(clock)
        rows.append((b, c))
    return {"number": number, "type": type_, "name": rng.choice(["S1", "BOLKO", "T+to", "S8 x", "Silesia 2", "N9"]),
            "origin": rng.choice(["from X", "from Zwardoń", "departs from Katowice", "departs Y"]),
            "dest": rng.choice(["to X", "to Tychy", "terminates in Katowice", "terminates at Y"]), "rows": rows}


def make_partner(rng, net, t, number, base, times):
    """shunting train sharing the rolling stock of t (before or after it)"""
    first, last = t["rows"][0][0], t["rows"][-1][0]
    st = {b: s for s, bl in net.tracks.items() for b in bl}
    opts = []
    if last in st:
        opts.append(("after", last))
    if first in st:
        opts.append(("before", first))
    if not opts:
        return None
    kind, b = rng.choice(opts)
    if kind == "after":
        u = make_train(rng, net, number, base + 30, times, start=(st[b], b), type_=t["type"])
        ambiguous = u and u["rows"][-1][0] == first
    else:
        u = make_train(rng, net, number, base - 30, times, end=(st[b], b), type_=t["type"])
        ambiguous = u and u["rows"][0][0] == last
    return None if ambiguous else u         # meeting at both ends: order unknown

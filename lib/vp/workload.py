"""Workloads over schedules: bundled files, generated worlds, random routes on the real network."""
import random

from . import core, world

_CACHE = {}


def make(spec):
    """world from a JSON-able description"""
    if spec["w"] == "bundled":
        k = spec["k"]
        if k not in _CACHE:
            _CACHE[k] = world.bundled(k)
        return _CACHE[k]
    if spec["w"] == "gen":
        return world.generate(spec["seed"], **spec.get("o", {}))
    if spec["w"] == "walk":
        return walks(spec["seed"], **spec.get("o", {}))
    raise ValueError(spec)


def preload(ks):
    for k in ks:
        make({"w": "bundled", "k": k})


def jobs(rng, bundled=(), gen=0, walk=0, batch=8, gen_o=None, walk_o=None):
    out = [{"worlds": [{"w": "bundled", "k": k}]} for k in sorted(bundled, reverse=True)]
    specs = [{"w": "gen", "seed": rng.randrange(10 ** 9), "o": dict(gen_o or {})} for _ in range(gen)]
    specs += [{"w": "walk", "seed": rng.randrange(10 ** 9), "o": dict(walk_o or {})} for _ in range(walk)]
    rng.shuffle(specs)
    out += [{"worlds": specs[i:i + batch]} for i in range(0, len(specs), batch)]
    return out


def each(job, mon, fn):
    for spec in job["worlds"]:
        w = make(spec)
        if not w.trains:
            continue
        mon.job = {"worlds": [spec]}
        mon.ev("worlds:" + spec["w"])
        mon.ev("trains", len(w.trains))
        try:
            fn(w, mon, random.Random("case/%s" % core.digest(spec)))
        except core.Skip:
            pass


_REAL = None


def _real():
    global _REAL
    if _REAL is None:
        df, rows = world.read_network()
        nxt = {}
        for r in rows:
            a, b = r["previous_block"], r["next_block"]
            if world.num(r["time_inter_city_A-B"]) is not None and world.num(r["time_regional_train_A-B"]) is not None:
                nxt.setdefault(a, []).append(b)
            if world.num(r["time_inter_city_B-A"]) is not None and world.num(r["time_regional_train_B-A"]) is not None:
                nxt.setdefault(b, []).append(a)
        _REAL = (df, rows, nxt, [make({"w": "bundled", "k": k}).stations for k in (0, 1, 5)])
    return _REAL


def walks(seed, n_tr=None):
    """random trains on the real network with one of the bundled station tables"""
    rng = random.Random("walk/%s" % seed)
    df, rows, nxt, tables = _real()
    w = world.World()
    w.label = "walks %s" % seed
    w.df, w.rows = df, rows
    w.stations = rng.choice(tables)
    st = {b: s for s, bl in w.stations.items() for b in bl}
    n_tr = n_tr or rng.choice([2, 3, 4, 5])
    nums = world.numbers(rng, n_tr)
    base = rng.randrange(7 * 60, 20 * 60)
    starts = sorted(nxt)
    twin = None
    for number in nums:
        for _ in range(40):
            if twin and rng.random() < .5:
                route = list(twin)          # same or opposite way as an earlier train
                if rng.random() < .5 and all(b in nxt.get(a, ()) for a, b in zip(route[::-1], route[::-1][1:])):
                    route = route[::-1]
                i = rng.randrange(0, max(1, len(route) // 3))
                route = route[i:]
            else:
                b = rng.choice(starts)
                route, seen = [b], {st.get(b)} - {None}
                want = rng.choice([6, 10, 16, 24])
                while len(route) < want:
                    opt = [x for x in nxt.get(route[-1], ()) if x not in route and st.get(x) not in seen]
                    if not opt:
                        break
                    route.append(rng.choice(opt))
                    if route[-1] in st:
                        seen.add(st[route[-1]])
            if sum(b in st for b in route) >= 2:
                break
        else:
            continue
        twin = twin or route
        rows_t = []
        clock = base + rng.randrange(0, 60)
        mixed = rng.random() < .3
        sp = rng.choice(["IC", "R"])
        for i, b in enumerate(route):
            c = world._blank()
            c["speed"] = rng.choice(["IC", "R"]) if mixed else sp
            if b in st:
                clock += rng.randrange(1, 9)
                x = rng.random()
                if x < .6 and i + 1 < len(route):
                    c["Arr"] = world.hhmm(clock)
                    clock += rng.choice([0, 1, 4])
                    c["Dep"] = world.hhmm(clock)
                    if rng.random() < .2:
                        c["Approx_enter"] = world.hhmm(clock - rng.choice([1, 2, 3]))
                elif x < .9:
                    c["Approx_enter"] = world.hhmm(clock)
                if rng.random() < .2:
                    c["Turnaround_time_minutes"] = str(rng.choice([2, 5, 10]))
            rows_t.append((b, c))
        w.trains.append({"number": number, "type": rng.choice(world.TYPES), "name": "S1", "origin": "from A",
                         "dest": rng.choice(["to B", "terminates in B"]), "rows": rows_t})
    return w.index()

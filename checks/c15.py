"""C15 What is derived for some trains does not depend on the others."""
import random

from vp import core, sut, workload, world

RULE = ("one observation = one derived quantity compared between a schedule and a part of it, between two orders of listing, or "
        "before/after other requests; distinct by (schedule, part, quantity); empty results are trivial")
KINDS = ("running", "headway", "stop", "preparation", "same line", "head-on", "tracks", "switches", "connections", "starts", "departures",
         "weights", "endings", "paths")
NEED = dict({"judged:part:" + k: 60 for k in KINDS}, **{"judged:again:" + k: 60 for k in KINDS})
NEED.update({"judged:tables unchanged": 60, "judged:network unchanged": 60, "judged:annotation": 60})


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 90 if tier == "quick" else 2400
    out = [{"worlds": [dict(s)]} for s in ({"w": "bundled", "k": 0}, {"w": "bundled", "k": 3})] if tier == "quick" else workload.jobs(rng, range(6))
    return out + workload.jobs(rng, gen=n, gen_o={"n_tr": 6}, batch=4) + workload.jobs(rng, walk=n // 2, batch=4)


def fset(groups, keep):
    return frozenset(g for g in (frozenset(x for x in grp if x in keep) for grp in groups) if g)


def derive(td, w, net, keep, rng):
    """everything derived, restricted to the trains to keep, in canonical form; requests in random order"""
    d = sut.df
    st = w.stations
    own = lambda r: {k: v for k, v in r.items() if int(k.split("_")[0]) in keep}
    two = lambda r: {k: v for k, v in r.items() if int(k.split("_")[0]) in keep and int(k.split("_")[1]) in keep}

    def lines(r):
        out = {}
        for a, m in r.items():
            for b, groups in m.items():
                g = frozenset(x for x in fset(groups, keep) if len(x) > 1)
                if g:
                    out["%s %s" % (a, b)] = g
        return out

    def head_on(r):
        out = set()
        for (a, b), prs in r.items():
            for j, jp in prs:
                if j in keep and jp in keep:
                    out.add(min(((a, b), j, jp), ((b, a), jp, j), key=str))
        return frozenset(out)

    def stations(r, f):
        out = {}
        for s, v in r.items():
            x = f(v)
            if x:
                out[s] = x
        return out

    def stop():
        a, b = d.get_taus_stop(td, st)
        return {"stay": own(a), "prep": own(b)}

    todo = {
        "running": lambda: own(d.get_taus_pass(td)),
        "headway": lambda: two(d.get_taus_headway(td, st)),
        "stop": stop,
        "preparation": lambda: own(d.get_taus_prep(td, st)),
        "same line": lambda: lines(d.jd(td, st)),
        "head-on": lambda: head_on(d.josingle(td, st)),
        "tracks": lambda: stations(d.jtrack(td, st), lambda v: fset(v, keep)),
        "switches": lambda: stations(d.jswitch(td, st, net), lambda v: frozenset(frozenset(x.items()) for x in v if set(x) <= keep)),
        "connections": lambda: stations(d.get_jround(td, st), lambda v: frozenset(tuple(x) for x in v if set(x) <= keep)),
        "starts": lambda: own(d.get_initial_conditions(td, "14:00")),
        "departures": lambda: own(d.get_schedule(td, "14:00")),
        "endings": lambda: {k: v for k, v in d.get_skip_stations(td).items() if k in keep},
        "weights": lambda: own(d.make_weights(td, d.get_skip_stations(td))),
        "paths": lambda: {k: tuple(v) for k, v in d.get_Paths(td).items() if k in keep},
    }
    names = list(todo)
    rng.shuffle(names)
    return {k: todo[k]() for k in names}


def cells(frame):
    """values of a table; a column of a file without any entry has another type than the same column of a longer file"""
    def plain(x):
        if x is None or core.isnan(x):
            return None
        n = world.num(x)
        return str(x) if n is None else n
    return {c: [plain(x) for x in frame[c].tolist()] for c in frame.columns}


def snapshot(td):
    return {k: (list(v[0]), v[1].copy(deep=True)) for k, v in td.items()}


def one(w, mon, rng):
    if w.ref_jround() is None:
        mon.ev("connection not decidable")
        return
    net = sut.network(w).copy(deep=True)
    net0 = net.copy(deep=True)
    st0 = {s: list(b) for s, b in w.stations.items()}
    J = set(w.J)
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w, net)
    kept = snapshot(td)
    with mon.sut("deriving from the timetables"):
        full = derive(td, w, net, J, rng)
    ok = list(td) == list(kept) and all(list(td[j][0]) == kept[j][0] and td[j][1].equals(kept[j][1]) and
                                        list(td[j][1].columns) == list(kept[j][1].columns) for j in kept)
    mon.expect("tables unchanged", ok, "%s: deriving changed the tables" % w.label, key=w.label)
    mon.expect("network unchanged", net.equals(net0) and {s: list(b) for s, b in w.stations.items()} == st0,
               "%s: network or station list changed" % w.label, key=w.label)
    # again, in another order of requests and of trains
    order = list(td)
    rng.shuffle(order)
    with mon.sut("deriving from the timetables"):
        again = derive({j: td[j] for j in order}, w, net, J, rng)
    for k in KINDS:
        mon.equal("again:" + k, again[k], full[k], "%s: %s asked again with the trains in another order" % (w.label, k),
                  key=(w.label, k) if full[k] else None)
    # a part of the schedule
    for _ in range(2):
        part = set(rng.sample(sorted(J), rng.randrange(1, len(J)))) if len(J) > 1 else set(J)
        if len(J) > 3 and rng.random() < .5:
            part = J - {rng.choice(sorted(J))}
        broken = set(x for p in w.ref_pairs() if len(set(p) & part) == 1 for x in p)
        part -= broken
        if not part:
            continue
        sub = w.sub([j for j in w.J if j in part])
        with mon.sut("annotating a part"):
            tds = sut.train_dict(sub, net)
            some = derive(tds, sub, net, part, rng)
            restricted = derive(td, w, net, part, rng)
        for k in KINDS:
            mon.equal("part:" + k, some[k], restricted[k], "%s: %s of trains %s alone" % (w.label, k, sorted(part)),
                      key=(w.label, tuple(sorted(part)), k) if restricted[k] else None)
        same = all(cells(tds[j][1]) == cells(td[j][1]) for j in part)
        mon.expect("annotation", same, "%s: annotated tables of %s differ when alone" % (w.label, sorted(part)), key=(w.label, tuple(sorted(part))))


def work(job, mon):
    workload.each(job, mon, one)

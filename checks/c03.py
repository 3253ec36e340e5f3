"""C03 A broken route is rejected and a connected one is accepted."""
import pandas as pd

from vp import core, sut, workload

RULE = ("one observation = one route offered to the continuity check or to the time preparation; distinct by the pair of "
        "blocks at the break (or the route, when connected); breaks are made at every kind of position")
NEED = {"judged:connected accepted": 300, "judged:broken rejected": 900, "break:unknown": 80, "break:skipped": 150,
        "break:swapped": 100, "break:jump": 150, "break:first": 60, "break:last": 60, "judged:broken not timed": 300}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 50 if tier == "quick" else 1200
    return workload.jobs(rng, range(7), gen=n, walk=n, batch=6)


def connected(w, route):
    return all((a, b) in w.pair for a, b in zip(route, route[1:]))


def breaks(w, route, rng):
    """broken variants of a connected route"""
    out = []
    n = len(route)
    blocks = sorted(set(b for p in w.pair for b in p))
    pos = {0, n - 1, rng.randrange(n), rng.randrange(n)}
    for i in sorted(pos):
        r = list(route)
        r[i] = '"??", "ST", 1, "(1)"'
        out.append(("unknown", i, r))
        if 0 < i < n - 1:
            r = list(route)
            del r[i]
            out.append(("skipped", i, r))
        if i + 1 < n and n > 2:
            r = list(route)
            r[i], r[i + 1] = r[i + 1], r[i]
            out.append(("swapped", i, r))
        r = list(route)
        r[i] = rng.choice(blocks)
        out.append(("jump", i, r))
        r = list(route)
        r[i] = r[i][:-1]            # a name that is only a part of a known one
        out.append(("truncated", i, r))
    return [(k, i, r) for k, i, r in out if len(r) > 1 and len(set(r)) == len(r) and not connected(w, r)]


def offer(mon, what, fn):
    """None if accepted, the exception if rejected"""
    try:
        with core.quiet():
            fn()
        return None
    except Exception as e:      # noqa - any error is a rejection
        return e


def one(w, mon, rng):
    net = sut.network(w)
    two = net[["previous_block", "next_block"]]
    js = list(w.J)
    rng.shuffle(js)
    for j in js[:6]:
        route = w.blocks(j)
        speeds = [r["speed"] for _, r in w.by[j]["rows"]]
        for how, form in (("list", list), ("series", pd.Series)):
            e = offer(mon, "check", lambda: sut.df.check_path_continuity(form(route), two))
            mon.expect("connected accepted", e is None, lambda: "%s train %s: connected route rejected: %r" % (w.label, j, e),
                       key=(tuple(route), how))
        rev = route[::-1]
        e = offer(mon, "check", lambda: sut.df.check_path_continuity(rev, two))
        mon.expect("connected accepted", e is None, lambda: "%s train %s: reversed route rejected: %r" % (w.label, j, e),
                   key=(tuple(rev), "reversed"))
        for kind, i, r in breaks(w, route, rng):
            mon.ev("break:" + kind)
            if i == 0:
                mon.ev("break:first")
            if i == len(route) - 1:
                mon.ev("break:last")
            form = rng.choice([list, pd.Series])
            e = offer(mon, "check", lambda: sut.df.check_path_continuity(form(r), two))
            bad = [(a, b) for a, b in zip(r, r[1:]) if (a, b) not in w.pair]
            mon.expect("broken rejected", e is not None, lambda: "%s: route with break %s accepted (%s at %d)" % (w.label, bad, kind, i),
                       key=tuple(bad), sample="rejected: %s" % (bad[:1],), mech="broken accepted")
            tab = pd.DataFrame({"path": r, "speed": (speeds + speeds)[:len(r)]})
            e = offer(mon, "times", lambda: sut.df.passing_times_4blocks(tab, net))
            mon.expect("broken not timed", e is not None, lambda: "%s: running times prepared over the break %s (%s at %d)" % (
                w.label, bad, kind, i), key=tuple(bad), mech="broken timed")


def work(job, mon):
    workload.each(job, mon, one)

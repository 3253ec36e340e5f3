"""C10 Every pair of trains needing the same switch is found."""
from vp import core, sut, workload

RULE = ("one observation = one combination of movements of two trains at one station (in/in, in/out, out/in, out/out) expected "
        "or listed; distinct by (station, both switch sets, movements); combinations without a common switch count as trivial")
NEED = {"judged:conflict": 400, "no conflict": 400, "judged:nothing else": 80, "yard movements": 20, "cell:text": 300,
        "cell:decimal": 40, "cell:number": 60, "cell:missing": 60}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 90 if tier == "quick" else 2200
    b = (0, 1, 3, 4) if tier == "quick" else range(7)
    return (workload.jobs(rng, b) + workload.jobs(rng, gen=n, gen_o={"n_tr": 5}, batch=5) + workload.jobs(rng, walk=n // 3, batch=3))


def compare(w, mon, got):
    ref = w.ref_jswitch()
    cells = {}
    for r in w.rows:
        c = r["switches"]
        cells[(r["previous_block"], r["next_block"])] = c
        cells[(r["next_block"], r["previous_block"])] = c
    for s, want in ref.items():
        listed = {}
        for d in got.get(s, []):
            k = frozenset(d.items())
            if len(d) != 2:
                mon.bad("odd entry", "%s station %s: entry %s" % (w.label, s, d))
            listed[k] = listed.get(k, 0) + 1
        for k in want:
            sets = tuple(sorted((m, tuple(sorted(w.moves(j, s)[m]))) for j, m in k))
            mon.expect("conflict", listed.get(k, 0) == 1, lambda: "%s station %s: movements %s share a switch (%s), listed %d times" % (
                w.label, s, sorted(k), sets, listed.get(k, 0)), key=(s, sets), sample="%s: %s" % (s, sorted(k)),
                mech="switch conflict missing" if k not in listed else "switch conflict repeated")
        extra = [sorted(k) for k in listed if k not in want]
        mon.expect("nothing else", not extra, lambda: "%s station %s: listed without a common switch: %s" % (w.label, s, extra[:3]),
                   key=(w.label, s, len(want)))
        here = [j for j in w.J if s in w.path(j)]
        mon.ev("no conflict", 4 * len(here) * (len(here) - 1) // 2 - len(want))
        for j in here:
            bl, i, p = w.blocks(j), w.pos(j, s), w.path(j)
            for ok, a, b, o in ((p[0] != s, i - 1, i, w.prev_station(j, s)), (p[-1] != s, i, i + 1, w.next_station(j, s))):
                if not ok:
                    continue
                if {s, o} == {"KO", "KO(STM)"}:
                    mon.ev("yard movements")
                c = cells[(bl[a], bl[b])]
                mon.ev("cell:" + ("text" if isinstance(c, str) else "missing" if c != c else "decimal" if isinstance(c, float) else "number"))


def one(w, mon, rng):
    net = sut.network(w)
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    order = list(w.J)
    rng.shuffle(order)
    with mon.sut("switch conflicts"):
        got = sut.df.jswitch({j: td[j] for j in order}, w.stations, net)
    compare(w, mon, got)


def work(job, mon):
    workload.each(job, mon, one)

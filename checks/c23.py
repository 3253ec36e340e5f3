"""C23 The QUBO has the solutions of the problem as its ground states."""
from vp import core, qm, sut

RULE = ("one observation = the lowest energy over the auxiliary bits for one assignment, or the set of values a variable can take, compared "
        "with the linear problem; distinct by (problem, penalties, assignment) or (problem, variable)")
NEED = {"judged:energy": 2000, "judged:encoding": 1000, "judged:decoding": 1000, "judged:qubo": 500, "feasible assignments": 500,
        "violated constraints": 2000, "problems:generic": 200, "problems:dispatch": 80, "tight constraints": 40}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 3 == 0} for k in range(320 if q else 9000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9), "d_max": rng.choice([None, 5, 10])} for k in range(130 if q else 3000)]
    rng.shuffle(sp)
    return qm.batches(sp, 8)


def one(label, lin, mon, rng):
    pd = qm.pdict(rng)
    with mon.sut("building the binary model", detail=lin.text()):
        bqm, qubo, interp = sut.rs.convert_to_bqm(lin.prob, pd)
    for co, k, sense in lin.cons.values():
        lo = sum(a * (lin.vars[v][0] if a > 0 else lin.vars[v][1]) for v, a in co.items()) + k
        hi = sum(a * (lin.vars[v][1] if a > 0 else lin.vars[v][0]) for v, a in co.items()) + k
        if (sense == -1 and lo >= 0) or (sense == 1 and hi <= 0):
            mon.ev("tight constraints")
    B = qm.Bits(bqm, interp, lin, mon)
    owner = {}
    for v, e in B.enc.items():
        lo, hi = lin.vars[v]
        vals = set()
        import itertools
        for ch in itertools.product((0, 1), repeat=len(e)):
            vals.add(B.base[v] + sum(c for c, b in zip(e.values(), ch) if b))
        mon.expect("encoding", vals == set(range(lo, hi + 1)), lambda: "%s: %s can take %s, expected %s..%s" % (label, v, sorted(vals), lo, hi),
                   key=(label, v), sample="%s: %s bits for %s..%s" % (v, len(e), lo, hi), detail=lin.text())
        for l in e:
            owner.setdefault(l, []).append(v)
    mon.expect("separate bits", all(len(o) == 1 for o in owner.values()), lambda: "%s: bits shared by variables: %s" % (label, [o for o in owner.values() if len(o) > 1]), key=label)
    # decoding of arbitrary bit strings
    rows = [{l: rng.randint(0, 1) for l in B.labels} for _ in range(4)]
    for r, d in zip(rows, B.decode(rows)):
        mon.expect("decoding", core.close(d, B.values(r)), lambda: "%s: bits %s decode to %s, expected %s" % (label, r, d, B.values(r)),
                   key=(label, tuple(r.values())), detail=lin.text())
        try:
            Q, off = qubo
            e = off + sum(b for (u, v), b in Q.items() if r[u] and r[v])
        except (TypeError, ValueError):
            e = None
        mon.expect("qubo", e is not None and abs(e - B.energy(r)) < 1e-6 * (1 + abs(e)), lambda: "%s: QUBO energy %s, model %s" % (label, e, B.energy(r)), key=(label, tuple(r.values())))
    for x in lin.assignments(rng, 9):
        got = B.complete(x, rng)
        if got is None:
            mon.ev("too many auxiliary bits")
            continue
        e = got[1]
        want = lin.energy(x, pd)
        bad = sum(lin.violation(n, x) > 0 for n in lin.cons)
        mon.ev("violated constraints", bad)
        mon.ev("feasible assignments", int(not bad))
        mon.expect("energy", abs(e - want) < 1e-6 * (1 + abs(want)), lambda: "%s: lowest energy %s, expected %s (%s violated) on %s" % (label, e, want, bad, x),
                   key=(label, tuple(x.values()), tuple(pd.values())), sample="%s: %s for %s violated constraints" % (label, e, bad), detail=[pd, lin.text()])


def work(job, mon):
    qm.each(job, mon, one)

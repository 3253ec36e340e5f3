"""C24 Samples are decoded, judged and ranked truthfully."""
from vp import core, qm, sut

RULE = ("one observation = one sample of one sample set followed through decoding and judging, or one choice of the best; distinct by "
        "(problem, sample, energy) or (problem, sample set)")
NEED = {"judged:sample": 3000, "judged:decoded": 3000, "judged:best": 500, "best feasible": 150, "none feasible": 60, "sets with repeats": 100,
        "sets with equal energies": 60, "unsorted sets": 200, "problems:generic": 150, "problems:dispatch": 60, "not in whole minutes": 30, "just short of a constraint": 60}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 4 == 0} for k in range(340 if q else 7000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9)} for k in range(130 if q else 2500)]
    sp += [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 4 == 0, "quarters": True} for k in range(100 if q else 2000)]
    rng.shuffle(sp)
    return qm.batches(sp, 8)


def energies(rng, true, mon):
    style = rng.choice(["true", "random", "equal", "descending", "ties"])
    n = len(true)
    if style == "true":
        return list(true)
    if style == "equal":
        mon.ev("sets with equal energies")
        return [1.5] * n
    if style == "ties":
        mon.ev("sets with equal energies")
        return [rng.choice([-1.0, 2.0, 2.0, 7.5]) for _ in range(n)]
    out = [rng.uniform(-50, 50) for _ in range(n)]
    return sorted(out, reverse=True) if style == "descending" else out


def bag(pairs):
    """samples with their energies, as a multiset"""
    out = {}
    for s, e in pairs:
        k = (tuple(sorted((str(a), round(float(b), 6)) for a, b in s.items())), round(float(e), 6))
        out[k] = out.get(k, 0) + 1
    return out


def judged(label, lin, results, given, mon):
    """the list of results for the given (assignment, energy) pairs"""
    with mon.sut("reading the judged samples", detail=lin.text()):
        results = [{k: r[k] for k in ("sample", "energy", "objective", "feasible", "feas_constraints")} for r in results]
        for r in results:
            got, cnt = r["feas_constraints"]
            r["feas_constraints"] = dict(got), cnt + 0
    mon.expect("complete", bag((r["sample"], r["energy"]) for r in results) == bag(given),
               lambda: "%s: samples with energies %s, given %s" % (label, [(dict(r["sample"]), r["energy"]) for r in results], given), key=(label, len(given)), detail=lin.text())
    for r in results:
        x = dict(r["sample"])
        sat = {n: lin.violation(n, x) == 0 for n in lin.cons}
        obj = lin.objective(x)
        got, cnt = r["feas_constraints"]
        ok = abs(r["objective"] - obj) < 1e-7 and bool(r["feasible"]) == all(sat.values()) and {k: bool(v) for k, v in got.items()} == sat and cnt == sum(sat.values())
        mon.expect("sample", ok, lambda: "%s: sample %s reported as objective %s feasible %s satisfied %s; expected %s %s %s" % (
            label, x, r["objective"], r["feasible"], (got, cnt), obj, all(sat.values()), sat),
            key=(label, tuple(x.values()), r["energy"]), sample="objective %s, feasible %s" % (r["objective"], r["feasible"]), detail=lin.text())


def best(label, lin, pick, given, mon):
    feas = [(lin.objective(x), e) for x, e in given if lin.feasible(x)]
    with mon.sut("reading the chosen sample", detail=lin.text()):
        x, _ = dict(pick["sample"]), pick["energy"] + 0
    if feas:
        mon.ev("best feasible")
        ok = lin.feasible(x) and abs(lin.objective(x) - min(f[0] for f in feas)) < 1e-7
    else:
        mon.ev("none feasible")
        ok = abs(pick["energy"] - min(e for _, e in given)) < 1e-9
    ok = ok and bag([(x, pick["energy"])]).keys() <= bag(given).keys()
    mon.expect("best", ok, lambda: "%s: chosen %s (energy %s) of %s" % (label, x, pick["energy"], given), key=(label, str(given)), detail=lin.text())


def one(label, lin, mon, rng):
    import dimod
    rs = sut.rs
    if lin.prob.objective is None:
        mon.ev("nothing to optimise")
        return
    if qm.whole(lin.prob):
        by_bits(label, lin, mon, rng)
    else:
        mon.ev("not in whole minutes")
    for rnd in range(2):
        # samples of whole numbers, as the constrained solver gives them
        ys = lin.assignments(rng, rng.randint(1, 7))
        if lin.cons and rng.random() < .7:
            # short of one constraint by as little as there is
            y = lin.almost(rng.choice(list(lin.cons)), rng, .25)
            if y is not None:
                mon.ev("just short of a constraint")
                ys.append(y)
        ys += [dict(rng.choice(ys)) for _ in range(rng.choice([0, 0, 1, 2]))]
        es = energies(rng, [lin.objective(y) for y in ys], mon)
        ss = dimod.SampleSet.from_samples(dimod.as_samples(ys), "INTEGER", es)
        with mon.sut("judging samples", detail=lin.text()):
            results = rs.get_results(ss, prob=lin.prob)
            pick = rs.get_best_feasible_sample(results)
            single = [(rs.get_objective(lin.prob, y), rs.analyze_constraints(lin.prob, y)) for y in ys]
        given = list(zip(ys, es))
        judged(label, lin, results, given, mon)
        best(label, lin, pick, given, mon)
        for y, (o, (sat, cnt)) in zip(ys, single):
            want = {n: lin.violation(n, y) == 0 for n in lin.cons}
            mon.expect("single", abs(o - lin.objective(y)) < 1e-7 and {k: bool(v) for k, v in sat.items()} == want and cnt == sum(want.values()),
                       lambda: "%s: %s judged %s %s" % (label, y, o, sat), key=(label, tuple(y.values())), detail=lin.text())


def by_bits(label, lin, mon, rng):
    import dimod
    rs = sut.rs
    pd = qm.pdict(rng)
    with mon.sut("building the binary model", detail=lin.text()):
        bqm, _, interp = rs.convert_to_bqm(lin.prob, pd)
    B = qm.Bits(bqm, interp, lin, mon)
    for rnd in range(2):
        xs = lin.assignments(rng, rng.randint(1, 9)) if rng.random() < .7 else [lin.random(rng) for _ in range(rng.randint(1, 6))]
        rows, solved = [], []
        for x in xs:
            got = B.complete(x, rng)
            if got is None or rng.random() < .25:
                rows.append({l: rng.randint(0, 1) for l in B.labels})
                solved.append(None)
            else:
                rows.append(got[0])
                solved.append(x)
        if rng.random() < .4:
            mon.ev("sets with repeats")
            k = rng.randrange(len(rows))
            rows.append(dict(rows[k])), solved.append(solved[k])
        es = energies(rng, [B.energy(r) for r in rows], mon)
        if es != sorted(es):
            mon.ev("unsorted sets")
        ss = dimod.SampleSet.from_samples(dimod.as_samples(rows), "BINARY", es)
        with mon.sut("decoding samples", detail=lin.text()):
            dec = interp(ss)
            pairs = [(dict(d.sample), d.energy) for d in dec.data()]
        given = [(B.values(r), e) for r, e in zip(rows, es)]
        mon.expect("decoded", bag(pairs) == bag(given), lambda: "%s: decoded %s, expected %s" % (label, pairs, given), key=(label, str(given)), detail=lin.text())
        for (x, e), s, row in zip(given, solved, rows):
            # bits of an assignment decode to that assignment, judged through the energy alone
            if s is not None:
                mon.expect("decoded", core.close(x, s) and abs(B.energy(row) - lin.energy(s, pd)) < 1e-6 * (1 + abs(lin.energy(s, pd))),
                           lambda: "%s: the bits of %s decode to %s" % (label, s, x), key=(label, tuple(s.values())), detail=lin.text())
        with mon.sut("judging samples", detail=lin.text()):
            results = rs.get_results(dec, prob=lin.prob)
            pick = rs.get_best_feasible_sample(results)
        judged(label, lin, results, given, mon)
        best(label, lin, pick, given, mon)


def work(job, mon):
    qm.each(job, mon, one)

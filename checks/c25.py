"""C25 The chosen solver gets the problem and the settings it was asked for."""
import random

from vp import core, qm, sut

RULE = ("one observation = one call of a sampler compared with what was asked for, or one record compared with what the sampler gave back; "
        "distinct by (problem, method, settings)")
NEED = {"judged:call": 700, "judged:model": 700, "judged:record": 350, "judged:settings": 600, "method:sim": 80, "method:real": 80, "method:bqm": 80, "method:cqm": 80,
        "direct:sim": 60, "direct:real": 60, "direct:bqm": 60, "direct:cqm": 60, "feasible chosen": 60, "infeasible chosen": 60, "large models": 1}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9)} for k in range(100 if q else 4000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9)} for k in range(60 if q else 1500)]
    rng.shuffle(sp)
    return [{"cases": [{"q": "large", "seed": rng.randrange(10 ** 9)}]} for _ in range(2 if q else 6)] + qm.batches(sp, 6)


def settings(label, call, want, mon, extra=()):
    for k, v in want.items():
        g = call.get(k)
        g = tuple(g) if isinstance(g, (list, tuple)) else g
        mon.expect("settings", core.same(g, tuple(v) if isinstance(v, (list, tuple)) else v), "%s: the %s sampler got %s = %s, asked for %s" % (label, call["kind"], k, g, v),
                   key=(label, call["kind"], k, v), sample="%s %s=%s" % (call["kind"], k, g))


def one_call(label, play, kind, mon):
    cs = play.calls()
    ok = mon.expect("call", len(cs) == 1 and cs[0]["kind"] == kind, "%s: asked for %s, samplers called: %s" % (label, kind, [c["kind"] for c in cs]), key=(label, kind))
    if not ok:
        raise core.Skip()
    return cs[0]


def limit(label, call, asked, mon):
    want = max(asked, call["least"] if call["kind"] == "bqm" else 0)
    ok = abs(call["used"] - want) < 1e-9 if call["kind"] == "bqm" else call["used"] >= asked and (call["time_limit"] in (None, asked) or call["used"] == call["least"])
    mon.expect("settings", ok, "%s: the %s sampler runs with time limit %s, asked for %s (its own minimum %s)" % (label, call["kind"], call["used"], asked, call["least"]),
               key=(label, call["kind"], "limit", asked))


def one(label, lin, mon, rng):
    rs, hp = sut.rs, sut.hp
    pd = qm.pdict(rng)
    if lin.prob.objective is None:
        return
    with mon.sut("building the models", detail=lin.text()):
        bqm, _, interp = rs.convert_to_bqm(lin.prob, pd)
        cqm = rs.convert_to_cqm(lin.prob)
    B = qm.Bits(bqm, interp, lin, mon)
    xs = lin.assignments(rng, 6)
    if rng.random() < .35:
        xs = [x for x in (lin.random(rng) for _ in range(12)) if not lin.feasible(x)] or xs
    bits = [b[0] for b in (B.complete(x, rng) for x in xs) if b is not None]
    # the samplers called directly
    beta = rng.choice([(5, 100), (0.001, 10), (rng.uniform(.01, 1), rng.uniform(2, 50))])
    sweeps, reads = rng.sample([1, 2, 3, 7, 10, 25, 100, 400], 2)
    at, cs, nr = rng.choice([5, 20, 250]), rng.choice([1, 2.5, 4, 7]), rng.choice([1, 10, 1000])
    mt = rng.choice([3, 5, 6, 10, 12.5, 60])
    with qm.Play(bits, xs) as play:
        with mon.sut("simulated annealing"):
            ss = rs.sim_anneal(bqm, beta_range=beta, num_sweeps=sweeps, num_reads=reads)
        c = one_call(label, play, "sim", mon)
        mon.ev("direct:sim")
        mon.expect("model", qm.same_bqm(c["bqm"], bqm, rng), label + ": simulated annealing got another model", key=(label, "sim"))
        settings(label, c, {"beta_range": beta, "num_sweeps": sweeps, "num_reads": reads}, mon)
        mon.expect("samples", len(ss) == len(play.given[0]), label + ": samples lost", key=(label, "sim"))
    with qm.Play(bits, xs) as play:
        with mon.sut("annealing"):
            rs.real_anneal(bqm, nr, at, cs) if rng.random() < .5 else rs.real_anneal(bqm, num_reads=nr, annealing_time=at, chain_strength=cs)
        c = one_call(label, play, "real", mon)
        mon.ev("direct:real")
        mon.expect("model", qm.same_bqm(c["bqm"], bqm, rng), label + ": the annealer got another model", key=(label, "real"))
        settings(label, c, {"num_reads": nr, "annealing_time": at, "chain_strength": cs}, mon)
    with qm.Play(bits, xs) as play:
        with mon.sut("hybrid solving of the binary model"):
            ss, props = rs.hybrid_anneal(bqm, mt)
        c = one_call(label, play, "bqm", mon)
        mon.ev("direct:bqm")
        mon.expect("model", qm.same_bqm(c["bqm"], bqm, rng), label + ": the hybrid sampler got another model", key=(label, "bqm"))
        limit(label, c, mt, mon)
    with qm.Play(bits, xs) as play:
        with mon.sut("hybrid solving of the constrained model"):
            ss, props = rs.constrained_solver(cqm, minimum_time_limit=mt)
        c = one_call(label, play, "cqm", mon)
        mon.ev("direct:cqm")
        compare_cqm(label, lin, c["cqm"], mon, rng)
        limit(label, c, mt, mon)
        mon.expect("settings", props.get("minimum_time_limit_s") == mt, "%s: properties tell %s, asked for %s" % (label, props.get("minimum_time_limit_s"), mt), key=(label, "props", mt))
    # the dispatcher of methods
    for method in ("sim", "real", "bqm", "cqm"):
        mon.ev("method:" + method)
        mt = rng.choice([3, 5, 7, 11, 30])
        with qm.Play(bits, xs) as play:
            with mon.sut("solving by " + method, detail=lin.text()):
                rec = hp.solve_on_quantum(lin.prob, method, pd, minimum_time_limit=mt)
            c = one_call(label, play, method, mon)
            n = len(play.calls())
            if method == "cqm":
                compare_cqm(label, lin, c["cqm"], mon, rng)
                given = [dict(x) for x in play.given[0]]
                en = [lin.objective(x) for x in given]
            else:
                mon.expect("model", qm.same_bqm(c["bqm"], bqm, rng), "%s: %s got another model or other penalties" % (label, method), key=(label, method, "disp"))
                given = [B.values(x) for x in play.given[0]]
                en = [B.energy(x) for x in play.given[0]]
            if method in ("bqm", "cqm"):
                limit(label, c, mt, mon)
            with mon.sut("reading the record of " + method):
                rec = dict(rec)
                for k in ("sample", "energy", "objective", "feasible", "feas_constraints", "properties", "info"):
                    rec[k]
            props = rec["properties"]
            if method == "sim":
                settings(label, c, {k: props[k] for k in ("beta_range", "num_sweeps", "num_reads") if k in props}, mon)
                mon.expect("settings", bool(props), label + ": the record of simulated annealing lists no settings", key=(label, "listed"))
            if method in ("bqm", "cqm"):
                mon.expect("settings", isinstance(props, dict) and props.get("minimum_time_limit_s") == mt, "%s: the record of %s lists %s, asked for %s" % (label, method, props, mt), key=(label, method, mt))
            x = dict(rec["sample"])
            feas = [g for g in given if lin.feasible(g)]
            mon.ev("feasible chosen" if feas else "infeasible chosen")
            hit = [e for g, e in zip(given, en) if core.close(x, g)]
            ok = bool(hit) and any(abs(e - rec["energy"]) < 1e-6 * (1 + abs(e)) for e in hit)
            ok = ok and abs(rec["objective"] - lin.objective(x)) < 1e-7 and bool(rec["feasible"]) == lin.feasible(x)
            if feas:
                ok = ok and lin.feasible(x) and lin.objective(x) <= min(lin.objective(g) for g in feas) + 1e-7
            else:
                ok = ok and rec["energy"] <= min(en) + 1e-6 * (1 + abs(min(en)))
            ok = ok and rec.get("info", {}).get("stub") == n and isinstance(rec.get("comp_time_seconds"), float) and 0 <= rec["comp_time_seconds"] < 1e4
            mon.expect("record", ok, lambda: "%s: record of %s is %s; the sampler gave %s" % (label, method, {k: rec[k] for k in rec if k != "feas_constraints"}, list(zip(given, en))),
                       key=(label, method, str(given)), sample="%s: objective %s feasible %s" % (method, rec["objective"], rec["feasible"]), detail=lin.text())


def compare_cqm(label, lin, cqm, mon, rng):
    ok = set(cqm.variables) == set(lin.vars) and len(cqm.constraints) == len(lin.cons)
    for x in lin.assignments(rng, 3) if ok else []:
        sat = sum(v <= 1e-9 for v in cqm.violations(dict(x)).values())
        o = cqm.objective.energy(dict(x)) if len(cqm.objective.variables) else float(cqm.objective.offset)
        ok = ok and sat == sum(lin.violation(n, x) == 0 for n in lin.cons) and abs(o - lin.objective(x)) < 1e-7
    mon.expect("model", ok, label + ": the constrained solver got another model", key=(label, "cqm"))


def large(spec, mon):
    """a model above the size at which the hybrid sampler asks for more time"""
    rng = random.Random(spec["seed"])
    import pulp
    prob = pulp.LpProblem("large", pulp.LpMinimize)
    vs = [pulp.LpVariable("x%04d" % i, 0, 1, cat="Integer") for i in range(2600)]
    prob += pulp.lpSum(rng.choice([1, 2, 3]) * v for v in vs)
    for i in range(20):
        prob += vs[2 * i] + vs[2 * i + 1] >= 1, "switch_%d" % i
    mon.ev("large models")
    pd = qm.pdict(rng)
    with qm.Play() as play:
        with mon.sut("solving a large model"):
            rec = sut.hp.solve_on_quantum(prob, "bqm", pd, minimum_time_limit=5)
        c = one_call("large", play, "bqm", mon)
        limit("large", c, 5, mon)
        mon.expect("record", rec.get("properties") is not None and len(rec.get("sample", ())) == 2600, "large: record incomplete", key=spec["seed"])


def work(job, mon):
    if job["cases"][0]["q"] == "large":
        return large(job["cases"][0], mon)
    qm.each(job, mon, one)

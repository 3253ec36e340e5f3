"""C22 The constrained quantum model is the same problem."""
from vp import core, qm, sut

RULE = ("one observation = one constraint or objective evaluated on one assignment in both models, or one variable's range; distinct by "
        "(problem, constraint, assignment restricted to it) or (problem, variable)")
NEED = {"judged:constraint": 6000, "judged:objective": 1500, "judged:range": 1200, "judged:feasible": 1500, "satisfied": 2500, "violated": 1500,
        "problems:generic": 250, "problems:dispatch": 60, "equalities": 200, "shifted ranges": 100,
        "just short of a constraint": 200, "fractions": 50}


def setup():
    sut.load()


def jobs(tier, rng):
    q = tier == "quick"
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 2 == 0} for k in range(400 if q else 12000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9), "small": k % 3 > 0} for k in range(90 if q else 2500)]
    sp += [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 2 == 0, "quarters": True} for k in range(120 if q else 3000)]
    rng.shuffle(sp)
    return qm.batches(sp, 16)


def compare(label, lin, cqm, mon, rng, n=6):
    """the constrained model against the linear problem, on assignments"""
    names = list(cqm.variables)
    ok = mon.expect("variables", set(names) == set(lin.vars), "%s: variables %s, expected %s" % (label, sorted(map(str, names)), sorted(lin.vars)), key=label)
    if not ok:
        return
    shift = {}
    for v, (lo, hi) in lin.vars.items():
        a, b = cqm.lower_bound(v), cqm.upper_bound(v)
        vt = getattr(cqm.vartype(v), "name", str(cqm.vartype(v)))
        if lo:
            mon.ev("shifted ranges")
        # counting from the lower end is the same range
        mon.expect("range", b - a == hi - lo and vt in ("INTEGER", "BINARY") and (vt != "BINARY" or hi - lo == 1),
                   "%s: variable %s is %s %s..%s, expected %s..%s" % (label, v, vt, a, b, lo, hi), key=(label, v), detail=lin.text())
        shift[v] = a - lo
    same = set(cqm.constraints) == set(lin.cons)
    mon.expect("number of constraints", len(cqm.constraints) == len(lin.cons), "%s: %s constraints, expected %s" % (label, len(cqm.constraints), len(lin.cons)), key=label)
    mon.ev("equalities", sum(c[2] == 0 for c in lin.cons.values()))
    xs = lin.assignments(rng, n)
    for name in rng.sample(list(lin.cons), min(2, len(lin.cons))):
        # short of one constraint by as little as there is
        x = lin.almost(name, rng, .25)
        if x is not None:
            mon.ev("just short of a constraint")
            xs.append(x)
    for x in xs:
        y = {v: x[v] + shift[v] for v in x}
        sat = {}
        for name, c in cqm.constraints.items():
            d = c.lhs.energy(y) - c.rhs
            sat[name] = {"<=": d <= 1e-9, ">=": d >= -1e-9, "==": abs(d) <= 1e-9}[getattr(c.sense, "value", c.sense)]
        for name in lin.cons:
            want = lin.violation(name, x) == 0
            mon.ev("satisfied" if want else "violated")
            if same:
                mon.expect("constraint", sat[name] == want, lambda: "%s: constraint %s is %s on %s, expected %s" % (label, name, sat[name], x, want),
                           key=(label, name, tuple(x[v] for v in lin.cons[name][0])), sample="%s %s on %s" % (name, want, x), detail=lin.text())
        feas = all(sat.values())
        mon.expect("feasible", feas == lin.feasible(x) and sum(sat.values()) == sum(lin.violation(n, x) == 0 for n in lin.cons),
                   lambda: "%s: feasible %s, expected %s on %s" % (label, feas, lin.feasible(x), x), key=(label, tuple(x.values())), detail=lin.text())
        got = cqm.objective.energy(dict(y)) if len(cqm.objective.variables) else float(cqm.objective.offset)
        want = lin.objective(x)
        mon.expect("objective", abs(got - want) < 1e-7, lambda: "%s: objective %s, expected %s on %s" % (label, got, want, x),
                   key=(label, tuple(x.values())) if want else None, detail=lin.text())


def one(label, lin, mon, rng):
    if not qm.whole(lin.prob):
        mon.ev("fractions")
    with mon.sut("building the constrained model", detail=lin.text()):
        cqm = sut.rs.convert_to_cqm(lin.prob)
    compare(label, lin, cqm, mon, rng)


def work(job, mon):
    qm.each(job, mon, one)

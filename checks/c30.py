"""C30 Reported problem sizes are true."""
import random

from vp import core, ilp, prog, qm, sut, workload

RULE = ("one observation = one reported size (order choices, delays, constraints, couplings, fields) or one acceptance of a solution's order choices; distinct by "
        "(problem, quantity, value)")
NEED = {"judged:counted": 180, "judged:printed": 180, "judged:order choices kept": 200, "judged:unclear choice refused": 100, "judged:couplings": 120, "judged:fields": 120,
        "problems:syn": 150, "problems:gen": 20, "problems:walk": 10, "look-alike names": 40, "vanishing fields": 5, "vanishing couplings": 5}
LOOK = ["y", "z", "Ty", "y_1", "z_2", "Delays", "Kzy", "1y", "2z", "xyz", "in", "y_"]


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    q = tier == "quick"
    out = ilp.batches(ilp.specs(rng, syn=220 if q else 8000, world=40 if q else 800, walk=20 if q else 500, bundled=(0, 3) if q else range(6)), 10)
    sp = [{"q": "generic", "seed": rng.randrange(10 ** 9), "shifted": k % 3 == 0} for k in range(220 if q else 5000)]
    sp += [{"q": "dispatch", "seed": rng.randrange(10 ** 9)} for k in range(60 if q else 1500)]
    return out + qm.batches(sp, 10)


def renamed(case, rng):
    """the same problem with train names that look like the names of other quantities"""
    old = list(case.ts["J"])
    new = dict(zip(old, rng.sample(LOOK, len(old)))) if len(old) <= len(LOOK) else {}
    if not new:
        return case
    st = {s for j in old for s in case.path(j)}
    ts, tt = case.ts, case.tt
    n = lambda j: new.get(j, j)
    T = {"J": [n(j) for j in ts["J"]], "Paths": {n(j): p for j, p in ts["Paths"].items()},
         "Jd": {s: {sp: [[n(j) for j in g] for g in gs] for sp, gs in m.items()} for s, m in ts["Jd"].items()},
         "Josingle": {k: [[n(a), n(b)] for a, b in prs] for k, prs in ts["Josingle"].items()},
         "Jround": {k: [[n(a), n(b)] for a, b in prs] for k, prs in ts["Jround"].items()},
         "Jtrack": {k: [[n(j) for j in g] for g in gs] for k, gs in ts["Jtrack"].items()},
         "Jswitch": {k: [{n(j): m for j, m in p.items()} for p in prs] for k, prs in ts["Jswitch"].items()}}
    for k in ("skip_station", ):
        if k in ts:
            T[k] = {n(j): s for j, s in ts[k].items()}
    if "add_swithes_at_s" in ts:
        T["add_swithes_at_s"] = ts["add_swithes_at_s"]

    def keys(d, m):
        out = {}
        for j in old:
            for s in case.path(j):
                if "%s_%s" % (j, s) in d and m == 1:
                    out["%s_%s" % (n(j), s)] = d["%s_%s" % (j, s)]
                for sp in st:
                    if m == 2 and "%s_%s_%s" % (j, s, sp) in d:
                        out["%s_%s_%s" % (n(j), s, sp)] = d["%s_%s_%s" % (j, s, sp)]
                    for jp in old:
                        if m == 3 and "%s_%s_%s_%s" % (j, jp, s, sp) in d:
                            out["%s_%s_%s_%s" % (n(j), n(jp), s, sp)] = d["%s_%s_%s_%s" % (j, jp, s, sp)]
        return out
    tau = tt["tau"]
    U = {"tau": {"pass": keys(tau["pass"], 2), "headway": keys(tau["headway"], 3), "stop": keys(tau["stop"], 1), "prep": keys(tau["prep"], 1), "res": tau["res"]},
         "initial_conditions": keys(tt["initial_conditions"], 1), "penalty_weights": keys(tt["penalty_weights"], 1)}
    if "schedule" in tt:
        U["schedule"] = keys(tt["schedule"], 1)
    return ilp.Case(T, U, case.d_max, case.cat, case.label + " renamed")


def one(case, mon, rng):
    if case.label.startswith("synthetic") and rng.random() < .5:
        mon.ev("look-alike names")
        case = renamed(case, rng)
    with mon.sut("building the optimisation model", detail=case.describe()):
        prob = sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat=case.cat)
    names = {ilp.vname(*k) for k in case.slots()}
    vs = prob.variables()
    n_delay = sum(v.name in names for v in vs)
    n_order = len(vs) - n_delay
    n_cons = len(prob.constraints)
    want = (n_order, n_delay, n_cons)
    with mon.sut("counting the variables of a problem", detail=case.describe()):
        got = sut.hp.count_vars(prob)
    mon.expect("counted", tuple(got) == want, "%s: counted %s (order choices, delays, constraints), the problem has %s" % (case.label, got, want), key=(case.label, want),
               sample="%s: %s" % (case.label, want), mech="counted", detail=case.describe())
    # after a solution
    noise = rng.random() < .3
    for v in vs:
        if v.name in names:
            v.varValue = rng.choice([0.0, float(case.d_max), 1.0, rng.uniform(0, case.d_max) if case.cat != "Integer" else 2.0])
        else:
            v.varValue = rng.choice([0.0, 1.0]) + (rng.choice([-1, 1]) * 1e-13 if noise else 0.0)
    import io
    import sys
    buf, old = io.StringIO(), None
    with mon.sut("checking the sizes of a solved problem", detail=case.describe()):
        old, sys.stdout = sys.stdout, buf
        try:
            sut.hp.check_count_vars(prob)
        finally:
            sys.stdout = old
    mon.judge("order choices kept", key=(case.label, n_order))
    nums = [int(x) for x in prog.numbers(buf.getvalue()) if x == int(x)]
    mon.expect("printed", nums[-3:] == list(want), "%s: printed sizes %s, the problem has %s" % (case.label, nums, want), key=(case.label, want), mech="printed", detail=case.describe())
    order = [v for v in vs if v.name not in names]
    if order:
        v = rng.choice(order)
        v.varValue = rng.choice([0.5, 0.3, 2.0, -1.0, 0.99])
        try:
            with core.quiet():
                sut.hp.check_count_vars(prob)
            ok = False
        except AssertionError:
            ok = True
        mon.expect("unclear choice refused", ok, "%s: order choice %s with value %s passes as a yes/no choice" % (case.label, v.name, v.varValue), key=(case.label, v.name), mech="unclear choice", detail=case.describe())


def qubo(label, lin, mon, rng):
    pd = qm.pdict(rng)
    # penalties whose sums are exact, so that a vanishing coefficient is exactly zero
    pd = {k: rng.choice([1.0, 2.0, 0.5, 4.0]) for k in pd}
    with mon.sut("converting to a binary model", detail=lin.text()):
        bqm, _, interp = sut.rs.convert_to_bqm(lin.prob, pd)
    exact = all(float(a) * 64 == int(float(a) * 64) for a in lin.obj[0].values())
    if not exact:
        mon.ev("inexact weights")
        return
    b = bqm.binary
    vs = list(b.variables)
    zero = {v: 0 for v in vs}
    e0 = b.energy(zero)
    one = {v: b.energy(dict(zero, **{v: 1})) - e0 for v in vs}
    # some fields and couplings are made to vanish by hand
    c = bqm.copy()
    cb = c
    if getattr(c.vartype, "name", "") != "BINARY":
        raise core.HarnessGap("binary model in another form")
    for v in vs:
        if rng.random() < .2 and one[v]:
            cb.add_linear(v, -one[v])
            one[v] = 0.0
            mon.ev("vanishing fields")
    pairs = {}
    for (u, v) in list(b.quadratic):
        x = b.energy(dict(zero, **{u: 1, v: 1})) - b.energy(dict(zero, **{u: 1})) - b.energy(dict(zero, **{v: 1})) + e0
        if rng.random() < .1 and x:
            cb.add_quadratic(u, v, -x)
            x = 0.0
            mon.ev("vanishing couplings")
        pairs[(u, v)] = x
    with mon.sut("counting couplings and fields", detail=lin.text()):
        nj, nh = sut.rs.count_quadratic_couplings(c), sut.rs.count_linear_fields(c)
    wj, wh = sum(abs(x) > 1e-9 for x in pairs.values()), sum(abs(x) > 1e-9 for x in one.values())
    mon.expect("couplings", nj == wj, "%s: %s couplings counted, the model has %s" % (label, nj, wj), key=(label, wj), sample="%s: %s couplings" % (label, wj), mech="couplings", detail=lin.text())
    mon.expect("fields", nh == wh, "%s: %s fields counted, the model has %s" % (label, nh, wh), key=(label, wh), mech="fields", detail=lin.text())


def work(job, mon):
    if "q" in job["cases"][0]:
        qm.each(job, mon, qubo)
    else:
        ilp.each(job, mon, one)

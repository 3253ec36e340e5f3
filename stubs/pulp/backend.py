"""Exact MILP backend of the PuLP stand-in.

``solve`` hands the model to a HiGHS process (see lib/vp/milp.py).  A monitor may
replace ``SOLVE`` to play a different solver.
"""
from . import constants as const

CALLS = []   # (problem, solver) of every solve, for monitors
SOLVE = None


def to_arrays(lp):
    vs = lp.variables()
    idx = {id(v): i for i, v in enumerate(vs)}
    obj = [0.0] * len(vs)
    if lp.objective is not None:
        for v, c in lp.objective.items():
            obj[idx[id(v)]] += float(c) * (1 if lp.sense == const.LpMinimize else -1)
    rows = []
    for c in lp.constraints.values():
        coefs = [(idx[id(v)], float(a)) for v, a in c.items()]
        rhs = -float(c.constant)
        lo = rhs if c.sense in (const.LpConstraintGE, const.LpConstraintEQ) else None
        hi = rhs if c.sense in (const.LpConstraintLE, const.LpConstraintEQ) else None
        rows.append((coefs, lo, hi))
    lb = [None if v.lowBound is None else float(v.lowBound) for v in vs]
    ub = [None if v.upBound is None else float(v.upBound) for v in vs]
    integer = [1 if v.cat == const.LpInteger else 0 for v in vs]
    return vs, dict(obj=obj, rows=rows, lb=lb, ub=ub, integer=integer)


def default_solve(lp, solver):
    from vp import milp
    vs, m = to_arrays(lp)
    res = milp.solve(m)
    if res["status"] == "optimal":
        for v, x in zip(vs, res["x"]):
            v.varValue = float(round(x)) if v.cat == const.LpInteger else float(x)
        lp.assignStatus(const.LpStatusOptimal)
    elif res["status"] == "infeasible":
        lp.assignStatus(const.LpStatusInfeasible)
    elif res["status"] == "unbounded":
        lp.assignStatus(const.LpStatusUnbounded)
    else:
        lp.assignStatus(const.LpStatusNotSolved)
    return lp.status


def solve(lp, solver=None, **kwargs):
    CALLS.append((lp, solver))
    return (SOLVE or default_solve)(lp, solver)

"""Line-oriented MILP server (runs under the CPython tool interpreter).

One JSON request per line on stdin, one JSON answer per line on stdout.
Request: {"obj": [...], "rows": [[[[i, a], ...], lo, hi], ...], "lb": [...],
          "ub": [...], "integer": [...], "time": seconds}
"""
import json
import os
import sys

import numpy as np
from scipy.optimize import milp, LinearConstraint, Bounds
from scipy.sparse import csr_matrix


def answer(m):
    n = len(m["obj"])
    inf = np.inf
    lb = np.array([-inf if x is None else x for x in m["lb"]], dtype=float)
    ub = np.array([inf if x is None else x for x in m["ub"]], dtype=float)
    data, ri, ci, lo, hi = [], [], [], [], []
    r = 0
    for coefs, l, h in m["rows"]:
        acc = {}
        for i, a in coefs:
            acc[i] = acc.get(i, 0.0) + a
        acc = {i: a for i, a in acc.items() if a != 0}
        if not acc:
            if (l is not None and l > 1e-9) or (h is not None and h < -1e-9):
                return {"status": "infeasible"}
            continue
        for i, a in acc.items():
            data.append(a)
            ri.append(r)
            ci.append(i)
        lo.append(-inf if l is None else l)
        hi.append(inf if h is None else h)
        r += 1
    if n == 0:
        return {"status": "optimal", "x": [], "fun": 0.0}
    if np.any(lb > ub):
        return {"status": "infeasible"}
    cons = ()
    if r:
        cons = LinearConstraint(csr_matrix((data, (ri, ci)), shape=(r, n)), np.array(lo), np.array(hi))
    opts = {"time_limit": float(m.get("time", 60)), "mip_rel_gap": float(m.get("gap", 0.0))}
    res = milp(np.array(m["obj"], dtype=float), constraints=cons, bounds=Bounds(lb, ub),
               integrality=np.array(m["integer"]), options=opts)
    if res.status == 0:
        return {"status": "optimal", "x": [float(v) for v in res.x], "fun": float(res.fun)}
    if res.status == 2:
        return {"status": "infeasible"}
    if res.status == 3:
        return {"status": "unbounded"}
    if res.status == 4 and "infeasible" in str(res.message).lower():
        # HiGHS "unbounded or infeasible": decide with a zero objective
        res2 = milp(np.zeros(n), constraints=cons, bounds=Bounds(lb, ub),
                    integrality=np.array(m["integer"]), options=opts)
        if res2.status == 2:
            return {"status": "infeasible"}
        if res2.status == 0:
            return {"status": "unbounded"}
    out = {"status": "limit", "message": str(res.message)}
    if res.x is not None:  # best plan found so far
        out["x"] = [float(v) for v in res.x]
    return out


def main():
    # the solver library prints notes of its own: keep them off the answer channel
    out = os.fdopen(os.dup(1), "w")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    for line in sys.stdin:
        if not line.strip():
            continue
        num = None
        try:
            req = json.loads(line)
            num = req.get("id")
            ans = answer(req)
        except Exception as exc:  # reported to the client, which treats it as an error
            ans = {"status": "error", "message": repr(exc)}
        ans["id"] = num
        out.write(json.dumps(ans) + "\n")
        out.flush()


if __name__ == "__main__":
    main()

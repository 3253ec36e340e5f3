"""Dispatching problems: reference rules, seeded problems, and access to the model built by the real code.

A plan is a dict (train, station) -> delay.  Times are linear expressions (constant, {(train, station): coefficient}).
"""
import copy
import itertools
import random
import re

from . import core, milp, sut, workload

EPS = 0.05      # a rule counts as broken if it fails by at least this many minutes
TOL = 1e-4      # numerical tolerance when a plan is evaluated


def add(*terms):
    c, d = 0.0, {}
    for sign, t in terms:
        if isinstance(t, (int, float)):
            c += sign * t
            continue
        c += sign * t[0]
        for k, a in t[1].items():
            d[k] = d.get(k, 0.0) + sign * a
    return (c, {k: a for k, a in d.items() if a})


def minus(a, b):
    return add((1, a), (-1, b))


def value(e, plan):
    return e[0] + sum(a * plan[k] for k, a in e[1].items())


class Rule:
    """alternatives, each a list of expressions that must be non-negative; one alternative must hold"""

    def __init__(self, kind, key, alts):
        self.kind, self.key, self.alts = kind, key, alts

    def holds(self, plan, tol=TOL):
        return any(all(value(e, plan) >= -tol for e in alt) for alt in self.alts)

    def __repr__(self):
        return "%s%r" % (self.kind, self.key)


class Case:
    def __init__(self, ts, tt, d_max, cat, label, tight=True):
        self.ts, self.tt, self.d_max, self.cat, self.label, self.tight = ts, tt, d_max, cat, label, tight
        self._E = {}

    # what the plan means ------------------------------------------------------
    def path(self, j):
        return self.ts["Paths"][j]

    def prev(self, j, s):
        k = self.path(j).index(s)
        return self.path(j)[k - 1] if k else None

    def skipped(self, j, s):
        return j in self.ts.get("skip_station", {}) and self.ts["skip_station"][j] == s

    def successor(self, j, s):
        return next((p[1] for p in self.ts["Jround"].get(s, []) if p[0] == j), None)

    def predecessor(self, j, s):
        return next((p[0] for p in self.ts["Jround"].get(s, []) if p[1] == j), None)

    def same_stock(self, j, jp):
        return any(set(p) == {j, jp} for prs in self.ts["Jround"].values() for p in prs)

    def departs(self, j, s):
        return not self.skipped(j, s) and self.successor(j, s) is None

    def slots(self):
        return [(j, s) for j in self.ts["J"] for s in self.path(j) if self.departs(j, s)]

    def run(self, j, s, sp):
        return float(self.tt["tau"]["pass"]["%s_%s_%s" % (j, s, sp)])

    def stop(self, j, s):
        return float(self.tt["tau"]["stop"]["%s_%s" % (j, s)])

    def E(self, j, s):
        if (j, s) not in self._E:
            k = "%s_%s" % (j, s)
            base = self.tt["initial_conditions"].get(k)
            if base is None:
                sp = self.prev(j, s)
                base = self.E(j, sp) + self.run(j, sp, s) + self.stop(j, s)
            if k in self.tt.get("schedule", {}):
                base = max(base, self.tt["schedule"][k])
            self._E[(j, s)] = float(base)
        return self._E[(j, s)]

    def out(self, j, s):
        return (self.E(j, s), {(j, s): 1.0})

    def arr(self, j, s):
        sp = self.prev(j, s)
        return add((1, self.out(j, sp)), (1, self.run(j, sp, s)))

    def enters(self, j, s):
        """when the train begins to occupy its track in the station"""
        p = self.predecessor(j, s)
        if p is not None:
            return self.arr(p, s)
        return self.arr(j, s) if self.prev(j, s) is not None else (self.E(j, s), {})

    def leaves(self, j, s):
        """when it frees the track; None if it ends there"""
        n = self.successor(j, s)
        if n is not None:
            return self.out(n, s)
        return None if self.skipped(j, s) else self.out(j, s)

    # rules ---------------------------------------------------------------------
    def rules(self, extra=False):
        """rules every accepted plan must obey; extra: also what the model may but need not enforce"""
        ts, tt = self.ts, self.tt
        R = []
        for j in ts["J"]:
            for s in self.path(j)[1:]:
                if self.departs(j, s):
                    R.append(Rule("stay", (j, s), [[minus(self.out(j, s), add((1, self.arr(j, s)), (1, self.stop(j, s))))]]))
        for s, prs in ts["Jround"].items():
            for j, jp in prs:
                prep = float(tt["tau"]["prep"]["%s_%s" % (jp, s)])
                R.append(Rule("circulation", (j, jp, s), [[minus(self.out(jp, s), add((1, self.arr(j, s)), (1, prep)))]]))

        def follow(j, jp, s, sp):
            h = float(tt["tau"]["headway"]["%s_%s_%s_%s" % (j, jp, s, sp)])
            return minus(self.out(jp, s), add((1, self.out(j, s)), (1, h)))

        lines = set()
        for s, m in ts["Jd"].items():
            for sp, groups in m.items():
                for g in groups:
                    for j, jp in itertools.combinations(g, 2):
                        lines.add((frozenset((j, jp)), s, sp))
                        R.append(Rule("headway", (j, jp, s, sp), [[follow(j, jp, s, sp)], [follow(jp, j, s, sp)]]))
        for (s, sp), prs in ts["Josingle"].items():
            for j, jp in prs:
                if not self.same_stock(j, jp):
                    R.append(Rule("single", (j, jp, s, sp), [[minus(self.out(j, s), self.arr(jp, s))], [minus(self.out(jp, sp), self.arr(j, sp))]]))
        res = float(tt["tau"].get("res", 0))
        for s, groups in ts["Jtrack"].items():
            r = res if s in ts.get("add_swithes_at_s", ()) else 0.0
            for g in groups:
                for j, jp in itertools.combinations(g, 2):
                    if self.same_stock(j, jp):
                        continue
                    lj, lp = self.leaves(j, s), self.leaves(jp, s)
                    ej, ep = self.enters(j, s), self.enters(jp, s)
                    if lj is not None and lp is not None:
                        a = add((1, ep), (-1, lj), (-1, r))
                        b = add((1, ej), (-1, lp), (-1, r))
                        R.append(Rule("track", (j, jp, s), [[a], [b]]))
                        sp = self.prev(j, s)
                        if sp is not None and self.prev(jp, s) == sp and (frozenset((j, jp)), sp, s) in lines:
                            R.append(Rule("order", (j, jp, sp, s), [[follow(j, jp, sp, s), a], [follow(jp, j, sp, s), b]]))
                    elif extra and (lj is not None or lp is not None):
                        # a train that ends there does not come in while the other is there
                        if lj is None:
                            ej, ep, lj = ep, ej, lp
                        R.append(Rule("ending", (j, jp, s), [[add((1, ep), (-1, lj), (-1, r))], [minus(ej, ep)]]))
        for s, prs in ts["Jswitch"].items():
            for p in prs:
                (j, a), (jp, b) = p.items()
                if self.same_stock(j, jp):
                    continue
                x = self.arr(j, s) if a == "in" else self.out(j, s)
                y = self.arr(jp, s) if b == "in" else self.out(jp, s)
                R.append(Rule("switch", (j, a, jp, b, s), [[add((1, y), (-1, x), (-1, res))], [add((1, x), (-1, y), (-1, res))]]))
        return R

    def coupling(self, rules):
        """pairs that pass each other on a line and share a switch in both end stations, without being a single-line pair:
        one order choice serves both switches (known finding)"""
        single = set(frozenset(((j, s), (jp, sp))) for (s, sp), prs in self.ts["Josingle"].items() for j, jp in prs if not self.same_stock(j, jp))
        by = {}
        for r in rules:
            if r.kind == "switch" and {r.key[1], r.key[3]} == {"in", "out"}:
                j, a, jp, b, s = r.key
                dj = s if a == "out" else self.prev(j, s)
                dp = s if b == "out" else self.prev(jp, s)
                k = frozenset(((j, dj), (jp, dp)))
                if k not in single:
                    by.setdefault(k, []).append((r, j))
        out = []
        for k, rs in by.items():
            if len(rs) > 1:
                (r1, j1), (r2, j2) = rs[:2]
                # alternative 0 of a rule: its first train goes first
                alts = r2.alts if j1 == j2 else r2.alts[::-1]
                out.append(Rule("coupled", (r1.key, r2.key), [r1.alts[0] + alts[0], r1.alts[1] + alts[1]]))
        return out

    def weights(self):
        return {k: float(self.tt["penalty_weights"].get("%s_%s" % k, 0)) for k in self.slots()}

    def describe(self):
        return {"train_sets": self.ts, "timetable": self.tt, "d_max": self.d_max, "cat": self.cat}


def vname(j, s):
    """the name of a delay in the model: the solver package replaces some characters"""
    return re.sub(r"[-+\[\] >/]", "_", "Delays_%s_%s" % (j, s))


# the model built by the real code ---------------------------------------------------
class Real:
    def __init__(self, case, mon):
        self.case = case
        with mon.sut("building the optimisation model", detail=case.describe()):
            self.prob = sut.rs.create_linear_problem(copy.deepcopy(case.ts), copy.deepcopy(case.tt), case.d_max, cat=case.cat)
        from pulp import backend
        self.vars, self.model = backend.to_arrays(self.prob)
        by = {v.name: i for i, v in enumerate(self.vars)}
        self.idx, self.absent = {}, []
        for j, s in case.slots():
            i = by.get(vname(j, s))
            if i is None:
                self.absent.append((j, s))
            else:
                self.idx[(j, s)] = i
        # a departure that no rule and no weight touches has no variable in the model: it is free within the limits
        for k in self.absent:
            self.idx[k] = len(self.model["obj"])
            self.model["obj"].append(0.0)
            self.model["lb"].append(0.0)
            self.model["ub"].append(float(case.d_max))
            self.model["integer"].append(1 if case.cat == "Integer" else 0)
        self.back = {i: k for k, i in self.idx.items()}

    def row(self, e, lo, hi=None):
        return ([(self.idx[k], a) for k, a in e[1].items()], None if lo is None else lo - e[0], None if hi is None else hi - e[0])

    def solve(self, rows=(), obj=None, fix=None, time=60, gap=0.0):
        m = dict(self.model)
        m["rows"] = list(m["rows"]) + list(rows)
        if obj is not None:
            m["obj"] = [0.0] * len(m["obj"])
            for k, a in obj.items():
                m["obj"][self.idx[k]] += a
        if fix is not None:
            m["lb"], m["ub"] = list(m["lb"]), list(m["ub"])
            for k, x in fix.items():
                i = self.idx[k]
                if x < m["lb"][i] - 1e-6 or x > m["ub"][i] + 1e-6:
                    return {"status": "infeasible"}
                m["lb"][i] = m["ub"][i] = x
        return milp.solve(m, time=time, gap=gap)

    def plan(self, res):
        out = {}
        for k, i in self.idx.items():
            x = res["x"][i]
            out[k] = float(round(x)) if self.model["integer"][i] else x
        return out


UNDECIDED = "undecided"


def break_rule(real, rule, eps=EPS, time=60):
    """plan accepted by the model that breaks the rule, or None"""
    for choice in itertools.product(*rule.alts):
        rows = [real.row(e, None, -eps) for e in choice]
        res = real.solve(rows, obj={}, time=time)
        if res["status"] == "optimal":
            return real.plan(res)
        if res["status"] == "limit":
            return UNDECIDED
    return None


# reference model ----------------------------------------------------------------
class Ref:
    def __init__(self, case, rules):
        self.case = case
        self.keys = case.slots()
        self.idx = {k: i for i, k in enumerate(self.keys)}
        n = len(self.keys)
        self.lb, self.ub = [0.0] * n, [float(case.d_max)] * n
        self.integer = [1 if case.cat == "Integer" else 0] * n
        self.rows = []
        for r in rules:
            if len(r.alts) == 1:
                for e in r.alts[0]:
                    self.rows.append(([(self.idx[k], a) for k, a in e[1].items()], -e[0], None))
                continue
            y = len(self.lb)
            self.lb.append(0.0), self.ub.append(1.0), self.integer.append(1)
            for n_alt, alt in enumerate(r.alts):
                for e in alt:
                    low = e[0] + sum(a * (case.d_max if a < 0 else 0) for a in e[1].values())
                    if low >= 0:
                        continue
                    coef = [(self.idx[k], a) for k, a in e[1].items()]
                    # alternative 0 when y = 0, alternative 1 when y = 1
                    if n_alt == 0:
                        self.rows.append((coef + [(y, -low)], -e[0], None))
                    else:
                        self.rows.append((coef + [(y, low)], -e[0] + low, None))

    def solve(self, obj, fix=None, time=60):
        o = [0.0] * len(self.lb)
        for k, a in obj.items():
            o[self.idx[k]] += a
        lb, ub = list(self.lb), list(self.ub)
        if fix:
            for k, x in fix.items():
                lb[self.idx[k]] = ub[self.idx[k]] = x
        return milp.solve(dict(obj=o, rows=self.rows, lb=lb, ub=ub, integer=self.integer), time=time)

    def plan(self, res):
        return {k: float(round(res["x"][i])) if self.integer[i] else res["x"][i] for k, i in self.idx.items()}


def rename(case, S, T):
    """the same problem with stations and trains named by S and T -> (problem, new name of each departure)"""
    # stations and trains named only in tables
    for s in list(case.ts["Jd"]) + list(case.ts["Jtrack"]) + list(case.ts["Jswitch"]) + list(case.ts["Jround"]) + list(case.ts.get("add_swithes_at_s", ())):
        S.setdefault(s, "unused%d" % len(S))
    ts, tt = case.ts, case.tt
    J = list(ts["J"])
    n_st = sorted(set(s for p in ts["Paths"].values() for s in p), key=str)
    key = {"%s_%s" % (j, s): "%s_%s" % (T[j], S[s]) for j in J for s in S}
    key3 = {"%s_%s_%s" % (j, s, sp): "%s_%s_%s" % (T[j], S[s], S[sp]) for j in J for s in n_st for sp in n_st}
    key4 = {"%s_%s_%s_%s" % (j, jp, s, sp): "%s_%s_%s_%s" % (T[j], T[jp], S[s], S[sp]) for j in J for jp in J for s in n_st for sp in n_st}
    g = lambda groups: [[T[j] for j in grp] for grp in groups]
    n = {"Paths": {T[j]: [S[s] for s in p] for j, p in ts["Paths"].items()}, "J": [T[j] for j in ts["J"]],
         "Jd": {S[a]: {S[b]: g(x) for b, x in m.items()} for a, m in ts["Jd"].items()},
         "Josingle": {(S[a], S[b]): g(x) for (a, b), x in ts["Josingle"].items()},
         "Jround": {S[a]: g(x) for a, x in ts["Jround"].items()}, "Jtrack": {S[a]: g(x) for a, x in ts["Jtrack"].items()},
         "Jswitch": {S[a]: [{T[j]: m for j, m in e.items()} for e in x] for a, x in ts["Jswitch"].items()}}
    if "skip_station" in ts:
        n["skip_station"] = {T[j]: S[s] for j, s in ts["skip_station"].items()}
    if "add_swithes_at_s" in ts:
        n["add_swithes_at_s"] = [S[s] for s in ts["add_swithes_at_s"]]
    tau = tt["tau"]
    m = {"tau": {"pass": {key3[k]: v for k, v in tau["pass"].items()}, "headway": {key4[k]: v for k, v in tau["headway"].items()},
                 "stop": {key[k]: v for k, v in tau["stop"].items()}, "prep": {key[k]: v for k, v in tau["prep"].items()}, "res": tau["res"]},
         "initial_conditions": {key[k]: v for k, v in tt["initial_conditions"].items()},
         "penalty_weights": {key[k]: v for k, v in tt["penalty_weights"].items()}}
    if "schedule" in tt:
        m["schedule"] = {key[k]: v for k, v in tt["schedule"].items()}
    return Case(n, m, case.d_max, case.cat, case.label + " renamed"), {(j, s): (T[j], S[s]) for j, s in case.slots()}


# seeded problems ------------------------------------------------------------------
STYLES = ("letters", "bundled", "numbers", "substring", "words", "spelled")


def names(rng, n_st, n_tr, style=None):
    style = style or rng.choice(STYLES)
    if style == "letters":
        st, tr = list("ABCDEFGH")[:n_st], list(range(n_tr))
    elif style == "bundled":
        st = rng.sample(["KO", "KO(STM)", "KO(KS)", "KO(IC)", "KZ", "CB", "GLC", "Ty", "Mi", "MJ", "RCB", "KL"], n_st)
        tr = rng.sample([94766, 26103, 5312, 40518, 34319, 14006, 14, 1, 40150, 41004, 45101, 4500, 45009, 64359, 4486], n_tr)
    elif style == "numbers":
        st, tr = rng.sample([1, 3, 5, 10, 11, 13, 20], n_st), ["Ks%d" % i if rng.random() < .6 else "Ic%d" % i for i in range(1, n_tr + 1)]
    elif style == "substring":
        st, tr = rng.sample(["A", "AB", "ABC", "B", "BC", "KO", "KO(STM)", "O"], n_st), rng.sample([1, 11, 111, 2, 12, 21, 112, 10, 20, 110], n_tr)
    elif style == "spelled":
        st = rng.sample(["Katowice-Zawodzie", "via Gt", "KTC/CB", "Gliwice [Lab]", "KO+", "Tychy", "->MJ"], n_st)
        tr = rng.sample(["Ks-1", "R 14", "Os/2", "Ic[3]", "S 1+", "94-766", "Ks 5", "T7"], n_tr)
    else:
        st, tr = ["S%d" % i for i in range(1, n_st + 1)], ["j%d" % i for i in range(1, n_tr + 1)]
    return st, tr


def synthetic(seed, n_st=None, n_tr=None, style=None, small=False, loose=False, feasible=True, d_max=None, shape=None):
    """a consistent problem on a small line: sections with one or more tracks, station tracks, shared switches, turnarounds"""
    rng = random.Random("ilp/%s" % seed)
    n_st = n_st or (rng.choice([2, 3]) if small else rng.choice([2, 3, 3, 4, 5]))
    n_tr = n_tr or (rng.choice([2, 2, 3]) if small else rng.choice([2, 3, 4, 4, 5, 6]))
    st, tr = names(rng, n_st, n_tr, style)
    whole = rng.random() < .75
    num = (lambda a, b: rng.randint(a, b)) if whole else (lambda a, b: round(rng.uniform(a, b), rng.choice([1, 1, 2])))
    res = rng.choice([1, 1, 1, 2, 3]) if whole else rng.choice([1, 0.5, 1.5])
    d_max = d_max or rng.choice([4, 6, 8, 10] if small else [5, 10, 10, 15, 20])
    kinds = {}
    for i in range(n_st - 1):
        kinds[i] = rng.choice(["single", "single", "double", "double", "mixed"])
    paths, trk, line = {}, {}, {}
    chase = shape == "chase"    # all trains one way over the same tracks, fast ones behind slow ones
    for j in tr:
        if chase:
            paths[j] = list(range(n_st))
            continue
        a = rng.randrange(0, n_st - 1)
        b = rng.randrange(a + 1, n_st) if rng.random() < .5 else n_st - 1
        if rng.random() < .5:
            a, b = 0, b
        p = list(range(a, b + 1))
        if rng.random() < .45:
            p = p[::-1]
        paths[j] = p
    # turnarounds
    jround = {}
    used = set()
    for j in tr:
        for jp in tr:
            if j != jp and j not in used and jp not in used and paths[j][-1] == paths[jp][0] and rng.random() < .35:
                jround.setdefault(st[paths[j][-1]], []).append([j, jp])
                used |= {j, jp}
    # tracks
    stock_in = {jp: j for prs in jround.values() for j, jp in prs}
    n_tracks = [1 if chase else rng.choice([1, 1, 2, 3]) for _ in range(n_st)]
    for j in tr:
        for i in paths[j]:
            trk[(j, i)] = rng.randrange(n_tracks[i])
    for jp, j in stock_in.items():
        trk[(jp, paths[jp][0])] = trk[(j, paths[j][-1])]
    for j in tr:
        for x, y in zip(paths[j], paths[j][1:]):
            k = kinds[min(x, y)]
            line[(j, min(x, y))] = 0 if k == "single" or chase else (0 if x < y else 1) if k == "double" else rng.randrange(2)
    J = list(tr)
    rng.shuffle(J)
    jd, jos = {}, {}
    for x in range(n_st):
        for y in (x - 1, x + 1):
            if not 0 <= y < n_st:
                continue
            groups = {}
            for j in J:
                if (x, y) in zip(paths[j], paths[j][1:]):
                    groups.setdefault(line[(j, min(x, y))], []).append(j)
            if groups:
                g = list(groups.values())
                jd.setdefault(st[x], {})[st[y]] = g
    for x in range(n_st - 1):
        there = [j for j in J if (x, x + 1) in zip(paths[j], paths[j][1:])]
        back = [j for j in J if (x + 1, x) in zip(paths[j], paths[j][1:])]
        for j in there:
            for jp in back:
                if line[(j, x)] == line[(jp, x)]:
                    if rng.random() < .5:
                        jos.setdefault((st[x], st[x + 1]), []).append([j, jp])
                    else:
                        jos.setdefault((st[x + 1], st[x]), []).append([jp, j])
    skip = {}
    for j in tr:
        if rng.random() < .5:
            skip[j] = st[paths[j][-1]]
    jtrack = {}
    for i in range(n_st):
        if chase or rng.random() < .8:
            groups = {}
            for j in J:
                if i in paths[j]:
                    groups.setdefault(trk[(j, i)], []).append(j)
            if groups:
                jtrack[st[i]] = list(groups.values())
    hand = set((j, s) for s, prs in jround.items() for j, _ in prs)
    jsw = {}
    dens = rng.choice([0, .15, .4])
    for i in range(n_st):
        at = [j for j in J if i in paths[j]]
        rng.shuffle(at)
        for j, jp in itertools.combinations(at, 2):
            for a in ("in", "out"):
                for b in ("in", "out"):
                    ok = True
                    for t, m in ((j, a), (jp, b)):
                        if m == "in" and paths[t][0] == i:
                            ok = False
                        if m == "out" and (skip.get(t) == st[i] or (t, st[i]) in hand):
                            ok = False
                    if ok and rng.random() < dens:
                        jsw.setdefault(st[i], []).append({j: a, jp: b})
    # times
    tp, th, tstop, tprep = {}, {}, {}, {}
    speed = {j: rng.choice([0.4, 2.5] if chase else [0.7, 1, 1.5]) for j in tr}
    for j in tr:
        for x, y in zip(paths[j], paths[j][1:]):
            v = max(1, num(1, 8) * speed[j])
            tp["%s_%s_%s" % (j, st[x], st[y])] = round(v) if whole else round(v, 2)
        for n_i, i in enumerate(paths[j]):
            if n_i or rng.random() < .5:
                tstop["%s_%s" % (j, st[i])] = num(0, 4)
    for jp, j in stock_in.items():
        tprep["%s_%s" % (jp, st[paths[jp][0]])] = num(0, 6)
    for s, m in jd.items():
        for sp, groups in m.items():
            for g in groups:
                for j, jp in itertools.permutations(g, 2):
                    slow = tp["%s_%s_%s" % (j, s, sp)] - tp["%s_%s_%s" % (jp, s, sp)]
                    h = num(1, 5)
                    if not loose:
                        h = max(h, slow + 1)
                    th["%s_%s_%s_%s" % (j, jp, s, sp)] = h if whole else round(h, 2)
    span = rng.choice([6, 15, 30]) * (1 if small else rng.choice([1, 2]))
    ini, sched = {}, {}
    origin = rng.choice([0, 0, -20, 100])
    case = None
    for j in tr:
        ini["%s_%s" % (j, st[paths[j][0]])] = origin + num(0, span)
    ts = {"Paths": {j: [st[i] for i in paths[j]] for j in J}, "J": J, "Jd": jd, "Josingle": jos, "Jround": jround, "Jtrack": jtrack, "Jswitch": jsw}
    if skip or rng.random() < .5:
        ts["skip_station"] = skip
    if rng.random() < .1:
        ts["add_swithes_at_s"] = rng.sample(st, rng.randrange(1, n_st + 1))
    taus = {"pass": tp, "headway": th, "stop": tstop, "prep": tprep, "res": res}
    tt = {"tau": taus, "initial_conditions": ini, "penalty_weights": {}}
    if rng.random() < .6:
        tt["schedule"] = sched
    cat = rng.choice(["Integer", "Integer", "Integer", "Continuous"])
    case = Case(ts, tt, d_max, cat, "synthetic %s" % seed, tight=not loose)
    if "schedule" in tt:
        for j in J:
            e = None
            for s in case.path(j):
                k = "%s_%s" % (j, s)
                if rng.random() < .5:
                    case._E = {}
                    sched[k] = case.E(j, s) + rng.choice([0, 0, 1, 3, -2])
        case._E = {}
    slots = case.slots()
    for k in slots:
        if rng.random() < (.5 if rng.random() < .7 else .2):
            tt["penalty_weights"]["%s_%s" % k] = rng.choice([1, 1, 2, 0.5, 1.5, 1.75, 0.9, 0, 0.03])
    return case


def from_world(w, rng, d_max=None, r=None, cat=None):
    """the problem the real data pipeline derives from a schedule, with random initial delays"""
    df, hp = sut.df, sut.hp
    td = sut.train_dict(w)
    skip = df.get_skip_stations(td)
    ts = hp.make_train_set(td, w.stations, sut.network(w), skip)
    times = [x for t in w.trains for _, c in t["rows"] for x in (c["Dep"], c["Approx_enter"]) if x]
    ref = rng.choice(times) if times else "12:00"
    r = rng.choice([0, 1, 1]) if r is None else r
    taus = hp.make_taus(td, w.stations, r)
    tt = hp.make_timetable(td, w.stations, skip, ref, taus)
    for j in w.J:
        if rng.random() < .5:
            tt["initial_conditions"] = df.add_delay(tt["initial_conditions"], j, rng.choice([1, 3, 5, 8, 12]))
    for d, ks in ((ts, ("J", "Paths", "Jd", "Josingle", "Jround", "Jtrack", "Jswitch", "skip_station")), (tt, ("tau", "initial_conditions", "penalty_weights", "schedule")),
                  (tt["tau"], ("pass", "headway", "stop", "prep", "res"))):
        for k in ks:
            d[k]        # a part left out is an error of the derivation
    case = Case(ts, tt, d_max or rng.choice([10, 20, 40]), cat or rng.choice(["Integer", "Integer", "Continuous"]), w.label)
    case.reference = ref
    return case


def with_preparation(w, rng):
    """a connection needs a stated turnaround time at the start of the second train"""
    rounds = w.ref_jround()
    if rounds is None:
        raise core.Skip()
    if getattr(w, "csv_path", None):
        return w
    second = {p[1] for prs in rounds.values() for p in prs}
    v = w.sub(w.J)
    v.df = getattr(w, "df", None)
    v.trains = []
    for t in w.trains:
        t = dict(t, rows=[(b, dict(c)) for b, c in t["rows"]])
        if t["number"] in second:
            i = w.stops(t["number"])[0][1]
            c = t["rows"][i][1]
            if not c["Turnaround_time_minutes"]:
                c["Turnaround_time_minutes"] = str(rng.choice([2, 5, 10]))
        v.trains.append(t)
    return v.index()


def make(spec, mon):
    o = spec.get("o", {})
    if spec["p"] == "syn":
        return synthetic(spec["seed"], **o)
    if spec["p"] == "world":
        rng = random.Random("world/%s" % core.digest(spec))
        w = workload.make(spec["world"])
        w = with_preparation(w, rng)
        with mon.sut("deriving the problem from a schedule"):
            return from_world(w, rng, **o)
    raise ValueError(spec)


def specs(rng, syn=0, world=0, walk=0, bundled=(), o=None, wo=None, gen_o=None):
    out = [{"p": "syn", "seed": rng.randrange(10 ** 9), "o": dict(o or {})} for _ in range(syn)]
    for _ in range(world):
        g = dict({"n_tr": rng.choice([3, 4, 5, 6])}, **(gen_o or {}))
        out.append({"p": "world", "seed": 0, "world": {"w": "gen", "seed": rng.randrange(10 ** 9), "o": g}, "o": dict(wo or {})})
    for _ in range(walk):
        out.append({"p": "world", "seed": 0, "world": {"w": "walk", "seed": rng.randrange(10 ** 9), "o": {}}, "o": dict(wo or {})})
    rng.shuffle(out)
    return [{"p": "world", "seed": rng.randrange(10 ** 6), "world": {"w": "bundled", "k": k}, "o": dict(wo or {})} for k in bundled] + out


def batches(specs, n):
    big = [s for s in specs if s.get("world", {}).get("w") == "bundled"]
    rest = [s for s in specs if s not in big]
    return [{"cases": [s]} for s in big] + [{"cases": rest[i:i + n]} for i in range(0, len(rest), n)]


def each(job, mon, fn):
    for spec in job["cases"]:
        mon.job = {"cases": [spec]}
        try:
            case = make(spec, mon)
            mon.ev("problems:" + (spec["p"] if spec["p"] == "syn" else spec["world"]["w"]))
            fn(case, mon, random.Random("case/%s" % core.digest(spec)))
        except core.Skip:
            mon.ev("ended early")


def shape(case, rule):
    """what makes a rule instance different from another for counting"""
    return (rule.kind, tuple(tuple((round(e[0], 3), tuple(sorted(e[1].values()))) for e in alt) for alt in rule.alts))


def feasible_plans(real, rng, n):
    """plans the model accepts, pushed into different corners"""
    out = []
    big = len(real.case.ts["J"]) > 10
    keys = list(real.idx)
    for k in range(n):
        if k == 0:
            obj = None
        elif k == 1:
            obj = {x: -1.0 for x in keys}
        else:
            obj = {x: rng.choice([-3, -1, 0, 1, 2]) * rng.random() for x in keys}
        res = real.solve(obj=obj, time=15 if big else 60, gap=.5 if big else 0.0)
        if "x" in res:  # the best plan is not needed here, any will do
            out.append(real.plan(res))
        elif res["status"] == "infeasible":
            break
        elif res["status"] == "limit":
            raise milp.SolverTrouble("time limit")
    return out


def soundness(case, mon, rng, kinds, n_plans=3, n_rules=None, time=60):
    """hostile use of the model: no accepted plan may break a rule of the given kinds"""
    real = Real(case, mon)
    rules = [r for r in case.rules() if r.kind in kinds]
    for k in kinds:
        mon.ev("rules:" + k, sum(r.kind == k for r in rules))
    plans = feasible_plans(real, rng, n_plans)
    mon.ev("accepted plans", len(plans))
    if not plans:
        mon.ev("model without plan")
    for p in plans:
        for r in rules:
            mon.expect("plan:" + r.kind, r.holds(p), lambda: "%s: accepted plan breaks %s; delays %s" % (case.label, r, p),
                       key=(shape(case, r), tuple(round(x, 3) for x in p.values())), mech=r.kind, detail=case.describe())
    if plans:
        todo = rules if n_rules is None or len(rules) <= n_rules else rng.sample(rules, n_rules)
        for r in todo:
            # a rule that no delay within the limits can break needs no search
            if any(all(low(case, e) >= -EPS / 2 for e in alt) for alt in r.alts):
                mon.ev("cannot be broken:" + r.kind)
                continue
            p = break_rule(real, r, time=time)
            if p is UNDECIDED:
                mon.ev("search undecided:" + r.kind)
                continue
            mon.expect("search:" + r.kind, p is None, lambda: "%s: the model accepts a plan that breaks %s; delays %s" % (case.label, r, p),
                       key=shape(case, r), sample="no plan breaks %r" % r, mech=r.kind, detail=case.describe())
    return real, rules, plans


def low(case, e):
    return e[0] + sum(a * (case.d_max if a < 0 else 0) for a in e[1].values())


def accepts(real, plan, tol=1e-5):
    """is the plan accepted, up to rounding: the plan is put into the model and only the choices are left open"""
    m = real.model
    val = {}
    for k, x in plan.items():
        i = real.idx[k]
        if (m["lb"][i] is not None and x < m["lb"][i] - tol) or (m["ub"][i] is not None and x > m["ub"][i] + tol):
            return False
        val[i] = x
    free = [i for i in range(len(m["obj"])) if i not in val]
    pos = {i: n for n, i in enumerate(free)}
    rows = []
    for coefs, lo, hi in m["rows"]:
        c, left = 0.0, []
        for i, a in coefs:
            if i in val:
                c += a * val[i]
            else:
                left.append((pos[i], a))
        rows.append((left, None if lo is None else lo - c - tol, None if hi is None else hi - c + tol))
    for left, lo, hi in rows:
        if not left and ((lo is not None and lo > 0) or (hi is not None and hi < 0)):
            return False
    rows = [r for r in rows if r[0]]
    pick = lambda x: [x[i] for i in free]
    res = milp.solve(dict(obj=[0.0] * len(free), rows=rows, lb=pick(m["lb"]), ub=pick(m["ub"]), integer=pick(m["integer"])))
    if res["status"] == "limit":
        raise milp.SolverTrouble("no answer on a given plan: %s" % res.get("message"))
    return res["status"] == "optimal"

"""Quantum-side models: seeded linear problems, independent reading of them, energies of binary models."""
import itertools
import random

from . import core, ilp, milp, sut

FAMILIES = ("minimal_span", "single_line", "minimal_stay", "track_occupation", "switch", "circulation")


def pdict(rng):
    """penalties: every family its own"""
    style = rng.choice(["distinct", "distinct", "one", "big"])
    if style == "one":
        p = rng.choice([1, 1.5, 2, 10])
        d = {f: p for f in FAMILIES}
    elif style == "big":
        d = {f: 100 * (i + 1) + rng.random() for i, f in enumerate(FAMILIES)}
    else:
        vals = rng.sample([0.5, 1, 1.25, 2, 2.5, 3, 4, 5, 7, 9.5, 11], len(FAMILIES))
        d = dict(zip(FAMILIES, vals))
    d["occupation"] = 77.0
    d["objective"] = rng.choice([1, 1, 2, 0.5, 3.25])
    return d


# problems -----------------------------------------------------------------
def generic(seed, shifted=False, small=False, quarters=False):
    """a linear problem over bounded whole numbers with constraints of all senses; quarters: times in quarters of a minute"""
    import pulp
    rng = random.Random("qm/%s" % seed)
    prob = pulp.LpProblem("p%s" % (abs(hash(str(seed))) % 1000), pulp.LpMinimize)
    n = rng.randint(1, 3) if small else rng.randint(1, 6)
    vs = []
    for i in range(n):
        kind = rng.choice(["bit", "bit", "int", "int", "int"])
        name = rng.choice(["x%d", "Delays_%d_A", "y_%d_B", "z_1_%d"]) % i
        if kind == "bit":
            vs.append(pulp.LpVariable(name, 0, 1, cat=rng.choice(["Integer", "Binary"])))
        else:
            lb = rng.choice([0, 0, 0, 1, 2, -1, -3, 5, -7]) if shifted else 0
            ub = lb + rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 20] if not small else [1, 2, 3, 5, 6])
            vs.append(pulp.LpVariable(name, lb, ub, cat="Integer"))
    used = set()
    k = rng.randint(0 if n > 1 else 1, 2 if small else 6)
    cons = []
    for c in range(k):
        pick = rng.sample(vs, rng.randint(1, min(n, 4)))
        co = [(v, rng.choice([-5, -3, -2, -1, -1, 1, 1, 2, 3, 4, 12, -20])) for v in pick]
        lo = sum(a * (v.lowBound if a > 0 else v.upBound) for v, a in co)
        hi = sum(a * (v.upBound if a > 0 else v.lowBound) for v, a in co)
        sense = rng.choice(["le", "ge", "eq"])
        style = rng.random()
        rhs = rng.randint(lo, hi) if style < .75 else (lo if sense != "ge" else hi) if style < .87 else rng.choice([lo - 1, hi + 1, lo - 4, hi + 4, hi, lo])
        if quarters:
            if rng.random() < .5:
                co = [(v, a + rng.choice([0, .25, .5])) for v, a in co]
            rhs += rng.choice([-.75, -.5, -.25, .25, .5])
        expr = pulp.lpSum(a * v for v, a in co)
        if rng.random() < .4:
            d = rng.randint(-6, 6)
            expr, rhs = expr + d, rhs + d
        name = "%s_%s" % (rng.choice(FAMILIES), c)
        cons.append((name, expr, sense, rhs))
        used |= set(v.name for v in pick)
    # objective, possibly with a constant
    w = [(v, rng.choice([0.5, 1, 1.75, 2, -1, 0.025, 3])) for v in vs if v.name not in used or rng.random() < .7]
    if w:
        obj = pulp.lpSum(a * v for v, a in w)
        if rng.random() < .4:
            obj = obj + rng.choice([1, -2, 0.5])
        prob += obj
    for name, expr, sense, rhs in cons:
        if sense == "le":
            prob += expr <= rhs, name
        elif sense == "ge":
            prob += expr >= rhs, name
        else:
            prob += expr == rhs, name
    return prob


def whole(prob):
    for c in prob.constraints.values():
        if any(float(a) != int(a) for a in c.values()) or float(c.constant) != int(c.constant):
            return False
    return all(v.cat == "Integer" for v in prob.variables())


def dispatch(seed, mon, small=True, d_max=None):
    """a small dispatching problem in whole minutes -> (case, prob)"""
    for k in range(40):
        case = ilp.synthetic("%s/%s" % (seed, k), small=small, d_max=d_max)
        if case.cat != "Integer":
            continue
        with mon.sut("building the linear problem", detail=case.describe()):
            prob = sut.rs.create_linear_problem(case.ts, case.tt, case.d_max, cat="Integer")
        if whole(prob) and len(prob.variables()) and len(prob.constraints):
            return case, prob
    raise core.Skip()


def make(spec, mon):
    """-> (label, prob)"""
    if spec["q"] == "generic":
        return "problem %s" % spec["seed"], generic(spec["seed"], spec.get("shifted", False), spec.get("small", False), spec.get("quarters", False))
    case, prob = dispatch(spec["seed"], mon, small=spec.get("small", True), d_max=spec.get("d_max"))
    return "dispatching %s" % spec["seed"], prob


def each(job, mon, fn):
    for spec in job["cases"]:
        mon.job = {"cases": [spec]}
        try:
            label, prob = make(spec, mon)
            mon.ev("problems:" + spec["q"])
            fn(label, Lin(prob), mon, random.Random("q/%s" % core.digest(spec)))
        except core.Skip:
            mon.ev("ended early")


def batches(specs, n):
    return [{"cases": specs[i:i + n]} for i in range(0, len(specs), n)]


# independent reading of a linear problem ------------------------------------
class Lin:
    def __init__(self, prob):
        self.prob = prob
        self.vars = {v.name: (int(v.lowBound), int(v.upBound)) for v in prob.variables()}
        self.cons = {}
        for name, c in prob.constraints.items():
            self.cons[name] = ({v.name: float(a) for v, a in c.items()}, float(c.constant), c.sense)
        o = prob.objective
        self.obj = ({v.name: float(a) for v, a in o.items()}, float(o.constant)) if o is not None else ({}, 0.0)

    def lhs(self, name, x):
        co, k, sense = self.cons[name]
        return sum(a * x[v] for v, a in co.items()) + k

    def violation(self, name, x):
        e, sense = self.lhs(name, x), self.cons[name][2]
        return max(0.0, e) if sense == -1 else max(0.0, -e) if sense == 1 else abs(e)

    def objective(self, x):
        return sum(a * x[v] for v, a in self.obj[0].items()) + self.obj[1]

    def feasible(self, x):
        return all(self.violation(n, x) == 0 for n in self.cons)

    def random(self, rng):
        return {v: rng.choice([lo, hi]) if rng.random() < .3 else rng.randint(lo, hi) for v, (lo, hi) in self.vars.items()}

    def solved(self, rng):
        """a feasible assignment in a random corner, or None"""
        names = list(self.vars)
        idx = {v: i for i, v in enumerate(names)}
        rows = []
        for co, k, sense in self.cons.values():
            rows.append(([(idx[v], a) for v, a in co.items()], None if sense == -1 else -k, None if sense == 1 else -k))
        m = dict(obj=[rng.choice([-1, 0, 1, 2]) * rng.random() for _ in names], rows=rows, lb=[self.vars[v][0] for v in names],
                 ub=[self.vars[v][1] for v in names], integer=[1] * len(names))
        res = milp.solve(m)
        if res["status"] != "optimal":
            return None
        x = {v: int(round(res["x"][i])) for v, i in idx.items()}
        return x if self.feasible(x) else None

    def almost(self, name, rng, least=1.0):
        """an assignment that breaks one constraint, by as little as possible or as cheaply as possible, and no other; or None"""
        names = list(self.vars)
        idx = {v: i for i, v in enumerate(names)}
        rows = []
        for n, (co, k, sense) in self.cons.items():
            lo, hi = None if sense == -1 else -k, None if sense == 1 else -k
            if n == name:
                up = sense == -1 or sense == 0 and rng.random() < .5
                lo, hi = (-k + least, None) if up else (None, -k - least)
            rows.append(([(idx[v], a) for v, a in co.items()], lo, hi))
        obj = [rng.random() * .01 for _ in names]
        if rng.random() < .5:
            for v, a in self.cons[name][0].items():
                obj[idx[v]] += a if up else -a
        else:
            for v, a in self.obj[0].items():
                obj[idx[v]] += a
        res = milp.solve(dict(obj=obj, rows=rows, lb=[self.vars[v][0] for v in names], ub=[self.vars[v][1] for v in names], integer=[1] * len(names)))
        return {v: int(round(res["x"][i])) for v, i in idx.items()} if res["status"] == "optimal" else None

    def assignments(self, rng, n):
        """feasible, nearly feasible and arbitrary ones"""
        out = []
        for k in range(n):
            if k % 3 == 2:
                out.append(self.random(rng))
                continue
            x = self.solved(rng)
            if x is None:
                out.append(self.random(rng))
                continue
            if k % 3 == 1:
                v = rng.choice(list(self.vars))
                x[v] = rng.randint(*self.vars[v])
            out.append(x)
        return out

    def energy(self, x, pd):
        """weighted objective plus penalty times squared violation; None if a name tells no family"""
        e = pd["objective"] * self.objective(x)
        for n in self.cons:
            d = self.violation(n, x)
            if d:
                e += self.penalty(n, pd) * d * d
        return e

    def penalty(self, name, pd):
        for f in FAMILIES:
            if name.startswith(f):
                return pd[f]
        raise core.HarnessGap("constraint %r belongs to no known family" % name)

    def text(self):
        return {"vars": self.vars, "cons": self.cons, "obj": self.obj}


# binary models -----------------------------------------------------------------
class Bits:
    """a binary model seen through its energies and the decoding of its samples"""

    def __init__(self, bqm, interp, lin, mon):
        self.bqm, self.interp, self.lin, self.mon = bqm, interp, lin, mon
        b = bqm.binary
        self.labels = list(b.variables)
        self.h, self.J, self.off = dict(b.linear), dict(b.quadratic), float(b.offset)
        self.nb = {v: [] for v in self.labels}
        for (u, v), x in self.J.items():
            if x:
                self.nb[u].append((v, x))
                self.nb[v].append((u, x))
        zero = {v: 0 for v in self.labels}
        rows = [zero] + [dict(zero, **{v: 1}) for v in self.labels]
        dec = self.decode(rows)
        self.base = dec[0]
        self.enc = {v: {} for v in lin.vars}
        for l, d in zip(self.labels, dec[1:]):
            for v in lin.vars:
                if d[v] != self.base[v]:
                    self.enc[v][l] = d[v] - self.base[v]
        main = set(l for e in self.enc.values() for l in e)
        self.aux = [l for l in self.labels if l not in main]

    def decode(self, rows, energies=None):
        """decoded values of each row, in the order of the rows"""
        import dimod
        energies = list(range(len(rows))) if energies is None else energies
        ss = dimod.SampleSet.from_samples(dimod.as_samples(rows), "BINARY", energies)
        with self.mon.sut("decoding samples", detail=self.lin.text()):
            out = self.interp(ss)
            got = sorted(((d.energy, dict(d.sample)) for d in out.data()), key=lambda p: p[0])
        return [s for _, s in got]

    def energy(self, x):
        return self.off + sum(b for v, b in self.h.items() if x[v]) + sum(b for (u, v), b in self.J.items() if x[u] and x[v])

    def values(self, bits):
        return {v: self.base[v] + sum(c for l, c in e.items() if bits[l]) for v, e in self.enc.items()}

    def encode(self, v, value, rng):
        """bits of a variable for a value, or None"""
        ls = list(self.enc[v])
        options = []
        for bits in itertools.product((0, 1), repeat=len(ls)):
            if self.base[v] + sum(self.enc[v][l] for l, b in zip(ls, bits) if b) == value:
                options.append(dict(zip(ls, bits)))
        return rng.choice(options) if options else None

    def complete(self, x, rng):
        """bits of an assignment with the auxiliary bits of the lowest energy -> (bits, energy) or None if too large"""
        bits = {}
        for v, val in x.items():
            e = self.encode(v, val, rng)
            if e is None:
                return None
            bits.update(e)
        todo = set(self.aux)
        while todo:
            comp, stack = set(), [todo.pop()]
            while stack:
                u = stack.pop()
                comp.add(u)
                for w, _ in self.nb[u]:
                    if w in todo:
                        todo.discard(w)
                        stack.append(w)
            comp = sorted(comp)
            if len(comp) > 12:
                return None
            field = {u: self.h[u] + sum(b for w, b in self.nb[u] if w in bits and bits[w]) for u in comp}
            pairs = [(comp.index(u), comp.index(w), b) for u in comp for w, b in self.nb[u] if w in comp and comp.index(u) < comp.index(w)]
            best = None
            for ch in itertools.product((0, 1), repeat=len(comp)):
                e = sum(field[u] for u, c in zip(comp, ch) if c) + sum(b for i, j, b in pairs if ch[i] and ch[j])
                if best is None or e < best[0]:
                    best = (e, ch)
            bits.update(zip(comp, best[1]))
        return bits, self.energy(bits)


# samplers -----------------------------------------------------------------------
class Play:
    """the samplers, played by the monitor: chosen assignments, and a note of every call"""

    def __init__(self, xs_bits=None, xs_int=None):
        self.xs_bits, self.xs_int = xs_bits, xs_int
        self.given = []

    def __enter__(self):
        import dwave.system as ds
        import neal
        self.ds, self.neal = ds, neal
        del ds.CALLS[:], neal.CALLS[:]
        neal.POLICY = lambda bqm, n, rng: self.note(self.bits(bqm, n, rng))
        ds.POLICY = lambda model, kind, rng: self.note(self.ints(model, rng) if kind == "cqm" else self.bits(model, 4, rng))
        return self

    def __exit__(self, *a):
        self.neal.POLICY = self.ds.POLICY = None

    def note(self, xs):
        self.given.append(xs)
        return xs

    def bits(self, bqm, n, rng):
        vs = list(bqm.variables)
        out = []
        for k in range(max(1, min(n, 6))):
            x = self.xs_bits[k % len(self.xs_bits)] if self.xs_bits and rng.random() < .7 else None
            out.append({v: x[v] if x and v in x else rng.randint(0, 1) for v in vs})
        return out

    def ints(self, cqm, rng):
        vs = list(cqm.variables)
        out = []
        for k in range(4):
            x = self.xs_int[k % len(self.xs_int)] if self.xs_int and rng.random() < .7 else None
            out.append({v: x[v] if x and v in x else rng.randint(int(cqm.lower_bound(v)), int(cqm.upper_bound(v))) for v in vs})
        return out

    def calls(self):
        return [dict(c, kind="sim") for c in self.neal.CALLS] + list(self.ds.CALLS)


def same_bqm(a, b, rng):
    a, b = a.binary, b.binary
    if set(a.variables) != set(b.variables):
        return False
    for _ in range(5):
        x = {v: rng.randint(0, 1) for v in a.variables}
        if abs(a.energy(x) - b.energy(x)) > 1e-6 * (1 + abs(b.energy(x))):
            return False
    return True

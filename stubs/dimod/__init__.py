"""Stand-in for the modelling part of dimod 0.12 used by the code under test."""
import enum
import itertools
import math
from collections import OrderedDict, namedtuple
from collections.abc import Iterable, Mapping
from numbers import Number

__version__ = "0.12.3"


class Vartype(enum.Enum):
    SPIN = frozenset({-1, 1})
    BINARY = frozenset({0, 1})
    INTEGER = "INTEGER"
    REAL = "REAL"


SPIN, BINARY, INTEGER, REAL = Vartype.SPIN, Vartype.BINARY, Vartype.INTEGER, Vartype.REAL


def as_vartype(v, extended=False):
    if isinstance(v, Vartype):
        return v
    if isinstance(v, str):
        return Vartype[v]
    if v in ((0, 1), {0, 1}, frozenset({0, 1})):
        return BINARY
    if v in ((-1, 1), {-1, 1}, frozenset({-1, 1})):
        return SPIN
    raise TypeError("expected input vartype to be one of: SPIN, BINARY")


class Sense(enum.Enum):
    Le = "<="
    Ge = ">="
    Eq = "=="


class Comparison:
    sense = None

    def __init__(self, lhs, rhs):
        self.lhs = lhs
        self.rhs = rhs

    def __repr__(self):
        return "%r %s %r" % (self.lhs, self.sense.value, self.rhs)

    def __bool__(self):
        return True


class Le(Comparison):
    sense = Sense.Le


class Ge(Comparison):
    sense = Sense.Ge


class Eq(Comparison):
    sense = Sense.Eq


_Info = namedtuple("_Info", "vartype lower_bound upper_bound")


def _isnum(x):
    return isinstance(x, Number) or (hasattr(x, "dtype") and getattr(x, "shape", None) == ())


class QuadraticModel:
    """variables: label -> _Info; quadratic keys are frozensets (or 1-sets for squares)"""

    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, linear=None, quadratic=None, offset=0.0, vartypes=None, **kw):
        self._info = OrderedDict()
        self._lin = {}
        self._quad = {}
        self._offset = offset
        if vartypes:
            for v, vt in (vartypes.items() if isinstance(vartypes, Mapping) else vartypes):
                self.add_variable(vt, v)
        for v, b in dict(linear or {}).items():
            self.add_linear(v, b)
        for (u, v), b in dict(quadratic or {}).items():
            self.add_quadratic(u, v, b)

    # construction -------------------------------------------------------
    def add_variable(self, vartype, v=None, *, lower_bound=None, upper_bound=None):
        vartype = as_vartype(vartype)
        if vartype is BINARY:
            lower_bound, upper_bound = 0, 1
        elif vartype is SPIN:
            lower_bound, upper_bound = -1, 1
        else:
            lower_bound = 0 if lower_bound is None else lower_bound
            upper_bound = (1 << 53) - 1 if upper_bound is None else upper_bound
        info = _Info(vartype, lower_bound, upper_bound)
        if v in self._info:
            if self._info[v] != info:
                raise ValueError("variable %r already exists with a different definition" % (v,))
        else:
            self._info[v] = info
            self._lin[v] = 0.0
        return v

    def add_linear(self, v, bias, *, default_vartype=None, default_lower_bound=None, default_upper_bound=None):
        if v not in self._info:
            if default_vartype is None:
                raise ValueError("unknown variable %r" % (v,))
            self.add_variable(default_vartype, v, lower_bound=default_lower_bound, upper_bound=default_upper_bound)
        self._lin[v] += bias

    def set_linear(self, v, bias):
        self._lin[v] = bias

    def _norm(self, u, v, bias):
        """add bias*u*v, using x*x == x / s*s == 1"""
        if u == v:
            vt = self._info[u].vartype
            if vt is BINARY:
                self._lin[u] += bias
                return
            if vt is SPIN:
                self._offset += bias
                return
        k = frozenset((u, v))
        self._quad[k] = self._quad.get(k, 0.0) + bias

    def add_quadratic(self, u, v, bias):
        self._norm(u, v, bias)

    def set_quadratic(self, u, v, bias):
        self._quad[frozenset((u, v))] = bias

    def copy(self, deep=True):
        q = type(self).__new__(type(self))
        q.__dict__.update(self.__dict__)
        q._info = OrderedDict(self._info)
        q._lin = dict(self._lin)
        q._quad = dict(self._quad)
        return q

    def _as_qm(self):
        q = QuadraticModel()
        q._info = OrderedDict(self._info)
        q._lin = dict(self._lin)
        q._quad = dict(self._quad)
        q._offset = self._offset
        return q

    def _absorb_info(self, other):
        for v, i in other._info.items():
            if v in self._info:
                if self._info[v] != i:
                    raise ValueError("conflicting definitions of variable %r" % (v,))
            else:
                self._info[v] = i
                self._lin[v] = 0.0

    # views --------------------------------------------------------------
    @property
    def variables(self):
        return list(self._info)

    @property
    def num_variables(self):
        return len(self._info)

    @property
    def num_interactions(self):
        return len(self._quad)

    @property
    def shape(self):
        return self.num_variables, self.num_interactions

    def __len__(self):
        return len(self._info)

    @property
    def linear(self):
        return {v: self._lin[v] for v in self._info}

    @property
    def quadratic(self):
        out = {}
        for k, b in self._quad.items():
            t = tuple(k)
            out[t if len(t) == 2 else (t[0], t[0])] = b
        return out

    @property
    def offset(self):
        return self._offset

    @offset.setter
    def offset(self, x):
        self._offset = x

    def vartype(self, v=None):
        return self._info[v].vartype

    def lower_bound(self, v):
        return self._info[v].lower_bound

    def upper_bound(self, v):
        return self._info[v].upper_bound

    def get_linear(self, v):
        return self._lin[v]

    def get_quadratic(self, u, v, default=None):
        return self._quad.get(frozenset((u, v)), default)

    def iter_linear(self):
        return iter(self.linear.items())

    def iter_quadratic(self):
        for (u, v), b in self.quadratic.items():
            yield u, v, b

    def is_linear(self):
        return not any(self._quad.values())

    def energy(self, sample):
        if not isinstance(sample, Mapping):
            sample = as_samples(sample)
            return self.energies(sample)[0]
        e = self._offset
        for v, b in self._lin.items():
            if b:
                e += b * sample[v]
            elif v not in sample:
                raise ValueError("missing variable %r in sample" % (v,))
        for k, b in self._quad.items():
            t = tuple(k)
            e += b * sample[t[0]] * sample[t[-1]]
        return e

    def energies(self, samples):
        arr, labels = as_samples(samples)
        return [self.energy(dict(zip(labels, row))) for row in arr]

    # arithmetic ---------------------------------------------------------
    def _result(self):
        q = self._as_qm()
        return q

    def __add__(self, other):
        q = self._result()
        if _isnum(other):
            q._offset = q._offset + other
            return _narrow(q)
        if isinstance(other, QuadraticModel):
            q._absorb_info(other)
            for v, b in other._lin.items():
                q._lin[v] += b
            for k, b in other._quad.items():
                q._quad[k] = q._quad.get(k, 0.0) + b
            q._offset = q._offset + other._offset
            return _narrow(q)
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self.copy()

    def __sub__(self, other):
        if _isnum(other):
            return self + (-other)
        if isinstance(other, QuadraticModel):
            return self + (-other)
        return NotImplemented

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        if _isnum(other):
            q = self._result()
            for v in q._lin:
                q._lin[v] *= other
            for k in q._quad:
                q._quad[k] *= other
            q._offset = q._offset * other
            return _narrow(q)
        if isinstance(other, QuadraticModel):
            if self._quad or other._quad:
                raise TypeError("cannot multiply models with interactions")
            q = QuadraticModel()
            q._absorb_info(self)
            q._absorb_info(other)
            for u, a in self._lin.items():
                q._lin[u] += a * other._offset
                for v, b in other._lin.items():
                    if a * b:
                        q._norm(u, v, a * b)
            for v, b in other._lin.items():
                q._lin[v] += b * self._offset
            q._offset = q._offset + self._offset * other._offset
            return _narrow(q)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, other):
        if _isnum(other):
            return self * (1 / other)
        return NotImplemented

    def __pow__(self, n):
        if n == 2:
            return self * self
        if n == 1:
            return self.copy()
        raise ValueError("only powers 1 and 2 are supported")

    def __le__(self, other):
        return _compare(Le, self, other)

    def __ge__(self, other):
        return _compare(Ge, self, other)

    def __eq__(self, other):
        if _isnum(other):
            return Eq(self, other)
        if isinstance(other, QuadraticModel):
            return self.is_equal(other)
        return NotImplemented

    def __ne__(self, other):
        if isinstance(other, QuadraticModel):
            return not self.is_equal(other)
        return NotImplemented

    def is_equal(self, other):
        if _isnum(other):
            return not self._info and self._offset == other
        if set(self._info) != set(other._info):
            return False
        if any(self._info[v] != other._info[v] for v in self._info):
            return False
        qa = {k: b for k, b in self._quad.items()}
        qb = {k: b for k, b in other._quad.items()}
        return (self._lin == other._lin and set(qa) == set(qb)
                and all(qa[k] == qb[k] for k in qa) and self._offset == other._offset)

    def is_almost_equal(self, other, places=7):
        d = self - other
        return (all(abs(b) < 10 ** -places for b in d._lin.values())
                and all(abs(b) < 10 ** -places for b in d._quad.values())
                and abs(d._offset) < 10 ** -places)

    def __repr__(self):
        return "%s(%r, %r, %r)" % (type(self).__name__, self.linear, self.quadratic, self.offset)


def _compare(cls, lhs, rhs):
    if isinstance(rhs, QuadraticModel):
        return cls(lhs - rhs, 0)
    if _isnum(rhs):
        return cls(lhs, rhs)
    return NotImplemented


def _narrow(q):
    """a model of binaries only is a BinaryQuadraticModel"""
    kinds = {i.vartype for i in q._info.values()}
    if kinds == {BINARY} or kinds == {SPIN}:
        b = BinaryQuadraticModel(next(iter(kinds)))
        b._info, b._lin, b._quad, b._offset = q._info, q._lin, q._quad, q._offset
        return b
    return q


class BinaryQuadraticModel(QuadraticModel):
    def __init__(self, *args, vartype=None, **kw):
        args = list(args)
        if vartype is None:
            vartype = args.pop()
        self._vt = as_vartype(vartype)
        QuadraticModel.__init__(self)
        linear = args[0] if args else {}
        quadratic = args[1] if len(args) > 1 else {}
        self._offset = args[2] if len(args) > 2 else kw.get("offset", 0.0)
        for v, b in dict(linear).items():
            self.add_linear(v, b)
        for (u, v), b in dict(quadratic).items():
            self.add_quadratic(u, v, b)

    def add_variable(self, v=None, bias=0, **kw):
        if isinstance(v, Vartype):          # QuadraticModel-style call
            v, bias = bias, 0
        QuadraticModel.add_variable(self, self._vt, v)
        self._lin[v] += bias
        return v

    def add_linear(self, v, bias, **kw):
        if v not in self._info:
            QuadraticModel.add_variable(self, self._vt, v)
        self._lin[v] += bias

    def set_linear(self, v, bias):
        self.add_linear(v, 0)
        self._lin[v] = bias

    def add_quadratic(self, u, v, bias):
        self.add_linear(u, 0)
        self.add_linear(v, 0)
        if u == v:
            raise ValueError("%r cannot have an interaction with itself" % (u,))
        self._norm(u, v, bias)

    add_interaction = add_quadratic

    def add_offset(self, x):
        self._offset += x

    @property
    def vartype(self):
        return self._vt

    def copy(self, deep=True):
        q = QuadraticModel.copy(self)
        q._vt = self._vt
        return q

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        b = cls(BINARY)
        for (u, v), x in Q.items():
            if u == v:
                b.add_linear(u, x)
            else:
                b.add_quadratic(u, v, x)
        b._offset = b._offset + offset
        return b

    @classmethod
    def from_ising(cls, h, J, offset=0.0):
        return cls(dict(h), dict(J), offset, SPIN)

    def change_vartype(self, vartype, inplace=True):
        vartype = as_vartype(vartype)
        q = self if inplace else self.copy()
        if vartype is q._vt:
            return q
        lin = {v: 0.0 for v in q._info}
        quad = {}
        off = q._offset
        if vartype is SPIN:      # x = (s+1)/2
            for v, b in q._lin.items():
                lin[v] += b / 2
                off += b / 2
            for k, b in q._quad.items():
                u, v = tuple(k)
                quad[k] = b / 4
                lin[u] += b / 4
                lin[v] += b / 4
                off += b / 4
        else:                    # s = 2x-1
            for v, b in q._lin.items():
                lin[v] += 2 * b
                off -= b
            for k, b in q._quad.items():
                u, v = tuple(k)
                quad[k] = 4 * b
                lin[u] -= 2 * b
                lin[v] -= 2 * b
                off += b
        q._vt = vartype
        lo = -1 if vartype is SPIN else 0
        q._info = OrderedDict((v, _Info(vartype, lo, 1)) for v in q._info)
        q._lin, q._quad, q._offset = lin, quad, off
        return q

    @property
    def spin(self):
        return self.change_vartype(SPIN, inplace=False)

    @property
    def binary(self):
        return self.change_vartype(BINARY, inplace=False)

    def to_ising(self):
        q = self.spin
        return dict(q.linear), dict(q.quadratic), q.offset

    def to_qubo(self):
        q = self.binary
        Q = {(v, v): b for v, b in q.linear.items()}
        Q.update(q.quadratic)
        return Q, q.offset

    def relabel_variables(self, mapping, inplace=True):
        q = self if inplace else self.copy()
        m = lambda v: mapping.get(v, v)
        q._info = OrderedDict((m(v), i) for v, i in q._info.items())
        q._lin = {m(v): b for v, b in q._lin.items()}
        q._quad = {frozenset(m(x) for x in k): b for k, b in q._quad.items()}
        return q


BQM = Float64BQM = DictBQM = BinaryQuadraticModel
QM = QuadraticModel


def Binary(label, bias=1, dtype=None):
    b = BinaryQuadraticModel(BINARY)
    b.add_linear(label, bias)
    return b


def Spin(label, bias=1, dtype=None):
    b = BinaryQuadraticModel(SPIN)
    b.add_linear(label, bias)
    return b


def Integer(label, bias=1, dtype=None, *, lower_bound=None, upper_bound=None):
    q = QuadraticModel()
    q.add_variable(INTEGER, label, lower_bound=lower_bound, upper_bound=upper_bound)
    q.add_linear(label, bias)
    return q


def Real(label, bias=1, dtype=None, *, lower_bound=None, upper_bound=None):
    q = QuadraticModel()
    q.add_variable(REAL, label, lower_bound=lower_bound, upper_bound=upper_bound)
    q.add_linear(label, bias)
    return q


def Binaries(labels, dtype=None):
    return (Binary(v) for v in labels)


def Integers(labels, dtype=None):
    return (Integer(v) for v in labels)


def quicksum(iterable):
    q = QuadraticModel()
    for x in iterable:
        q = q + x
    return q


class ConstrainedQuadraticModel:
    def __init__(self):
        self.constraints = OrderedDict()
        self.objective = QuadraticModel()
        self._info = OrderedDict()
        self._n = 0

    def _register(self, qm):
        for v, i in qm._info.items():
            if v in self._info and self._info[v] != i:
                raise ValueError("variable %r already has a different definition" % (v,))
            self._info.setdefault(v, i)

    @property
    def variables(self):
        return list(self._info)

    def num_constraints(self):
        return len(self.constraints)

    def vartype(self, v):
        return self._info[v].vartype

    def lower_bound(self, v):
        return self._info[v].lower_bound

    def upper_bound(self, v):
        return self._info[v].upper_bound

    def add_variable(self, vartype, v, *, lower_bound=None, upper_bound=None):
        q = QuadraticModel()
        q.add_variable(vartype, v, lower_bound=lower_bound, upper_bound=upper_bound)
        self._register(q)
        return v

    def add_constraint(self, data, *args, label=None, rhs=0, sense=None, **kw):
        if isinstance(data, Comparison):
            if args:
                label = args[0]
            return self.add_constraint_from_comparison(data, label=label)
        if isinstance(data, QuadraticModel):
            if args:
                sense = args[0]
                rhs = args[1] if len(args) > 1 else rhs
                label = args[2] if len(args) > 2 else label
            return self.add_constraint_from_model(data, sense, rhs, label=label)
        if isinstance(data, bool) or _isnum(data):
            raise TypeError("unexpected data format for a constraint")
        raise TypeError("unexpected data format for a constraint")

    def add_constraint_from_comparison(self, comp, label=None, **kw):
        return self.add_constraint_from_model(comp.lhs, comp.sense.value, comp.rhs, label=label)

    def add_constraint_from_model(self, qm, sense, rhs=0, label=None, **kw):
        self._register(qm)
        if label is None:
            while True:
                label = "c%d" % self._n
                self._n += 1
                if label not in self.constraints:
                    break
        if label in self.constraints:
            raise ValueError("a constraint with label %r already exists" % (label,))
        cls = {"<=": Le, ">=": Ge, "==": Eq}[getattr(sense, "value", sense)]
        self.constraints[label] = cls(qm.copy(), rhs)
        return label

    def set_objective(self, objective):
        if _isnum(objective):
            q = QuadraticModel()
            q._offset = q._offset + objective
            objective = q
        elif not isinstance(objective, QuadraticModel):
            raise TypeError("unexpected objective type")
        self._register(objective)
        self.objective = objective._as_qm()

    def violations(self, sample, skip_satisfied=False):
        out = {}
        for label, c in self.constraints.items():
            d = c.lhs.energy(sample) - c.rhs
            v = {"<=": d, ">=": -d, "==": abs(d)}[c.sense.value]
            if not (skip_satisfied and v <= 0):
                out[label] = v
        return out

    def check_feasible(self, sample, rtol=1e-6, atol=1e-8):
        return all(v <= atol + rtol * abs(self.constraints[l].rhs)
                   for l, v in self.violations(sample).items())

    iter_violations = lambda self, sample, **kw: iter(self.violations(sample, **kw).items())


CQM = ConstrainedQuadraticModel


def _encode(v, ub):
    """linear binary encoding of an integer 0..ub"""
    if ub <= 1:
        return [((v, 0), ub)]
    mp = math.floor(math.log2(ub))
    out = [((v, 1 << k), 1 << k) for k in range(mp)]
    out.append(((v, ub - (1 << mp) + 1, "msb"), ub - (1 << mp) + 1))
    return out


def cqm_to_bqm(cqm, lagrange_multiplier=None):
    sub = {}
    for v, i in cqm._info.items():
        if i.vartype is BINARY:
            sub[v] = (0, [(v, 1)])
        elif i.vartype is INTEGER:
            if i.lower_bound != 0:
                raise ValueError("integer variables must have a lower bound of 0")
            sub[v] = (0, _encode(v, i.upper_bound))
        else:
            raise ValueError("unsupported vartype")

    def expand(qm):
        b = BinaryQuadraticModel(BINARY)
        b._offset = qm._offset
        for v, c in qm._lin.items():
            for w, a in sub[v][1]:
                b.add_linear(w, c * a)
        for k, c in qm._quad.items():
            t = tuple(k)
            for w1, a1 in sub[t[0]][1]:
                for w2, a2 in sub[t[-1]][1]:
                    if w1 == w2:
                        b.add_linear(w1, c * a1 * a2)
                    else:
                        b.add_quadratic(w1, w2, c * a1 * a2)
        return b

    bqm = BinaryQuadraticModel(BINARY)
    for v in cqm._info:
        for w, _ in sub[v][1]:
            bqm.add_linear(w, 0)
    obj = expand(cqm.objective)
    for w, c in obj._lin.items():
        bqm.add_linear(w, c)
    for k, c in obj._quad.items():
        bqm.add_quadratic(*tuple(k), c)
    bqm._offset = bqm._offset + obj._offset
    if lagrange_multiplier is None:
        lagrange_multiplier = 10 * max([abs(x) for x in itertools.chain(bqm._lin.values(), bqm._quad.values())] or [0])
        lagrange_multiplier = lagrange_multiplier or 1
    for label, c in cqm.constraints.items():
        lin = expand(c.lhs)
        terms = dict(lin._lin)
        const = lin._offset - c.rhs
        sense = c.sense.value
        if sense == ">=":
            terms = {w: -a for w, a in terms.items()}
            const = -const
        if sense != "==":
            ub = -(const + sum(a for a in terms.values() if a < 0))
            ub = int(ub)
            if ub > 0:
                ns = int(math.floor(math.log2(ub)))
                coefs = [1 << j for j in range(ns)]
                if ub - (1 << ns) >= 0:
                    coefs.append(ub - (1 << ns) + 1)
                for j, a in enumerate(coefs):
                    terms["slack_%s_%d" % (label, j)] = a
        items = list(terms.items())
        for n, (w, a) in enumerate(items):
            bqm.add_linear(w, lagrange_multiplier * a * (2 * const + a))
            for w2, a2 in items[n + 1:]:
                bqm.add_quadratic(w, w2, lagrange_multiplier * 2 * a * a2)
        bqm._offset = bqm._offset + lagrange_multiplier * const ** 2

    def invert(sample):
        return {v: sum(a * sample[w] for w, a in enc) for v, (_, enc) in sub.items()}

    return bqm, invert


# samples ---------------------------------------------------------------------

Sample = namedtuple("Sample", "sample energy num_occurrences")


class SampleView(dict):
    pass


class SamplesArray(list):
    pass


def as_samples(samples_like, dtype=None, copy=False, order="C", labels_type=list):
    """-> (rows, labels)"""
    if isinstance(samples_like, SampleSet):
        return [list(r) for r in samples_like._rows], list(samples_like._labels)
    if isinstance(samples_like, tuple) and len(samples_like) == 2:
        rows, labels = samples_like
        rows = [list(r) for r in rows] if len(rows) and isinstance(rows[0], Iterable) else [list(rows)]
        return rows, list(labels)
    if isinstance(samples_like, Mapping):
        labels = list(samples_like)
        return [[samples_like[v] for v in labels]], labels
    rows = list(samples_like)
    if not rows:
        return [], []
    if isinstance(rows[0], Mapping):
        labels = list(rows[0])
        out = []
        for r in rows:
            if set(r) != set(labels):
                raise ValueError("inconsistent samples")
            out.append([r[v] for v in labels])
        return out, labels
    if isinstance(rows[0], Iterable):
        return [list(r) for r in rows], list(range(len(rows[0])))
    return [rows], list(range(len(rows)))


class SampleSet:
    def __init__(self, rows, labels, energies, vartype, info=None, num_occurrences=None):
        self._rows = [list(r) for r in rows]
        self._labels = list(labels)
        self._energy = list(energies)
        self._vt = as_vartype(vartype)
        self.info = dict(info or {})
        self._occ = list(num_occurrences) if num_occurrences is not None else [1] * len(self._rows)
        if len(self._rows) != len(self._energy):
            raise ValueError("energies and samples differ in length")

    @classmethod
    def from_samples(cls, samples_like, vartype, energy, info=None, num_occurrences=None,
                     aggregate_samples=False, sort_labels=True, **vectors):
        rows, labels = as_samples(samples_like)
        if _isnum(energy):
            energy = [energy]
        if sort_labels:
            try:
                order = sorted(range(len(labels)), key=lambda i: labels[i])
                labels = [labels[i] for i in order]
                rows = [[r[i] for i in order] for r in rows]
            except TypeError:
                pass
        return cls(rows, labels, energy, vartype, info, num_occurrences)

    @classmethod
    def from_samples_bqm(cls, samples_like, bqm, **kw):
        rows, labels = as_samples(samples_like)
        es = [bqm.energy(dict(zip(labels, r))) for r in rows]
        return cls(rows, labels, es, bqm.vartype, kw.get("info"))

    from_samples_cqm = None

    @property
    def vartype(self):
        return self._vt

    @property
    def variables(self):
        return list(self._labels)

    @property
    def record(self):
        import numpy as np
        n = len(self._labels)
        rec = np.recarray((len(self._rows),), dtype=[("sample", float, (n,)), ("energy", float), ("num_occurrences", int)])
        for i, r in enumerate(self._rows):
            rec[i] = (r, self._energy[i], self._occ[i])
        return rec

    def __len__(self):
        return len(self._rows)

    def _order(self, sorted_by, reverse=False):
        idx = list(range(len(self._rows)))
        if sorted_by is not None:
            key = self._energy if sorted_by == "energy" else self._occ
            idx.sort(key=lambda i: key[i])
        if reverse:
            idx.reverse()
        return idx

    def data(self, fields=None, sorted_by="energy", name="Sample", reverse=False,
             sample_dict_cast=True, index=False):
        for i in self._order(sorted_by, reverse):
            sample = dict(zip(self._labels, self._rows[i]))
            if fields is not None:
                vals = {"sample": sample, "energy": self._energy[i], "num_occurrences": self._occ[i]}
                if name is None:
                    yield tuple(vals[f] for f in fields)
                else:
                    yield namedtuple(name, fields)(*[vals[f] for f in fields])
            else:
                yield Sample(sample, self._energy[i], self._occ[i])

    def samples(self, n=None, sorted_by="energy"):
        idx = self._order(sorted_by)
        if n is not None:
            idx = idx[:n]
        return SamplesArray(SampleView(zip(self._labels, self._rows[i])) for i in idx)

    def __iter__(self):
        return iter(self.samples())

    @property
    def first(self):
        try:
            return next(self.data())
        except StopIteration:
            raise ValueError("sample set is empty") from None

    def lowest(self, rtol=1e-5, atol=1e-8):
        m = min(self._energy)
        keep = [i for i, e in enumerate(self._energy) if e <= m + atol + rtol * abs(m)]
        return self._take(keep)

    def _take(self, idx):
        return SampleSet([self._rows[i] for i in idx], self._labels, [self._energy[i] for i in idx],
                         self._vt, self.info, [self._occ[i] for i in idx])

    def filter(self, pred):
        keep = [i for i in range(len(self)) if pred(Sample(dict(zip(self._labels, self._rows[i])), self._energy[i], self._occ[i]))]
        return self._take(keep)

    def truncate(self, n, sorted_by="energy"):
        return self._take(self._order(sorted_by)[:n])

    def slice(self, *a, sorted_by="energy"):
        return self._take(self._order(sorted_by)[slice(*a)])

    def copy(self):
        return self._take(range(len(self)))

    def resolve(self):
        return None

    def done(self):
        return True

    def aggregate(self):
        return self.copy()

    def relabel_variables(self, mapping, inplace=True):
        s = self if inplace else self.copy()
        s._labels = [mapping.get(v, v) for v in s._labels]
        return s

    def change_vartype(self, vartype, energy_offset=0.0, inplace=True):
        s = self if inplace else self.copy()
        vartype = as_vartype(vartype)
        if vartype is not s._vt:
            f = (lambda x: 2 * x - 1) if vartype is SPIN else (lambda x: (x + 1) // 2)
            s._rows = [[f(x) for x in r] for r in s._rows]
            s._vt = vartype
        return s


from . import constrained, sampleset, binary, quadratic  # noqa: E402,F401

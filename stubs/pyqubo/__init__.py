"""Stand-in for the part of pyqubo 1.3 used by the code under test.

Expressions are polynomials over binary labels whose coefficients are
polynomials over placeholder names.
"""
import math
from numbers import Number

__version__ = "1.3.1"


def _isnum(x):
    return isinstance(x, Number) or (hasattr(x, "dtype") and getattr(x, "shape", None) == ())


class Express:
    """terms: {(frozenset(labels), tuple(sorted placeholder names)): coef}"""

    __array_ufunc__ = None

    def __init__(self, terms=None, subhs=()):
        self.terms = dict(terms or {})
        self.subhs = dict(subhs)

    @staticmethod
    def _as(x):
        if isinstance(x, Express):
            return x
        if _isnum(x):
            return Express({(frozenset(), ()): float(x)})
        raise TypeError("cannot use %r in an expression" % (x,))

    def __add__(self, other):
        o = self._as(other)
        t = dict(self.terms)
        for k, c in o.terms.items():
            t[k] = t.get(k, 0.0) + c
        return Express(t, {**self.subhs, **o.subhs})

    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, other):
        return self + self._as(other) * -1

    def __rsub__(self, other):
        return self * -1 + other

    def __mul__(self, other):
        o = self._as(other)
        t = {}
        for (v1, p1), c1 in self.terms.items():
            for (v2, p2), c2 in o.terms.items():
                k = (v1 | v2, tuple(sorted(p1 + p2)))
                t[k] = t.get(k, 0.0) + c1 * c2
        return Express(t, {**self.subhs, **o.subhs})

    __rmul__ = __mul__

    def __truediv__(self, other):
        if not _isnum(other):
            raise ValueError("Expression cannot be divided by Expression.")
        return self * (1.0 / other)

    def __pow__(self, n):
        if not isinstance(n, int) or n < 1:
            raise ValueError("Exponent should be a positive integer")
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def compile(self, strength=5.0, hinge_strength=None):
        return Model(self)


class Placeholder(Express):
    def __init__(self, label):
        self.label = label
        Express.__init__(self, {(frozenset(), (label,)): 1.0})


class Binary(Express):
    def __init__(self, label):
        self.label = label
        Express.__init__(self, {(frozenset([label]), ()): 1.0})


class Spin(Express):
    def __init__(self, label):
        self.label = label
        Express.__init__(self, {(frozenset([label]), ()): 2.0, (frozenset(), ()): -1.0})


Num = Express._as


class SubH(Express):
    def __init__(self, hamiltonian, label, as_constraint=False):
        h = Express._as(hamiltonian)
        self.label = label
        Express.__init__(self, h.terms, {**h.subhs, label: dict(h.terms)})


class Constraint(SubH):
    def __init__(self, hamiltonian, label, condition=lambda x: x == 0):
        SubH.__init__(self, hamiltonian, label, as_constraint=True)


class WithPenalty(Express):
    pass


def _bits(label, n):
    return [Binary("%s[%d]" % (label, i)) for i in range(n)]


class LogEncInteger(SubH):
    def __init__(self, label, value_range):
        lower, upper = value_range
        assert upper > lower, "upper value should be larger than lower value"
        assert isinstance(lower, int)
        assert isinstance(upper, int)
        self.value_range = value_range
        span = upper - lower
        d = int(math.log2(span)) + 1
        self.array = _bits(label, d)
        e = Express._as(lower)
        for i in range(d - 1):
            e = e + self.array[i] * (2 ** i)
        e = e + self.array[-1] * (span - (2 ** (d - 1) - 1))
        SubH.__init__(self, e, label)


class UnaryEncInteger(SubH):
    def __init__(self, label, value_range):
        lower, upper = value_range
        assert upper > lower, "upper value should be larger than lower value"
        self.value_range = value_range
        self.array = _bits(label, upper - lower)
        e = Express._as(lower)
        for b in self.array:
            e = e + b
        SubH.__init__(self, e, label)


def _value(terms, sample, feed):
    s = 0.0
    for (vs, ps), c in terms.items():
        x = c
        for p in ps:
            if p not in feed:
                raise ValueError("No value for placeholder %r" % (p,))
            x *= feed[p]
        for v in vs:
            x *= sample[v]
        s += x
    return s


class DecodedSample:
    def __init__(self, sample, energy, subh):
        self.sample = sample
        self.energy = energy
        self.subh = subh

    def array(self, name, index):
        return self.sample["%s[%d]" % (name, index)]

    def constraints(self, only_broken=False):
        return {}


class Model:
    def __init__(self, express):
        self._terms = dict(express.terms)
        self._subhs = dict(express.subhs)
        labels = set()
        for (vs, _), c in self._terms.items():
            labels |= vs
        self.variables = sorted(labels)
        for (vs, _), c in self._terms.items():
            if len(vs) > 2 and c != 0:
                raise ValueError("degree above two is not supported here")

    def _poly(self, feed_dict):
        feed = feed_dict or {}
        lin = {v: 0.0 for v in self.variables}
        quad, off = {}, 0.0
        for (vs, ps), c in self._terms.items():
            x = c
            for p in ps:
                if p not in feed:
                    raise ValueError(
                        "a placeholder %r is not fed: specify feed_dict" % (p,))
                x *= feed[p]
            if len(vs) == 0:
                off += x
            elif len(vs) == 1:
                (v,) = vs
                if v in lin:
                    lin[v] += x
            else:
                k = tuple(sorted(vs))
                quad[k] = quad.get(k, 0.0) + x
        quad = {k: x for k, x in quad.items() if x != 0}
        return lin, quad, off

    def to_bqm(self, index_label=False, feed_dict=None):
        import dimod
        lin, quad, off = self._poly(feed_dict)
        if index_label:
            ix = {v: i for i, v in enumerate(self.variables)}
            lin = {ix[v]: b for v, b in lin.items()}
            quad = {(ix[u], ix[v]): b for (u, v), b in quad.items()}
        return dimod.BinaryQuadraticModel(lin, quad, off, dimod.BINARY)

    def to_qubo(self, index_label=False, feed_dict=None):
        return self.to_bqm(index_label, feed_dict).to_qubo()

    def to_ising(self, index_label=False, feed_dict=None):
        return self.to_bqm(index_label, feed_dict).to_ising()

    def energy(self, sample, vartype, feed_dict=None):
        if vartype == "SPIN":
            sample = {v: (x + 1) / 2 for v, x in sample.items()}
        return _value(self._terms, sample, feed_dict or {})

    def decode_sample(self, sample, vartype, feed_dict=None):
        feed = feed_dict or {}
        if not isinstance(sample, dict):
            sample = dict(sample) if hasattr(sample, "keys") else dict(zip(self.variables, sample))
        if vartype == "SPIN":
            sample = {v: (x + 1) // 2 for v, x in sample.items()}
        missing = [v for v in self.variables if v not in sample]
        if missing:
            raise ValueError("sample does not define %r" % (missing[:3],))
        full = {v: sample.get(v, 0) for v in set(self.variables) | set(sample)}
        subh = {}
        for label, terms in self._subhs.items():
            for (vs, _), c in terms.items():
                for v in vs:
                    full.setdefault(v, 0)
            subh[label] = _value(terms, full, feed)
        return DecodedSample({v: full[v] for v in self.variables}, _value(self._terms, full, feed), subh)

    def decode_sampleset(self, sampleset, feed_dict=None):
        return [self.decode_sample(dict(s), "BINARY", feed_dict) for s in sampleset.samples()]

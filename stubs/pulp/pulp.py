"""Stand-in for the modelling part of PuLP 2.5.1.

PuLP itself is not installed in this sandbox.  This module reproduces the
modelling semantics (names, affine expressions, constraints, problems) that the
code under test relies on; solving is delegated to ``backend``.
"""
import re
import warnings
from collections import OrderedDict
from collections.abc import Iterable

from . import constants as const
from .constants import *  # noqa: F401,F403

_DICT_TYPE = OrderedDict


class LpElement(object):
    """Base class for LpVariable and LpConstraintVar"""

    __array_ufunc__ = None  # numpy scalars on the left defer to us

    illegal_chars = "-+[] ->/"
    expression = re.compile("[{}]".format(re.escape(illegal_chars)))
    trans = str.maketrans(illegal_chars, "________")

    def setName(self, name):
        if name:
            if self.expression.match(name):
                warnings.warn(
                    "The name {} has illegal characters that will be replaced by _".format(name)
                )
            self.__name = str(name).translate(self.trans)
        else:
            self.__name = None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, name):
        self.name = name
        self.hash = id(self)
        self.modified = True

    def __hash__(self):
        return self.hash

    def __str__(self):
        return self.name

    def __repr__(self):
        return self.name

    def __neg__(self):
        return -LpAffineExpression(self)

    def __pos__(self):
        return self

    def __bool__(self):
        return True

    def __add__(self, other):
        return LpAffineExpression(self) + other

    def __radd__(self, other):
        return LpAffineExpression(self) + other

    def __sub__(self, other):
        return LpAffineExpression(self) - other

    def __rsub__(self, other):
        return other - LpAffineExpression(self)

    def __mul__(self, other):
        return LpAffineExpression(self) * other

    def __rmul__(self, other):
        return LpAffineExpression(self) * other

    def __truediv__(self, other):
        return LpAffineExpression(self) / other

    __div__ = __truediv__

    def __rtruediv__(self, other):
        raise TypeError("Expressions cannot be divided by a variable")

    def __le__(self, other):
        return LpAffineExpression(self) <= other

    def __ge__(self, other):
        return LpAffineExpression(self) >= other

    def __eq__(self, other):
        return LpAffineExpression(self) == other

    def __ne__(self, other):
        if isinstance(other, LpVariable):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1


class LpVariable(LpElement):
    """This class models an LP Variable with the specified associated parameters"""

    def __init__(self, name, lowBound=None, upBound=None, cat=const.LpContinuous, e=None):
        LpElement.__init__(self, name)
        self._lowbound_original = self.lowBound = lowBound
        self._upbound_original = self.upBound = upBound
        self.cat = cat
        self.varValue = None
        self.dj = None
        if cat == const.LpBinary:
            self._lowbound_original = self.lowBound = 0
            self._upbound_original = self.upBound = 1
            self.cat = const.LpInteger
        if e:
            self.add_expression(e)

    def __deepcopy__(self, memo):
        return self

    def to_dict(self):
        return dict(lowBound=self.lowBound, upBound=self.upBound, cat=self.cat,
                    varValue=self.varValue, dj=self.dj, name=self.name)

    @classmethod
    def from_dict(cls, dj=None, varValue=None, **kwargs):
        var = cls(**kwargs)
        var.dj = dj
        var.varValue = varValue
        return var

    def add_expression(self, e):
        self.expression = e
        self.addVariableToConstraints(e)

    def addVariableToConstraints(self, e):
        for constraint, coeff in e.items():
            constraint.addVariable(self, coeff)

    @classmethod
    def matrix(cls, name, indices=None, lowBound=None, upBound=None,
               cat=const.LpContinuous, indexStart=None, indexs=None):
        indices = indexs if indices is None else indices
        indexStart = [] if indexStart is None else indexStart
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index, rest = indices[0], indices[1:]
        if len(rest) == 0:
            return [cls(name % tuple(indexStart + [i]), lowBound, upBound, cat) for i in index]
        return [cls.matrix(name, rest, lowBound, upBound, cat, indexStart + [i]) for i in index]

    @classmethod
    def dicts(cls, name, indices=None, lowBound=None, upBound=None,
              cat=const.LpContinuous, indexStart=None, indexs=None):
        indices = indexs if indices is None else indices
        indexStart = [] if indexStart is None else indexStart
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index, rest = indices[0], indices[1:]
        d = {}
        if len(rest) == 0:
            for i in index:
                d[i] = cls(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
        else:
            for i in index:
                d[i] = cls.dicts(name, rest, lowBound, upBound, cat, indexStart + [i])
        return d

    @classmethod
    def dict(cls, name, indices=None, lowBound=None, upBound=None,
             cat=const.LpContinuous, indexs=None):
        indices = indexs if indices is None else indices
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        lists = [[]]
        for index in indices:
            lists = [p + [i] for p in lists for i in index]
        d = {}
        for key in lists:
            k = tuple(key) if len(key) > 1 else key[0]
            d[k] = cls(name % tuple(key), lowBound, upBound, cat)
        return d

    def getLb(self):
        return self.lowBound

    def getUb(self):
        return self.upBound

    def bounds(self, low, up):
        self.lowBound = low
        self.upBound = up
        self.modified = True

    def positive(self):
        self.bounds(0, None)

    def value(self):
        return self.varValue

    def round(self, epsInt=1e-5, eps=1e-7):
        if self.varValue is not None:
            if self.upBound is not None and self.varValue > self.upBound and self.varValue <= self.upBound + eps:
                self.varValue = self.upBound
            elif self.lowBound is not None and self.varValue < self.lowBound and self.varValue >= self.lowBound - eps:
                self.varValue = self.lowBound
            if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) <= epsInt:
                self.varValue = round(self.varValue)

    def roundedValue(self, eps=1e-5):
        if (self.cat == const.LpInteger and self.varValue is not None
                and abs(self.varValue - round(self.varValue)) <= eps):
            return round(self.varValue)
        return self.varValue

    def valueOrDefault(self):
        if self.varValue is not None:
            return self.varValue
        if self.lowBound is not None:
            if self.upBound is not None:
                if 0 >= self.lowBound and 0 <= self.upBound:
                    return 0
                return self.lowBound if self.lowBound >= 0 else self.upBound
            return 0 if 0 >= self.lowBound else self.lowBound
        if self.upBound is not None:
            return 0 if 0 <= self.upBound else self.upBound
        return 0

    def valid(self, eps):
        if self.name == "__dummy" and self.varValue is None:
            return True
        if self.varValue is None:
            return False
        if self.upBound is not None and self.varValue > self.upBound + eps:
            return False
        if self.lowBound is not None and self.varValue < self.lowBound - eps:
            return False
        if self.cat == const.LpInteger and abs(round(self.varValue) - self.varValue) > eps:
            return False
        return True

    def isBinary(self):
        return self.cat == const.LpInteger and self.lowBound == 0 and self.upBound == 1

    def isInteger(self):
        return self.cat == const.LpInteger

    def isFree(self):
        return self.lowBound is None and self.upBound is None

    def isConstant(self):
        return self.lowBound is not None and self.upBound == self.lowBound

    def isPositive(self):
        return self.lowBound == 0 and self.upBound is None

    def setInitialValue(self, val, check=True):
        self.varValue = val
        return True

    def fixValue(self):
        val = self.varValue
        if val is not None:
            self.bounds(val, val)

    def unfixValue(self):
        self.bounds(self._lowbound_original, self._upbound_original)

    def isFixed(self):
        return self.isConstant()

    def __ne__(self, other):
        if isinstance(other, LpElement):
            return self.name is not other.name
        if isinstance(other, LpAffineExpression):
            if other.isAtomic():
                return self is not other.atom()
            return 1
        return 1

    __hash__ = LpElement.__hash__
    __eq__ = LpElement.__eq__


class LpAffineExpression(_DICT_TYPE):
    """A linear combination of LpVariables plus a constant"""

    __array_ufunc__ = None

    trans = LpElement.trans

    def setName(self, name):
        self.__name = str(name).translate(self.trans) if name else None

    def getName(self):
        return self.__name

    name = property(fget=getName, fset=setName)

    def __init__(self, e=None, constant=0, name=None):
        self.name = name
        if e is None:
            e = {}
        if isinstance(e, LpAffineExpression):
            self.constant = e.constant
            super().__init__(list(e.items()))
        elif isinstance(e, dict):
            self.constant = constant
            super().__init__(list(e.items()))
        elif isinstance(e, LpElement):
            self.constant = 0
            super().__init__([(e, 1)])
        elif isinstance(e, Iterable):
            self.constant = constant
            super().__init__(e)
        else:
            self.constant = e
            super().__init__()

    def __reduce__(self):
        return (_rebuild_affine, (list(self.items()), self.constant, self.name))

    def isAtomic(self):
        return len(self) == 1 and self.constant == 0 and list(self.values())[0] == 1

    def isNumericalConstant(self):
        return len(self) == 0

    def atom(self):
        return list(self.keys())[0]

    def __bool__(self):
        return (float(self.constant) != 0.0) or len(self) > 0

    def value(self):
        s = self.constant
        for v, x in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * x
        return s

    def valueOrDefault(self):
        s = self.constant
        for v, x in self.items():
            s += v.valueOrDefault() * x
        return s

    def addterm(self, key, value):
        y = self.get(key, 0)
        if y:
            y += value
            self[key] = y
        else:
            self[key] = value

    def emptyCopy(self):
        return LpAffineExpression()

    def copy(self):
        return LpAffineExpression(self)

    def __str__(self, constant=1):
        s = ""
        for v in self.sorted_keys():
            val = self[v]
            if val < 0:
                s += " - " if s != "" else "-"
                val = -val
            elif s != "":
                s += " + "
            s += str(v) if val == 1 else str(val) + "*" + str(v)
        if constant:
            if s == "":
                s = str(self.constant)
            elif self.constant < 0:
                s += " - " + str(-self.constant)
            elif self.constant > 0:
                s += " + " + str(self.constant)
        elif s == "":
            s = "0"
        return s

    def sorted_keys(self):
        return sorted(self.keys(), key=lambda v: v.name)

    def __repr__(self):
        parts = [str(self[v]) + "*" + str(v) for v in self.sorted_keys()]
        parts.append(str(self.constant))
        return " + ".join(parts)

    def addInPlace(self, other, sign=1):
        if isinstance(other, int) and other == 0:
            return self
        if other is None:
            return self
        if isinstance(other, LpElement):
            self.addterm(other, sign)
        elif isinstance(other, LpAffineExpression):
            self.constant += other.constant * sign
            for v, x in list(other.items()):
                self.addterm(v, x * sign)
        elif isinstance(other, dict):
            for e in other.values():
                self.addInPlace(e, sign=sign)
        elif isinstance(other, Iterable) and not isinstance(other, (str, bytes)):
            for e in other:
                self.addInPlace(e, sign=sign)
        else:
            self.constant += other * sign
        return self

    def subInPlace(self, other):
        return self.addInPlace(other, sign=-1)

    def __neg__(self):
        e = self.emptyCopy()
        e.constant = -self.constant
        for v, x in self.items():
            e[v] = -x
        return e

    def __pos__(self):
        return self

    def __add__(self, other):
        return self.copy().addInPlace(other)

    def __radd__(self, other):
        return self.copy().addInPlace(other)

    def __iadd__(self, other):
        return self.addInPlace(other)

    def __sub__(self, other):
        return self.copy().subInPlace(other)

    def __rsub__(self, other):
        return (-self).addInPlace(other)

    def __isub__(self, other):
        return self.subInPlace(other)

    def __mul__(self, other):
        e = self.emptyCopy()
        if isinstance(other, LpAffineExpression):
            e.constant = self.constant * other.constant
            if len(other):
                if len(self):
                    raise TypeError("Non-constant expressions cannot be multiplied")
                c = self.constant
                if c != 0:
                    for v, x in other.items():
                        e[v] = c * x
            else:
                c = other.constant
                if c != 0:
                    for v, x in self.items():
                        e[v] = c * x
        elif isinstance(other, LpVariable):
            return self * LpAffineExpression(other)
        else:
            if other != 0:
                e.constant = self.constant * other
                for v, x in self.items():
                    e[v] = other * x
        return e

    def __rmul__(self, other):
        return self * other

    def __truediv__(self, other):
        if isinstance(other, (LpAffineExpression, LpElement)):
            if isinstance(other, LpElement) or len(other):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            other = other.constant
        e = self.emptyCopy()
        e.constant = self.constant / other
        for v, x in self.items():
            e[v] = x / other
        return e

    __div__ = __truediv__

    def __rtruediv__(self, other):
        e = self.emptyCopy()
        if len(self):
            raise TypeError("Expressions cannot be divided by a non-constant expression")
        c = self.constant
        if isinstance(other, LpAffineExpression):
            e.constant = other.constant / c
            for v, x in other.items():
                e[v] = x / c
        else:
            e.constant = other / c
        return e

    def __le__(self, other):
        return LpConstraint(self - other, const.LpConstraintLE)

    def __ge__(self, other):
        return LpConstraint(self - other, const.LpConstraintGE)

    def __eq__(self, other):
        return LpConstraint(self - other, const.LpConstraintEQ)

    __hash__ = None

    def to_dict(self):
        return [dict(name=k.name, value=v) for k, v in self.items()]

    def asCplexLpAffineExpression(self, name, constant=1):
        return "%s: %s\n" % (name, self.__str__(constant))


def _rebuild_affine(items, constant, name):
    e = LpAffineExpression(items, constant=constant, name=name)
    return e


def _rebuild_constraint(items, constant, name, sense):
    c = LpConstraint(LpAffineExpression(items, constant=constant), sense, name)
    return c


class LpConstraint(LpAffineExpression):
    """An LP constraint: expression <sense> 0"""

    def __init__(self, e=None, sense=const.LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e, name=name)
        if rhs is not None:
            self.constant -= rhs
        self.sense = sense
        self.pi = None
        self.slack = None
        self.modified = True

    def __reduce__(self):
        return (_rebuild_constraint, (list(self.items()), self.constant, self.name, self.sense))

    def getLb(self):
        if self.sense in (const.LpConstraintGE, const.LpConstraintEQ):
            return -self.constant
        return None

    def getUb(self):
        if self.sense in (const.LpConstraintLE, const.LpConstraintEQ):
            return -self.constant
        return None

    def __str__(self):
        s = LpAffineExpression.__str__(self, 0)
        return s + " " + const.LpConstraintSenses[self.sense] + " " + str(-self.constant)

    def __repr__(self):
        s = LpAffineExpression.__repr__(self)
        return s + " " + const.LpConstraintSenses[self.sense] + " 0"

    def changeRHS(self, RHS):
        self.constant = -RHS
        self.modified = True

    def copy(self):
        return LpConstraint(self, self.sense)

    def emptyCopy(self):
        return LpConstraint(sense=self.sense)

    def addInPlace(self, other, sign=1):
        if isinstance(other, LpConstraint):
            if self.sense * other.sense >= 0:
                LpAffineExpression.addInPlace(self, other, sign)
                self.sense |= other.sense
            else:
                LpAffineExpression.addInPlace(self, other, -sign)
                self.sense |= -other.sense
        elif isinstance(other, list):
            for e in other:
                self.addInPlace(e, sign)
        else:
            LpAffineExpression.addInPlace(self, other, sign)
        return self

    def __mul__(self, other):
        if isinstance(other, LpConstraint):
            raise NotImplementedError
        c = LpConstraint(LpAffineExpression(self) * other, self.sense)
        if not isinstance(other, (LpElement, LpAffineExpression)) and other < 0:
            c.sense = -c.sense
        return c

    __rmul__ = __mul__

    def __neg__(self):
        return LpConstraint(-LpAffineExpression(self), -self.sense)

    def valid(self, eps=0):
        val = self.value()
        if self.sense == const.LpConstraintEQ:
            return abs(val) <= eps
        return val * self.sense >= -1 * eps

    def to_dict(self):
        return dict(sense=self.sense, pi=self.pi, constant=self.constant,
                    name=self.name, coefficients=LpAffineExpression.to_dict(self))

    __hash__ = None


class LpConstraintVar(LpElement):
    """Column-wise modelling helper"""

    def __init__(self, name=None, sense=None, rhs=None, e=None):
        LpElement.__init__(self, name)
        self.constraint = LpConstraint(name=self.name, sense=sense, rhs=rhs, e=e)

    def addVariable(self, var, coeff):
        self.constraint.addterm(var, coeff)

    def value(self):
        return self.constraint.value()


class LpProblem(object):
    """An LP Problem"""

    def __init__(self, name="NoName", sense=const.LpMinimize):
        if " " in name:
            warnings.warn("Spaces are not permitted in the name. Converted to '_'")
            name = name.replace(" ", "_")
        self.objective = None
        self.constraints = _DICT_TYPE()
        self.name = name
        self.sense = sense
        self.sos1 = {}
        self.sos2 = {}
        self.status = const.LpStatusNotSolved
        self.sol_status = const.LpSolutionNoSolutionFound
        self.noOverlap = 1
        self.solver = None
        self.solverModel = None
        self.modifiedVariables = []
        self.modifiedConstraints = []
        self.resolveOK = False
        self._variables = []
        self._variable_ids = {}
        self.dummyVar = None
        self.solutionTime = 0
        self.solutionCpuTime = 0
        self.lastUnused = 0

    def __repr__(self):
        return "%s:\n%r\n%s" % (self.name, self.objective, "\n".join(map(repr, self.constraints.values())))

    def copy(self):
        lpcopy = LpProblem(name=self.name, sense=self.sense)
        lpcopy.objective = self.objective
        lpcopy.constraints = self.constraints.copy()
        lpcopy.sos1 = self.sos1.copy()
        lpcopy.sos2 = self.sos2.copy()
        return lpcopy

    def deepcopy(self):
        lpcopy = LpProblem(name=self.name, sense=self.sense)
        if self.objective is not None:
            lpcopy.objective = self.objective.copy()
        lpcopy.constraints = _DICT_TYPE()
        for k, v in self.constraints.items():
            lpcopy.constraints[k] = v.copy()
        lpcopy.sos1 = self.sos1.copy()
        lpcopy.sos2 = self.sos2.copy()
        return lpcopy

    def valid(self, eps=0):
        return all(v.valid(eps) for v in self.variables()) and all(
            c.valid(eps) for c in self.constraints.values())

    def isMIP(self):
        return 1 if any(v.cat == const.LpInteger for v in self.variables()) else 0

    def roundSolution(self, epsInt=1e-5, eps=1e-7):
        for v in self.variables():
            v.round(epsInt, eps)

    def unusedConstraintName(self):
        self.lastUnused += 1
        while 1:
            s = "_C%d" % self.lastUnused
            if s not in self.constraints:
                break
            self.lastUnused += 1
        return s

    def addVariable(self, variable):
        if variable.hash not in self._variable_ids:
            self._variables.append(variable)
            self._variable_ids[variable.hash] = variable

    def addVariables(self, variables):
        for v in variables:
            self.addVariable(v)

    def variables(self):
        if self.objective:
            self.addVariables(list(self.objective.keys()))
        for c in self.constraints.values():
            self.addVariables(list(c.keys()))
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def variablesDict(self):
        variables = {}
        if self.objective:
            for v in self.objective:
                variables[v.name] = v
        for c in list(self.constraints.values()):
            for v in c:
                variables[v.name] = v
        return variables

    def add(self, constraint, name=None):
        self.addConstraint(constraint, name)

    def addConstraint(self, constraint, name=None):
        if not isinstance(constraint, LpConstraint):
            raise TypeError("Can only add LpConstraint objects")
        if name:
            constraint.name = name
        if constraint.name:
            name = constraint.name
        else:
            name = self.unusedConstraintName()
        if name in self.constraints:
            if self.noOverlap:
                raise const.PulpError("overlapping constraint names: " + name)
            print("Warning: overlapping constraint names:", name)
        self.constraints[name] = constraint
        self.modifiedConstraints.append(constraint)
        self.addVariables(list(constraint.keys()))

    def setObjective(self, obj):
        if isinstance(obj, LpVariable):
            obj = obj + 0.0
        try:
            obj = obj.constraint
            name = obj.name
        except AttributeError:
            name = None
        self.objective = obj
        if name is not None:
            self.objective.name = name
        self.resolveOK = False

    def __iadd__(self, other):
        name = None
        if isinstance(other, tuple):
            other, name = other
        if other is True:
            return self
        if other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        if isinstance(other, LpConstraintVar):
            self.addConstraint(other.constraint)
        elif isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = other
            if name is not None:
                self.objective.name = name
        elif isinstance(other, LpVariable) or isinstance(other, (int, float)):
            if self.objective is not None:
                warnings.warn("Overwriting previously set objective.")
            self.objective = LpAffineExpression(other)
            self.objective.name = name
        else:
            raise TypeError(
                "Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects"
            )
        return self

    def extend(self, other, use_objective=True):
        if isinstance(other, dict):
            for name in other:
                self.constraints[name] = other[name]
        elif isinstance(other, LpProblem):
            for v in other.variables():
                v.name = other.name + v.name
            for name, c in other.constraints.items():
                c.name = other.name + name
                self.addConstraint(c)
            if use_objective:
                self.objective += other.objective
        else:
            for c in other:
                if isinstance(c, tuple):
                    name, c = c
                else:
                    name = None
                if not name:
                    name = c.name
                if not name:
                    name = self.unusedConstraintName()
                self.constraints[name] = c

    def coefficients(self, translation=None):
        coefs = []
        for c in self.constraints:
            cst = self.constraints[c]
            coefs.extend([(v.name if translation is None else translation[v.name], c, cst[v]) for v in cst])
        return coefs

    def numVariables(self):
        return len(self._variable_ids)

    def numConstraints(self):
        return len(self.constraints)

    def getSense(self):
        return self.sense

    def assignVarsVals(self, values):
        variables = self.variablesDict()
        for name in values:
            if name != "__dummy":
                variables[name].varValue = values[name]

    def assignStatus(self, status, sol_status=None):
        if status not in const.LpStatus:
            raise const.PulpError("Invalid status code: " + str(status))
        self.status = status
        self.sol_status = const.LpStatusToSolution.get(status) if sol_status is None else sol_status
        return True

    def infeasibilityGap(self, mip=1):
        gap = 0
        for c in self.constraints.values():
            if not c.valid(0):
                gap = max(abs(c.value()), gap)
        return gap

    def setSolver(self, solver=None):
        self.solver = solver

    def solve(self, solver=None, **kwargs):
        from . import backend
        if solver is None:
            solver = self.solver
        return backend.solve(self, solver, **kwargs)

    def toDict(self):
        return dict(
            objective=dict(name=self.objective.name, coefficients=self.objective.to_dict()),
            constraints=[v.to_dict() for v in self.constraints.values()],
            variables=[v.to_dict() for v in self.variables()],
            parameters=dict(name=self.name, sense=self.sense, status=self.status, sol_status=self.sol_status),
            sos1=[], sos2=[],
        )

    to_dict = toDict


def lpSum(vector):
    """Calculate the sum of a list of linear expressions"""
    return LpAffineExpression().addInPlace(vector)


def lpDot(v1, v2):
    """Calculate the dot product of two lists of linear expressions"""
    if not _is_number(v1) and not _is_number(v2):
        return lpSum([lpDot(e1, e2) for e1, e2 in zip(v1, v2)])
    if _is_number(v1) and not isinstance(v2, Iterable):
        return v1 * v2
    if _is_number(v1):
        return lpSum([lpDot(v1, e2) for e2 in v2])
    return lpSum([lpDot(e1, v2) for e1 in v1])


def _is_number(x):
    return isinstance(x, (int, float, LpElement, LpAffineExpression))


def value(x):
    """Returns the value of the variable/expression x, or x if it is a number"""
    if isinstance(x, (int, float)):
        return x
    return x.value()


def valueOrDefault(x):
    if isinstance(x, (int, float)):
        return x
    return x.valueOrDefault()


def combination(orgset, k=None):
    from itertools import combinations
    return combinations(orgset, k)


def permutation(orgset, k=None):
    from itertools import permutations
    return permutations(orgset, k)


def allcombinations(orgset, k):
    from itertools import chain
    return chain(*[combination(orgset, i) for i in range(1, k + 1)])


def makeDict(headers, array, default=None):
    if len(headers) == 1:
        return dict(zip(headers[0], array))
    return {h: makeDict(headers[1:], a, default) for h, a in zip(headers[0], array)}

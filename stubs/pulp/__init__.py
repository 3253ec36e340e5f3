"""Stand-in for PuLP 2.5.1 (modelling subset); see pulp/pulp.py."""
from .constants import *  # noqa: F401,F403
from .pulp import *  # noqa: F401,F403
from .pulp import LpElement, LpVariable, LpAffineExpression, LpConstraint, LpConstraintVar, LpProblem
from .pulp import lpSum, lpDot, value, makeDict, combination, permutation, allcombinations
from .apis import *  # noqa: F401,F403
from . import constants, apis, pulp  # noqa: F401

__version__ = "2.5.1"
VERSION = "2.5.1"

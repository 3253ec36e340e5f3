"""Solver front-ends: all of them are served by the stand-in backend."""


class LpSolver(object):
    name = "LpSolver"

    def __init__(self, *args, **kwargs):
        self.args = args
        self.optionsDict = dict(kwargs)
        self.mip = kwargs.get("mip", True)
        self.msg = kwargs.get("msg", True)
        self.timeLimit = kwargs.get("timeLimit")
        self.path = kwargs.get("path")

    def available(self):
        return True

    def actualSolve(self, lp, **kwargs):
        from . import backend
        return backend.solve(lp, self, **kwargs)

    def solve(self, lp):
        return lp.solve(self)


_NAMES = [
    "GLPK_CMD", "PYGLPK", "CPLEX_CMD", "CPLEX_PY", "GUROBI", "GUROBI_CMD", "MOSEK",
    "XPRESS", "PULP_CBC_CMD", "COIN_CMD", "CHOCO_CMD", "MIPCL_CMD", "SCIP_CMD", "PULP_CHOCO_CMD",
]
for _n in _NAMES:
    globals()[_n] = type(_n, (LpSolver,), {"name": _n})
COIN = globals()["COIN_CMD"]
LpSolver_CMD = LpSolver
LpSolverDefault = globals()["PULP_CBC_CMD"](msg=False)


class PulpSolverError(Exception):
    pass


def getSolver(solver, *args, **kwargs):
    if solver not in _NAMES:
        raise PulpSolverError(
            "The solver {} does not exist in PuLP.\nPossible options are: \n{}".format(solver, _NAMES)
        )
    return globals()[solver](*args, **kwargs)


def listSolvers(onlyAvailable=False):
    return list(_NAMES)

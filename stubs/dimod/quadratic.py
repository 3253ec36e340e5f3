from . import QuadraticModel, Integer, Real  # noqa: F401

from . import BinaryQuadraticModel, BQM, Binary, Spin, quicksum  # noqa: F401

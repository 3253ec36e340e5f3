from . import ConstrainedQuadraticModel, CQM, cqm_to_bqm  # noqa: F401

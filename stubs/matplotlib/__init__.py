"""Stand-in for matplotlib: remembers what is drawn, draws nothing."""
from . import lines, pyplot, ticker  # noqa: F401

rcParamsDefault = {}
rcParams = pyplot.rcParams


def use(*a, **k):
    pass

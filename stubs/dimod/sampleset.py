from . import SampleSet, as_samples, Sample  # noqa: F401

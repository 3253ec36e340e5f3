"""Recording stand-ins for the D-Wave samplers.

``POLICY(model, kind, rng)`` may be replaced by a monitor; it returns a list of
assignments of the submitted model's variables.
"""
import random

import dimod

CALLS = []
POLICY = None


def _assignments(model, kind, n):
    rng = random.Random(len(CALLS))
    if POLICY is not None:
        return POLICY(model, kind, rng)
    out = []
    for _ in range(n):
        if kind == "cqm":
            out.append({v: rng.randint(int(model.lower_bound(v)), int(model.upper_bound(v)))
                        for v in model.variables})
        else:
            out.append({v: rng.randint(0, 1) for v in model.variables})
    return out


class DWaveSampler:
    def __init__(self, *args, **kwargs):
        self.config = kwargs
        self.properties = {"topology": {"type": "pegasus"}, "chip_id": "stub"}


class EmbeddingComposite:
    def __init__(self, child_sampler, **kwargs):
        self.child = child_sampler
        self.properties = {"child_properties": getattr(child_sampler, "properties", {})}

    def sample(self, bqm, chain_strength=None, num_reads=1, **kw):
        CALLS.append(dict(kind="real", bqm=bqm, num_reads=num_reads, chain_strength=chain_strength, **kw))
        xs = _assignments(bqm, "real", min(num_reads, 8))
        es = [bqm.binary.energy(x) for x in xs]
        return dimod.SampleSet.from_samples(dimod.as_samples(xs), dimod.BINARY, es,
                                            info={"timing": {"qpu": 1}, "stub": len(CALLS)})


AutoEmbeddingComposite = FixedEmbeddingComposite = EmbeddingComposite


class LeapHybridSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {"minimum_time_limit": [[1, 3.0], [1024, 3.0], [4096, 10.0], [10000, 40.0]],
                           "maximum_time_limit_hrs": 24.0, "quota_conversion_rate": 20}

    def min_time_limit(self, bqm):
        """smallest limit accepted for a model of this size"""
        pts = self.properties["minimum_time_limit"]
        n = len(bqm.variables)
        for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
            if n <= x1:
                return y0 if n <= x0 else y0 + (y1 - y0) * (n - x0) / (x1 - x0)
        return pts[-1][1]

    def sample(self, bqm, time_limit=None, **kw):
        least = self.min_time_limit(bqm)
        used = least if time_limit is None else time_limit
        if used < least:
            raise ValueError("time limit for problem size %d must be at least %s" % (len(bqm.variables), least))
        CALLS.append(dict(kind="bqm", bqm=bqm, time_limit=time_limit, used=used, least=least, **kw))
        xs = _assignments(bqm, "bqm", 1)
        es = [bqm.binary.energy(x) for x in xs]
        return dimod.SampleSet.from_samples(dimod.as_samples(xs), dimod.BINARY, es,
                                            info={"run_time": 5, "stub": len(CALLS)})


class LeapHybridCQMSampler:
    def __init__(self, *args, **kwargs):
        self.properties = {"minimum_time_limit_s": 5, "maximum_number_of_variables": 5000}

    def min_time_limit(self, cqm):
        """smallest limit accepted for a model of this size"""
        return max(self.properties["minimum_time_limit_s"], 1e-4 * len(cqm.variables) * max(1, len(cqm.constraints)))

    def sample_cqm(self, cqm, time_limit=None, **kw):
        least = self.min_time_limit(cqm)
        used = least if time_limit is None else time_limit
        if used < least:
            raise ValueError("the minimum time limit for this problem is %s" % least)
        CALLS.append(dict(kind="cqm", cqm=cqm, time_limit=time_limit, used=used, least=least, **kw))
        xs = _assignments(cqm, "cqm", 5)
        es = [cqm.objective.energy({**{v: 0 for v in cqm.variables}, **x}) for x in xs]
        return dimod.SampleSet.from_samples(dimod.as_samples(xs), "INTEGER", es,
                                            info={"run_time": 5, "stub": len(CALLS)})


LeapHybridDQMSampler = LeapHybridSampler

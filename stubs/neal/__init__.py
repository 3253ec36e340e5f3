"""Stand-in for dwave-neal 0.6.0: records the call and returns samples.

``POLICY(bqm, num_reads, rng)`` may be replaced by a monitor; it returns a list
of binary assignments.  Without one, a plain simulated annealing is run.
"""
import math
import random

import dimod

CALLS = []
POLICY = None


def _anneal(bqm, num_reads, num_sweeps, beta_range, rng):
    q = bqm.binary
    lin = q.linear
    nb = {v: [] for v in lin}
    for (u, v), b in q.quadratic.items():
        nb[u].append((v, b))
        nb[v].append((u, b))
    names = list(lin)
    if beta_range is None:
        beta_range = (0.1, 10.0)
    b0, b1 = beta_range
    out = []
    for _ in range(num_reads):
        x = {v: rng.randint(0, 1) for v in names}
        for k in range(num_sweeps):
            beta = b0 * (b1 / b0) ** (k / max(1, num_sweeps - 1))
            for v in names:
                d = lin[v] + sum(b for u, b in nb[v] if x[u])
                if x[v]:
                    d = -d
                if d <= 0 or rng.random() < math.exp(-min(700, beta * d)):
                    x[v] = 1 - x[v]
        out.append(x)
    return out


class SimulatedAnnealingSampler:
    parameters = {}
    properties = {"beta_schedule_options": ("linear", "geometric", "custom")}

    def __init__(self):
        pass

    def sample(self, bqm, beta_range=None, num_reads=None, num_sweeps=None,
               num_sweeps_per_beta=1, beta_schedule_type="geometric", seed=None,
               interrupt_function=None, beta_schedule=None, initial_states=None,
               initial_states_generator="random", randomize_order=False,
               proposal_acceptance_criteria="Metropolis", **kwargs):
        num_reads = 1 if num_reads is None else num_reads
        num_sweeps = 1000 if num_sweeps is None else num_sweeps
        CALLS.append(dict(bqm=bqm, beta_range=beta_range, num_reads=num_reads, num_sweeps=num_sweeps,
                          beta_schedule_type=beta_schedule_type))
        rng = random.Random(0 if seed is None else seed)
        if POLICY is not None:
            xs = POLICY(bqm, num_reads, rng)
        else:
            xs = _anneal(bqm, num_reads, num_sweeps, beta_range, rng)
        es = [bqm.binary.energy(x) for x in xs]
        ss = dimod.SampleSet.from_samples(dimod.as_samples(xs), dimod.BINARY, es,
                                          info={"beta_range": beta_range, "beta_schedule_type": beta_schedule_type,
                                                "stub": len(CALLS)})
        return ss

    def sample_qubo(self, Q, **kw):
        return self.sample(dimod.BinaryQuadraticModel.from_qubo(Q), **kw)

    def sample_ising(self, h, J, **kw):
        return self.sample(dimod.BinaryQuadraticModel.from_ising(h, J), **kw)


Neal = SimulatedAnnealingSampler

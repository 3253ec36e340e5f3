"""C18 Every accepted plan keeps trains in stations apart."""
from vp import core, ilp, sut, workload

RULE = ("one observation = one pair at one station checked on an accepted plan, or one search of the accepted plans for a violation; "
        "distinct by (constants of the rule, plan) or (constants of the rule)")
KINDS = ("track", "order", "switch")
NEED = {"judged:plan:track": 1500, "judged:plan:order": 300, "judged:plan:switch": 1500, "judged:search:track": 300, "judged:search:order": 40,
        "judged:search:switch": 300,
        "accepted plans": 300, "problems:gen": 20, "problems:walk": 10, "problems:syn": 100}


def setup():
    sut.load()
    workload.preload(range(6))


def jobs(tier, rng):
    if tier == "quick":
        sp = ilp.specs(rng, syn=320, world=60, walk=30, bundled=(0, 3)) + ilp.specs(rng, syn=80, o={"loose": True})
        return ilp.batches(sp, 8)
    sp = ilp.specs(rng, syn=9000, world=1200, walk=600, bundled=range(6)) + ilp.specs(rng, syn=2500, o={"loose": True})
    return ilp.batches(sp, 20)


def one(case, mon, rng):
    big = len(case.ts["J"]) > 10
    ilp.soundness(case, mon, rng, KINDS, n_plans=2 if big else 4, n_rules=12 if big else None, time=10 if big else 60)


def work(job, mon):
    ilp.each(job, mon, one)

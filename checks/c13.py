"""C13 A delay changes only the delayed train, by exactly that much."""
import random

from vp import core, sut, workload, world

RULE = ("one observation = one train's starting time before and after a sequence of delays; distinct by (numbers present, "
        "station, delayed train); a sequence without any delay is not generated")
NEED = {"judged:own": 300, "judged:others": 300, "judged:given unchanged": 300, "contained numbers": 100, "judged:order": 100,
        "judged:sum": 100, "on real conditions": 5}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 40 if tier == "quick" else 600
    out = [{"k": k, "seed": rng.randrange(10 ** 9)} for k in (range(6) if tier == "quick" else range(7))]
    return out + [{"seeds": [rng.randrange(10 ** 9) for _ in range(10)]} for _ in range(n)]


def synthetic(rng):
    """starting conditions with hostile numbers and names"""
    kind = rng.random()
    if kind < .7:
        ids = world.numbers(rng, rng.randrange(2, 14))
    elif kind < .85:
        ids = rng.sample(["Ks1", "Ks11", "s1", "1", "Ic2", "c2", "Ks2", "IKs2", "2"], 5)
    else:
        ids = rng.sample([1, 11, 21, 111, 211, 1111, 2111, 10, 100, 110, 101], 6)
    sts = rng.sample(["KO", "KO(STM)", "1", "11", "S1", "21", "A1", "KZ", "CB", "10"], 5) if rng.random() < .6 else [1, 3, 5, 10, 11]
    span = (-60, 300) if rng.random() < .8 else (-1430, 1500)
    return {"%s_%s" % (j, rng.choice(sts)): float(rng.randrange(*span)) for j in ids}, ids


def judge(mon, cond, ids, rng):
    df = sut.df
    own = {j: [k for k in cond if k.split("_")[0] == str(j)] for j in ids}
    todo = [(rng.choice(ids), rng.choice([0, 1, 2, 5, 13, 30, 90, 2.5])) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
    if any(str(a) in str(b) and a != b for a in set(x for x, _ in todo) for b in ids):
        mon.ev("contained numbers")
    given = dict(cond)
    cur = cond
    for j, d in todo:
        before = dict(cur)
        arg = cur
        with mon.sut("adding a delay", detail=[cond, todo]):
            cur = df.add_delay(arg, j, d)
        mon.expect("given unchanged", dict(arg) == before or arg is cur, "the given conditions were changed", key=(tuple(sorted(before)), j, d))
        mon.equal("keys", sorted(cur), sorted(before), "trains after a delay of %s" % j, key=None)
        for k in before:
            if k in own[j]:
                mon.equal("own", cur.get(k), before[k] + d, "start %s of the delayed train %s (+%s)" % (k, j, d), key=(k, d, before[k]), tol=1e-9)
            else:
                mon.equal("others", cur.get(k), before[k], "start %s after a delay of train %s (+%s)" % (k, j, d), key=(k, j))
    mon.equal("given unchanged", dict(cond), given, "conditions given at the beginning", key=(tuple(sorted(given)), tuple(todo)))
    want = dict(given)
    for j, d in todo:
        for k in own[j]:
            want[k] += d
    mon.equal("sum", dict(cur), want, "after delays %s" % todo, key=(tuple(sorted(given)), tuple(todo)), tol=1e-9)
    perm = list(todo)
    rng.shuffle(perm)
    alt = cond
    for j, d in perm:
        with mon.sut("adding a delay"):
            alt = df.add_delay(alt, j, d)
    mon.equal("order", dict(alt), dict(cur), "delays %s in the order %s" % (todo, perm), key=tuple(perm), tol=1e-9)


def work(job, mon):
    if "k" in job:
        w = workload.make({"w": "bundled", "k": job["k"]})
        rng = random.Random(job["seed"])
        with mon.sut("starting conditions"):
            td = sut.train_dict(w)
            cond = sut.df.get_initial_conditions(td, "14:00")
        for _ in range(10):
            mon.ev("on real conditions")
            judge(mon, cond, list(w.J), rng)
        return
    for s in job["seeds"]:
        rng = random.Random(s)
        mon.job = {"seeds": [s]}
        try:
            cond, ids = synthetic(rng)
            judge(mon, cond, ids, rng)
        except core.Skip:
            pass

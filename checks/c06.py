"""C06 Headways are safe and not larger than necessary."""
from vp import core, sut, workload, world

RULE = ("one observation = one ordered pair of trains on one section, the second run block by block after the first; "
        "distinct by (block times of both trains on the section, signalling, rounding); pairs on disjoint tracks are trivial")
NEED = {"judged:headway": 400, "judged:pairs listed": 80, "slower first": 60, "faster first": 60, "simplified": 10, "long sections": 100}


def setup():
    sut.load()
    workload.preload(range(7))


def jobs(tier, rng):
    n = 90 if tier == "quick" else 2200
    b = (0, 1, 2, 3, 4) if tier == "quick" else range(7)
    return (workload.jobs(rng, b) + workload.jobs(rng, gen=n, gen_o={"n_tr": 6}, batch=4) + workload.jobs(rng, walk=n // 3, batch=4)
            + workload.jobs(rng, gen=n // 3, gen_o={"n_st": 2, "n_tr": 7}, batch=4))


def run_after(w, j, jp, s, s2, h, k):
    """smallest margin over all blocks when jp follows j by h (negative: unsafe)"""
    a, b = w.block_times(j, s, s2), w.block_times(jp, s, s2)
    n = len(a)
    out = []
    t_in, t = [], h
    for x in b:
        t_in.append(t)
        t += x
    done, t = [], 0.0
    for x in a:
        t += x
        done.append(t)
    for i in range(n):
        for m in range(i, min(n, i + k)):
            out.append(t_in[i] - done[m])
    return min(out)


def one(w, mon, rng):
    with mon.sut("annotating the timetables"):
        td = sut.train_dict(w)
    sec = w.sections()
    for r in ((0, 1) if len(w.J) < 12 else (0,)):
        with mon.sut("headways"):
            got = sut.df.get_taus_headway(td, w.stations, r=r)
        want = set("%s_%s_%s_%s" % (j, jp, s, s2) for (s, s2), js in sec.items() for j in js for jp in js if j != jp)
        mon.expect("pairs listed", set(got) == want, lambda: "%s headway pairs: missing %s, unexpected %s" % (
            w.label, sorted(want - set(got))[:4], sorted(set(got) - want)[:4]), key=(w.label, r))
        for (s, s2), js in sec.items():
            k = 1 if frozenset((s, s2)) in world.SIMPLE_SECTIONS else 2
            for j in js:
                for jp in js:
                    key = "%s_%s_%s_%s" % (j, jp, s, s2)
                    if j == jp or key not in got:
                        continue
                    g = got[key]
                    b1, b2 = w.between(j, s, s2), w.between(jp, s, s2)
                    if b1 == b2 and b1:
                        h = w.ref_headway(j, jp, s, s2)
                        a, b = sum(w.block_times(j, s, s2)), sum(w.block_times(jp, s, s2))
                        mon.ev("slower first" if a > b else "faster first" if a < b else "equal speed")
                        if k == 1:
                            mon.ev("simplified")
                        if len(b1) > 1:
                            mon.ev("long sections")
                        if r == 0:
                            m = run_after(w, j, jp, s, s2, g, k)
                            mon.expect("headway", abs(m) < 1e-6, lambda: "%s headway %s = %r is %s by %.3f (blocks %s: %s then %s)" % (
                                w.label, key, g, "unsafe" if m < 0 else "larger than needed", abs(m), len(b1), w.block_times(j, s, s2),
                                w.block_times(jp, s, s2)), key=(tuple(w.block_times(j, s, s2)), tuple(w.block_times(jp, s, s2)), k),
                                sample="%s = %s, margin %.2g" % (key, g, m), mech="headway unsafe" if m < 0 else "headway too large")
                        else:
                            mon.expect("rounded headway", abs(g - round(g)) < 1e-9 and abs(g - h) <= 0.5 + 1e-6,
                                       lambda: "%s rounded headway %s = %r, exact %r" % (w.label, key, g, h), key=(h, k))
                    elif not set(b1) & set(b2):
                        mon.equal("no headway", g, 0, "%s headway %s of trains on different tracks" % (w.label, key),
                                  key=(tuple(b1), tuple(b2)) if b1 else None, tol=1e-9)
                    else:
                        mon.ev("partially shared (not judged)")


def work(job, mon):
    workload.each(job, mon, one)

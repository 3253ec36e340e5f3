"""Comparison of a reported timetable with the plan it should show."""
from datetime import timedelta


def compare(case, rep, plan, ref, mon, mode, shares=None, run=None):
    """rep: {train: {station: entry}}; plan: delays; run: running times used for arrivals if not those of the case"""
    run = run or case.run
    who = (case.label, tuple(plan.values()), mode)
    mon.expect("complete", set(rep) == set(case.ts["J"]) and all(list(rep[j]) == list(case.path(j)) for j in rep),
               lambda: "%s: report covers %s" % (case.label, {j: list(rep[j]) for j in rep}), key=who, detail=case.describe())
    m = lambda t: (t - ref).total_seconds() / 60
    for j in case.ts["J"]:
        for s in case.path(j):
            got = rep.get(j, {}).get(s, {})
            sp = case.prev(j, s)
            if case.departs(j, s):
                d, e = plan[(j, s)], case.E(j, s)
                tol = 1e-4 if abs(d - round(d)) < 1e-4 and e == int(e) else .5 + 1e-3
                if "departure" not in got or "conflicted_departure" not in got:
                    mon.expect("departure", False, "%s: no departure of %s from %s reported (%s)" % (case.label, j, s, mode), detail=case.describe())
                else:
                    ok = abs(m(got["departure"]) - (e + d)) <= tol and abs(m(got["conflicted_departure"]) - e) <= tol and abs(got["secondary delay"] - d) <= tol
                    if (ref + timedelta(minutes=e + d)).day != ref.day:
                        mon.ev("over midnight")
                    mon.expect("departure", ok, lambda: "%s: %s leaves %s at %s (delay %s, without it %s), planned %s, delay %s, without %s; %s" % (
                        case.label, j, s, m(got["departure"]), got["secondary delay"], m(got["conflicted_departure"]), e + d, d, e, mode),
                        key=(who, j, s), sample="%s %s: %s" % (j, s, got["departure"]), mech="departure", detail=case.describe())
                    if shares is not None:
                        w = shares[(j, s)] * d / case.d_max
                        mon.expect("share", abs(got.get("impact_to_objective", 1e9) - w) < 1e-5,
                                   lambda: "%s: share of %s at %s is %s, expected %s" % (case.label, j, s, got.get("impact_to_objective"), w), key=(who, j, s) if w else None)
            elif case.skipped(j, s):
                mon.expect("end", "departure" not in got, "%s: %s ends in %s but leaves it at %s" % (case.label, j, s, got.get("departure")), key=(who, j, s))
            if sp is not None:
                r = run(j, sp, s)
                a = case.E(j, sp) + plan[(j, sp)] + r
                c = case.E(j, sp) + r
                fine = all(abs(x - round(x)) < 1e-4 for x in (case.E(j, sp), plan[(j, sp)], r))
                tol = 1e-4 if fine else 1.0 + 1e-3
                ok = "arrive" in got and "conflicted_arrive" in got and abs(m(got["arrive"]) - a) <= tol and abs(m(got["conflicted_arrive"]) - c) <= tol
                mon.expect("arrival", ok, lambda: "%s: %s arrives in %s at %s (without delays %s), planned %s (%s); %s" % (
                    case.label, j, s, m(got["arrive"]) if "arrive" in got else None, m(got["conflicted_arrive"]) if "conflicted_arrive" in got else None, a, c, mode),
                    key=(who, j, s), mech="arrival", detail=case.describe())
            else:
                mon.expect("start", "arrive" not in got, "%s: %s starts in %s but arrives there at %s" % (case.label, j, s, got.get("arrive")), key=(who, j, s))

"""Writes DESIGN.md from tools/design_*.md, properties.jsonl, known_findings.json and the planted bugs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRENGTHENED = {
    "times-to-tenths": "first missed; C02 now also annotates with running times in hundredths and thousandths of a minute",
    "delay-past-midnight": "first missed; C13 now also delays trains that enter near the end of the day",
    "samples-of-earlier-runs": "C38 was given the binary model and judged samples as further parts for it",
    "no-weight-where-skipped": "first missed; C14 now also weights schedules whose endings are written by hand",
    "small-weights-ignored": "first missed; the synthetic problems now have weights near zero as well",
    "block-named-to": "first missed; C01 now also reads files whose blocks, trains and destinations resemble other lines of a section",
    "there-and-back-times": "first missed; C02 now also annotates trains that turn round on their way",
    "yard-by-number": "first missed; the generator now gives other stations tracks that look like yard and depot tracks",
    "values-tidied-up": "first missed; C33 now prints sizes of solutions with values as solvers return them",
    "half-a-minute-is-fine": "first missed; C36, C22 and C24 now also have times in fractions and samples that break one restriction by as little as possible",
    "order-not-below": "first missed; C36 now has fast trains behind slow ones and samples that break nothing but the order",
    "entry-over-departure": "generator gives departure and estimate together",
}
D={}
def d(i,w,o,wl,b,t): D[i]=(w,o,wl,b,t)
SCH="bundled, gen and walk schedules"
d("C01","every train section returned by reading a file","a second reader of the file format, row by row and cell by cell",SCH+" and with unlucky names, written as files in the documented layout","quick 90 generated + 15 walk files (600+ sections), thorough 2500; 6 s","section boundaries, markers, empty cells and names that resemble other lines are generated in all combinations")
d("C02","the running time and station attached to every block; direct lookups of network rows","the network and station tables read independently",SCH,"quick 60+30 schedules (1500+ blocks), thorough 1500+750; 9 s","both row orientations and mixed classes occur in every run (counters `reverse rows`, `mixed trains`)")
d("C03","acceptance or error of the continuity check and of the time preparation","a route is broken iff we broke it: unknown, skipped, swapped, foreign block, at first, inner and last position",SCH+" with faults injected into routes","quick 50+50 schedules, 900+ breaks; thorough 1200+1200; 10 s","every kind and place of a break has its own counter that must be reached")
d("C04","answers to route questions about trains, pairs, stations, pairs of stations","block sequence and station table",SCH+", plus dense crossover networks for partial overlaps","quick 60+30+30, thorough 1500+750+750; 12 s","asks every pair, also reversed and off the route")
d("C05","running, stopping and preparation times, one by one and as assembled","sums over blocks; the turnaround table",SCH,"quick 70+35, thorough 1800+900; 10 s","turnaround at first, intermediate and last stations, rounded and not, whole and partial requests")
d("C06","the headway of each ordered pair on each section","the second train is run block by block after the first: the value must be safe at every block and 0.05 less must not be",SCH+" with many trains per section and long sections","quick 90+30+30, thorough 2200; the 59-train bundled file (80 s) only in thorough; 15 s","every speed mix in both orders")
d("C07","groups of trains per section","grouping by block chain between consecutive stations",SCH+", dense crossover networks","quick 80+40+40, thorough 2500; 9 s","parallel tracks and several trains per group are counted")
d("C08","head-on pairs per section","pairs with reversed equal block chains",SCH+", 2-3 station single lines","quick 80+40+80, thorough 2500; 9 s","trains that start or end at the section in either order of listing")
d("C09","groups of trains per station track","grouping by station block, depots left out",SCH,"quick 100+50, thorough 3000; 9 s","shared tracks, depots and ending trains are counted")
d("C10","listed switch conflicts per station","intersection of the switch sets of both movements, read from the cells by an own parser",SCH+"; switch cells as text, number, decimal pair, missing","quick 90+30, thorough 2200; 19 s","every cell form has a counter")
d("C11","number pairs and connections","number rule and meeting block",SCH+" with several pairs per station and look-alike numbers","quick 220+110, thorough 5000; 11 s","either train first in file and in number")
d("C12","planned departures and starting conditions, and the same with a moved reference time","clock arithmetic on the own reading; shift by the moved minutes",SCH+" with departures, estimates and both","quick 100+50, thorough 3000; 9 s","before/after the reference, each source column counted")
d("C13","starting times before and after sequences of delays; the given conditions","dictionary arithmetic on whole numbers; permuted and split sequences","random number sets with suffixes, prefixes and repeated digits; conditions of the bundled files","quick 400 sequences, thorough 6000; 8 s","names contained in each other in most sets")
d("C14","weight and ending station of every train","category table, number rule, last block",SCH+", up to 14 trains","quick 150+50+75, thorough 4000; 10 s","every category, inside/beyond, look-alike numbers, random weight tables, endings written by hand")
d("C15","fourteen derived quantities for a schedule, for parts of it, for a permuted schedule, and repeated in random order of requests","metamorphic: restriction of the whole equals the part; deep snapshots of tables before/after","bundled, gen and walk schedules","quick 90+45, thorough 2400; 52 s","all quantities compared on every part; each has its own counter")
P="syn, gen, walk and bundled problems"
d("C16","the model built for a problem, plans the model accepts (optima under random objectives), and the answer of a hostile solver asked for a plan breaking each rule","own formulation of running, staying, turnaround, earliest and latest times",P,"quick 340 problems, thorough 9600; 16 s","the whole accepted set is attacked, not just the optimum")
d("C17","as C16, for following and meeting trains","headway and single-track rules",P+", loose ones included","quick 490, thorough 13300; 18 s","as C16")
d("C18","as C16, for station tracks, order on entry and switches","occupation intervals (from arrival to departure, through hand-over of rolling stock), order rule, switch separation",P+", loose ones included","quick 490, thorough 13300; 20 s","as C16; starting, ending and turning trains in all combinations")
d("C19","acceptance by the model of plans from an independent model, optimum and feasibility, result of the solving function","independent MILP of the rules; where the meaning leaves room (a train that ends on a track) the optimum must lie between the strict and the lenient reading",P,"quick 530, thorough 14300; 26 s","injects plans at the edge of what is allowed (random objectives incl. maximal delays)")
d("C20","variables of the model, objective on random assignments, shares reported for solutions","role by name of departure; weighted sum",P,"quick 490, thorough 18000; 14 s","all weight tables, limits, categories")
d("C21","optimum under random objectives and acceptance of plans for a problem and its renamed, reordered, shifted twin","metamorphic equality",P,"quick 310, thorough 9400; 20 s","names contained in each other, numeric vs. text, names the solver package rewrites, permutations of every list")
L="generic linear problems (all senses, coefficients, shifted ranges) and dispatching problems"
d("C22","each constraint, range and the objective of the constrained model on random assignments","direct evaluation of the linear problem",L,"quick 610 problems, thorough 17500; 10 s","assignments inside, at the edge of and outside the feasible set, also short of one constraint only; coefficients in quarters")
d("C23","minimum energy over auxiliary bits for given assignments, values encodable, QUBO form","objective + penalty x violation^2, per-family penalties",L,"quick 450, thorough 12000; 22 s","exact minimisation, so slack that is one short or one long is seen; tight constraints counted")
d("C24","decoded samples, judgements, chosen sample","direct evaluation; own argmin with ties allowed","the same problems with injected sample sets: ties, repeats, unsorted, all infeasible","quick 570, thorough 11500; 12 s","the sampler is played by the monitor, so every order and tie occurs; also samples short of one constraint only, and coefficients in quarters")
d("C25","every call received by any sampler stand-in; the returned record","the requested settings; the energy of the received model on random assignments","all methods x random settings, through the dispatcher and directly","quick 160 x settings, thorough 5500; 5 s","no network service can be reached by tests; the stand-in sees exactly what the service would")
d("C26","reported timetable for model solutions and samples","earliest times + delays, running times; rounding to the minute",P+" with integer, continuous and noisy plans, and names the solver package rewrites","quick 430, thorough 13300; 23 s","every entry of every report")
d("C27","whole runs of solve_real_problem.py, solve_KO_GLC_problems.py, wisla_problems.py: problem handed to the solver, files written, text printed, display afterwards","the announced case (files, delays) read independently; the monitor's own solver answers","every case x solver, random categories, numbers of runs, time limits","quick 10 full + 25 small + 5 KO + 15 Wisla runs, thorough ~430; 80 s","no test starts a program")
d("C28","the gnuplot data and scripts, listings, station and route lookups","own drawing from the stored timetable and the official distances","every stored timetable of the repository, generated timetables (over midnight, every segment), every line","quick 150 generated, thorough 3000; 11 s","no test touches these scripts")
d("C29","from schedule file to plan: the plan is run block by block on the own reading of network and schedule","no two intervals on one line block, station track or switch overlap; no head-on; hostile solver asked for a plan with an overlap","gen, walk and bundled schedules with initial delays","quick 155 schedules, thorough 3500; 15 s","the only check across data reading, derivation and optimisation, so it sees two sides agreeing on a wrong convention")
d("C30","the sizes counted and printed for models and binary models; acceptance or refusal of a solution's order choices","own count over the model as handed to the solver stand-in and over the non-zero coefficients",P+", trains renamed to look like names of quantities (y_1, z_2, Delays); linear problems with vanishing coefficients","quick 280 problems + 280 binary models, thorough 9300 + 6500; 18 s","names and vanishing coefficients that no published case has")
d("C31","every series handed to the plotting stand-in, every printed row of statistics, refusals","own mean, quartiles and extremes, own reading of the stored result files","the bundled results and generated ones: any numbers of realisations, infeasible points, many objectives and times","quick 200 generated + bundled, thorough 1250; 35 s","the drawing stand-in records the data of each figure, which a picture hides")
d("C32","the bundled tables and schedules as read by the real code; probe trains over every listed track; the source scripts run anew in a scratch directory","own reader of the same files; a probe over a listed track must be seen at its station","all four station tables, all seven schedules, random probe trains","quick ~5000 judgements, thorough more probes; 10 s","every row of hand-typed tables, against each other")
d("C33","deep snapshots of problem data, models, penalties, samples and schedules before and after each call, answers of repeated calls","the snapshot taken before; the first answer","random histories of questions over the schedule, problem and binary-model workloads","quick ~100 histories and 150 problems, thorough 1300 + 5000; 60 s","histories of calls on shared objects")
d("C34","runs of the three solving programs under injected failures of the k-th solver call: exception, interruption, no solution; all result files before and after","file tree before the run; the program must end with an error","program x solver x kind of failure x failing call, with and without earlier results","quick ~70 faulted runs, thorough ~700; 30 s","no test makes a solver fail")
d("C35","how a damaged request ends (result, error, exit status) and the result files it leaves","the damage itself: the undamaged request was accepted just before; for fractions, the exact energies of the problem if the conversion goes through","accepted schedules, problems, conversions and program calls, damaged at a random place: speed class, category, clock time, reference, gap, unmet pair, missing time, continuous, unbounded, maximised, unknown rule, method, case, solver, train","quick 2600 damaged requests, thorough ~60000; 60 s","every kind of damage has its own counter; a refusal that is an accident (an undefined name) counts as a refusal")
d("C36","the result, feasibility, objective and timetable each method returns for chosen samples: the best plan, accepted plans, plans with one change, plans that break one restriction only, random ones","independent dispatching rules, weighted delay and the optimum of the model under an exact solver","syn problems (also fast trains behind slow ones) and gen schedules in whole minutes, four methods, two or more sample sets each; problems in fractions of a minute by the method that takes them","quick 300 problems (3500 runs of a method), thorough 7000; 35 s","goes through model, conversion, decoding, judging and report in one run")
d("C37","best values (exact solver) of the built model and of models of changed problems and schedules","order of the values; no reference optimum is needed","syn (also unsolvable ones), gen and walk problems; trains, restrictions, headways, limits, weights changed; unions of two problems","quick 380 problems (2600 comparisons), thorough 11500; 45 s","unsolvable problems that become solvable and values that really change are counted")
d("C38","every part (tables, times, conflicts, timetable, model, sizes, reports, hybrid and binary model, judged samples) of every schedule in a sequence","the same part computed in a forked process that did nothing else","gen and walk schedules and up to eight look-alikes of each: other running times, switches, hours, speeds, numbers exchanged, a train or station less, stations renamed, other limits and delays; each visited twice in random order","quick 30 sequences of 18 (9000 parts), thorough 620; 60 s","numbers, stations and blocks are the same in all schedules of a sequence, so anything remembered under them shows; parts that differ from those of the schedule before are counted")
d("C39","the files that appear, the loaded tables and everything derived from them in another process","the tables that were never saved","gen, walk (thorough: also bundled) schedules and look-alikes, saved one after another into one directory, the file moved before loading","quick 32 schedules, 3 saves each, thorough 800; 38 s","older files, shorter timetables after longer ones, other processes")


def read(name):
    with open(os.path.join(HERE, name), encoding="utf8") as f:
        return f.read()


def main():
    props = [json.loads(l) for l in read("properties.jsonl").splitlines()]
    out = [read("tools/design_head.md")]
    for p in props:
        w, o, wl, b, t = D[p["id"]]
        out.append("### %s %s\n\n* **Monitored:** %s.\n* **Oracle:** %s.\n* **Workload:** %s.\n* **Bounds and cost (quick):** %s.\n"
                   "* **Beyond tests:** %s. %s\n" % (p["id"], p["title"], w, o, wl, b, t, p["why_tests_cant"]))
    kf = json.loads(read("known_findings.json"))
    tail = read("tools/design_tail.md")
    tail = tail.replace("@FIXED@", "\n".join("* `" + " ".join(x.split()[1:3]) + "`: " + " ".join(x.split()[3:]) for x in kf["fixed"]))
    tail = tail.replace("@FINDINGS@", "\n".join("* %s: %s" % (x["property"], x["what"]) for x in kf["findings"]))
    bugs = []
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(m))
        d = json.loads(read(m))
        bugs.append("| %s | %s | %s | %s |" % (name, d["property"] if name not in MISSED else "missed", d["what_it_breaks"].replace("|", "/"), STRENGTHENED.get(name, MISSED.get(name, ""))))
    tail = tail.replace("@BUGS@", "\n".join(bugs)).replace("@NBUGS@", str(len(bugs)))
    out.append(tail)
    with open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf8") as f:
        f.write("\n".join(out))


MISSED = {"first-of-two-tracks": "not caught: it needs a train that lies on two tracks of one station at once, with only one of them shared; the statement leaves open whether such trains use the same track"}
main()

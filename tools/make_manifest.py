"""Writes MANIFEST.json from properties.jsonl, the checks present and the notes below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DATA = "reference-model monitor over bundled, generated and random-route schedules"
MODEL = "reference-model monitor and hostile solver on models built by the real code"
TECH = {
    "C03": "fault injection into routes with an acceptance monitor",
    "C13": "reference-model monitor over sequences of delays",
    "C15": "metamorphic monitor (parts, orders, repetition) with before/after snapshots",
    "C19": "reference optimiser and plan injection against models built by the real code",
    "C21": "metamorphic monitor (renaming, reordering, shifting) with exact optimisation",
    "C22": "evaluation monitor comparing two models on random assignments",
    "C23": "energy monitor with exact minimisation over auxiliary bits",
    "C24": "reference-model monitor on injected sample sets",
    "C25": "recording stand-ins of the external solvers (call interception)",
    "C27": "whole-program runs with recording solvers and stored-file comparison",
    "C28": "whole-program and converter runs with a reference drawing",
    "C29": "block-by-block simulation monitor over accepted plans",
    "C30": "reference-count monitor over models and look-alike names",
    "C31": "whole-program runs with a recording plotting library",
    "C32": "probe trains over every listed track; scripts rerun and compared",
    "C33": "before/after snapshot monitor over histories of requests",
    "C34": "fault injection into solver calls of whole-program runs",
    "C35": "damage injected into accepted requests; monitor of how they end and of the files they leave",
    "C36": "whole chain of every solution method under chosen samples, judged by independent dispatching rules",
    "C37": "metamorphic monitor of best values under removal, relaxation, scaling and union",
    "C38": "monitor of every derived part after histories of look-alike schedules, compared with processes of their own",
    "C39": "round-trip monitor of saved timetables through files and processes",
}
NOTE = ("held on the executions observed in this run (counts in the evidence file); bounded by the generated sizes, "
        "no claim about unseen inputs")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            na.append({"property": i, "reason": "check under construction"})
            continue
        tech = TECH.get(i) or (DATA if i <= "C15" else MODEL)
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + tech, "level": "exploration", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the code is observed through its public functions, whole-program runs and stand-ins of packages that are not installed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

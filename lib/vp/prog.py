"""Running the programs of the repository in a scratch directory, with solvers played by the monitor."""
import contextlib
import os
import random
import runpy
import shutil
import sys
import tempfile

from . import core, ilp, sut

DATA = "/repo/data"
DIRS = ("solutions_quantum/data4diagrams", "solutions_quantum/wisla/data4diagrams", "results_KO_GLC")


@contextlib.contextmanager
def scratch(data=None):
    """a directory of its own with the output directories the programs expect; data: function that fills its data directory"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vpprog")
    try:
        for x in DIRS:
            os.makedirs(os.path.join(d, x))
        if data is None:
            shutil.copytree(DATA, os.path.join(d, "data"), ignore=shutil.ignore_patterns("railway_related_details", "*.pdf", "*.svg"))
        else:
            data(os.path.join(d, "data"))
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(name, args, mon, solve=None):
    """run a program -> (printed text, list of (problem, solver) given to linear solvers)"""
    from pulp import backend
    del backend.CALLS[:]
    backend.SOLVE = solve
    argv, path = sys.argv, list(sys.path)
    sys.argv = [name] + [str(a) for a in args]
    sys.path.insert(0, os.path.dirname("/repo/" + name))
    text = []
    try:
        with mon.sut("%s %s" % (name, kind_of(args)), detail=args):
            out = sys.stdout
            try:
                runpy.run_path("/repo/" + name, run_name="__main__")
            finally:
                text.append(out.getvalue())
    finally:
        sys.argv = argv
        sys.path[:] = path
        backend.SOLVE = None
    return text[0], list(backend.CALLS)


def kind_of(args):
    a = [str(x) for x in args]
    return " ".join(a[i] + (" " + a[i + 1] if a[i] in ("--solve_quantum", "--solve_lp") else "") for i in range(0, len(a), 2))


def numbers(text):
    out = []
    for w in text.replace(",", " ").replace("}", " ").replace("{", " ").split():
        try:
            out.append(float(w))
        except ValueError:
            pass
    return out


def printed(text, x):
    return any(abs(n - x) < 1e-6 * (1 + abs(x)) for n in numbers(text))


# models ------------------------------------------------------------------------
def canon(prob):
    """a linear problem without the names of its constraints"""
    vs = {v.name: (v.lowBound, v.upBound, v.cat) for v in prob.variables()}
    rows = {}
    for c in prob.constraints.values():
        co = tuple(sorted((v.name, round(float(a), 6)) for v, a in c.items()))
        k, sense = round(float(c.constant), 6), c.sense
        if sense == 1:
            co, k, sense = tuple((n, -a) for n, a in co), -k, -1
        rows[(co, k, sense)] = rows.get((co, k, sense), 0) + 1
    obj = {v.name: round(float(a), 6) for v, a in prob.objective.items() if a} if prob.objective is not None else {}
    return {"variables": vs, "constraints": rows, "objective": obj, "constant": round(float(prob.objective.constant), 6) if prob.objective is not None else 0}


def differ(got, want):
    """first difference of two problems, or None"""
    a, b = canon(got), canon(want)
    for part in ("variables", "objective", "constraints"):
        if a[part] != b[part]:
            only = [k for k in a[part] if a[part][k] != b[part].get(k)][:3]
            miss = [k for k in b[part] if b[part][k] != a[part].get(k)][:3]
            return "%s: solved %s, announced %s" % (part, only, miss)
    return None if a["constant"] == b["constant"] else "constant"


def random_solver(rng, log):
    """a linear solver that returns some assignment and remembers it"""
    def solve(lp, solver):
        x = {}
        for v in lp.variables():
            hi = v.upBound
            v.varValue = float(rng.randint(0, int(hi))) if v.cat == "Integer" else rng.choice([0.0, float(hi), rng.uniform(0, hi)])
            x[v.name] = v.varValue
        lp.assignStatus(1)
        log.append(x)
        return 1
    return solve


def plan_of(case, names, x):
    """delays of a solution by train and station; names of the delays come from the model"""
    out = {}
    for j, s in case.slots():
        n = ilp.vname(j, s)
        out[(j, s)] = float(x[n]) if n in x else 0.0
    return out


# data --------------------------------------------------------------------------
def sections(path):
    """(header, list of (number, text)) of a schedule file"""
    raw = open(path, "rb").read().decode("utf8", "surrogateescape").splitlines()
    head, out, cur = raw[0], [], None
    for line in raw[1:]:
        if line.startswith("####"):
            if cur:
                out.append(cur)
            cur = [line]
        elif cur is not None:
            cur.append(line)
    if cur:
        out.append(cur)
    return head, [(int(c[2].split(";")[0]), c) for c in out]


def write(path, head, secs):
    with open(path, "wb") as f:
        f.write(("\n".join([head] + [l for _, c in secs for l in c]) + "\n").encode("utf8", "surrogateescape"))


def copy_rest(src, dst):
    os.makedirs(dst, exist_ok=True)
    for n in os.listdir(src):
        if n.endswith((".npz", ".ods")):
            shutil.copy(os.path.join(src, n), os.path.join(dst, n))


def small_real(rng):
    """the four schedule files cut down to a few trains each"""
    def fill(d):
        copy_rest(DATA, d)
        for n in ("trains_schedules", "trains_schedules_Gt", "trains_schedules_1track", "trains_schedules_1track_Gt"):
            head, secs = sections("%s/%s.csv" % (DATA, n))
            own = [s for s in secs if s[0] in (14006, 94766, 40518, 41004, 5312, 40150)]
            rng.shuffle(own)
            keep = own[:rng.choice([3, 4])] + rng.sample([s for s in secs if s not in own], 1)
            keep = [s for s in secs if s in keep]
            write("%s/%s.csv" % (d, n), head, keep)
    return fill


def small_ko(rng):
    """the generic schedule files with the trains the program delays, cut to their first section"""
    need = {4602, 6401, 4604, 1, 3, 5, 2, 4, 6405, 6407, 23, 101, 11, 21, 25, 6, 8, 10, 22, 24, 7, 6403, 9, 12, 102, 103, 4606}

    def fill(d):
        copy_rest(DATA, d)
        copy_rest(DATA + "/KO_GLC", d + "/KO_GLC")
        for n in ("trains_schedules_KO_GLC", "trains_schedules_KO_RCB_ZZ_GLC", "trains_schedules_KO_RCB_ZZ_GLC_v2"):
            head, secs = sections("%s/KO_GLC/%s.csv" % (DATA, n))
            seen, out = set(), []
            for num, c in secs:
                if num in need and num not in seen:
                    seen.add(num)
                    out.append((num, cut(c)))
            write("%s/KO_GLC/%s.csv" % (d, n), head, out)
    return fill


def cut(c):
    """rows of a section up to its second station stop"""
    rows, tail = c[5:-1], c[-1:]
    n, keep = 0, []
    for r in rows:
        keep.append(r)
        t = r.split(";")
        if '""ST' in r and (t[2] or t[3] or t[4]):
            n += 1
            if n == 2:
                break
    return c[:5] + keep + tail

"""Client of the MILP server: exact reference answers by HiGHS."""
import atexit
import json
import os
import subprocess

_HERE = os.path.dirname(os.path.abspath(__file__))
_PROC = None
STATS = {"solves": 0, "optimal": 0, "infeasible": 0, "limit": 0, "unbounded": 0}


class SolverTrouble(Exception):
    """The reference solver did not answer: the run is inconclusive."""


def _proc():
    global _PROC
    if _PROC is None or _PROC.poll() is not None:
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
        env["OMP_NUM_THREADS"] = "1"
        _PROC = subprocess.Popen(
            ["python3-vt", "-B", os.path.join(_HERE, "..", "milp_server.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, universal_newlines=True,
        )
        atexit.register(close)
    return _PROC


def close():
    global _PROC
    if _PROC is not None:
        try:
            _PROC.stdin.close()
            _PROC.wait(timeout=5)
        except Exception:
            _PROC.kill()
        _PROC = None


def drop():
    global _PROC
    if _PROC is not None:
        _PROC.kill()
        _PROC.wait()
        _PROC = None


def solve(model, time=60, gap=0.0):
    """Solve a model dict; status is optimal / infeasible / unbounded / limit."""
    m = dict(model)
    m["time"] = time
    m["gap"] = gap
    STATS["solves"] += 1
    m["id"] = STATS["solves"]
    p = _proc()
    try:
        p.stdin.write(json.dumps(m) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise SolverTrouble("MILP server ended")
        res = json.loads(line)
    except BaseException:
        # an interrupted request must not leave its answer for the next one
        drop()
        raise
    if res.get("id") != m["id"]:
        drop()
        raise SolverTrouble("answer to another request")
    if res["status"] == "error":
        raise SolverTrouble(res["message"])
    STATS[res["status"]] = STATS.get(res["status"], 0) + 1
    return res

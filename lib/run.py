"""Entry point: run.py <property> [quick|thorough] [--replay file]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-cache"       # never use cached bytecode of /repo
sys.path[:0] = [HERE, os.path.join(HERE, "..", "stubs"), "/repo"]
sys.path.insert(0, os.path.join(HERE, "..", "checks"))


def main(argv):
    from vp import core
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    mod = importlib.import_module(pid.lower())
    return core.run_check(pid, mod, tier, seed, replay)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(code)

#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--replay FILE].  VERIF_SEED, VERIF_TIER from the environment."""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get("PYTHONHASHSEED") is None \
        or os.environ.get("JV_STARTED") != "1":
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    env["JV_STARTED"] = "1"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OPENBLAS_NUM_THREADS"] = env["OMP_NUM_THREADS"] = "1"
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.getcwd())
import traceback, importlib
from jv import boot


def main():
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    from jv import core
    mod = importlib.import_module("jv.checks." + prop.lower())
    chk = mod.CHECK
    if isinstance(chk, dict):
        chk = chk[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    return core.run_check(chk, seed, tier, replay)


try:
    rc = main()
except Exception:
    boot.say("ERROR of the check itself:\n" + traceback.format_exc())
    rc = 2
for c in boot.multiprocessing.active_children():
    c.terminate()
sys.stdout.flush()
boot._out.flush()
os._exit(rc)

#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

os.environ.setdefault("HOME", "/root")
if os.environ.get("DV_CHILD") != "1":
    env = dict(os.environ, DV_CHILD="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", HOME="/root", LANG="C.UTF-8")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore"] + sys.argv, env)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
REPO = os.environ.get("DV_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
if __name__ == "__main__":
    pid = sys.argv[1]
    import skada

    assert os.path.realpath(skada.__file__).startswith(os.path.realpath(REPO) + "/"), skada.__file__
    mod = importlib.import_module("props." + pid.lower())
    from dv.prop import main

    sys.exit(main(mod, sys.argv[2:]))

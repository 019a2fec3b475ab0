#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] - decide one property."""
import importlib
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
# term evaluation on witness vectors uses numpy (python3-vt has it)
NUMPY = {"C22", "C23"}
VENV = "/opt/veriftools/pyvenv/bin/python"


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module("checks." + pid.lower())
    return mod.main(tier)


if __name__ == "__main__":
    if sys.argv[1] in NUMPY and not importlib.util.find_spec("numpy"):
        sys.executable = VENV
        os.environ.pop("PYTHONHASHSEED", None)
    if os.environ.get("PYTHONHASHSEED") != "0":
        # set iteration order must not depend on the process
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    sys.exit(main())

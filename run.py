#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay file] [--case name]"""
import os
import sys
import tempfile
import atexit
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "verif-mpl"))
import harness
if __name__ == "__main__":
    harness.main(sys.argv[1], sys.argv[2:])

#!/opt/venv/bin/python
"""check.py <ID> [--tier quick|thorough] [--only contract,...] [-v] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONWARNINGS"] = "ignore"
os.environ.setdefault("PYTHONHASHSEED", "0")

if __name__ == "__main__":
    if os.environ.get("PYVC_REEXEC") != "1":
        os.environ["PYVC_REEXEC"] = "1"
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
    from pyvc import run
    a = sys.argv[1:]
    pid = a[0]
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    only = a[a.index("--only") + 1].split(",") if "--only" in a else None
    if "--replay" in a:
        rc = run.replay(pid, a[a.index("--replay") + 1])
    else:
        rc = run.check_property(pid, tier, only, "-v" in a)
    sys.stdout.flush()
    os._exit(rc)

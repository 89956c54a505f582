#!/usr/bin/env python3
"""check.py PROPERTY -- decide one property for /repo's working tree."""
import os, sys
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ.setdefault("PYTHONHASHSEED", "1")
    os.execv(VENV, [VENV, "-B", *sys.argv])
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness, props

if __name__ == "__main__":
    chk = harness.Check(sys.argv[1])
    getattr(props, sys.argv[1])(chk)
    sys.exit(chk.finish())

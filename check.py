"""check.py CNN [quick|thorough]   or   check.py --replay FILE"""

import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0" or "PYTHONDONTWRITEBYTECODE" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [here, repo]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis

try:
    import salabim

    if not os.path.abspath(salabim.__file__).startswith(os.path.abspath(repo) + os.sep):
        raise ImportError(f"salabim imported from {salabim.__file__}")
    import hypothesis
except BaseException as e:
    print("HARNESS ERROR: cannot import", repr(e))
    sys.exit(2)

from vt import core

if sys.argv[1] == "--replay":
    sys.exit(core.replay(sys.argv[2]))
sys.exit(core.main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))

#!/opt/venv/bin/python
"""run.py <property id> [--replay FILE]: decide one property (see MANIFEST.json)."""
import os
import sys

for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "harness"))

import core  # noqa: E402
import importlib  # noqa: E402

if __name__ == "__main__":
    mod = importlib.import_module(sys.argv[1].lower())
    try:
        rc = core.main(mod, sys.argv[2:])
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 3
    sys.exit(rc)

#!/usr/bin/env python3
"""Entry point of every check:  run.py <ID> [--replay FILE] [--sub NAME] [--tier T]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Exit 2: the check itself failed (nothing can be concluded).
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "PYTHONWARNINGS": "ignore", "VERIF_RUN": "1",
}

if os.environ.get("VERIF_RUN") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env.pop("PYTHONPATH", None)
    here = os.path.dirname(os.path.abspath(__file__))
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.join(here, "run.py")] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--selftest"]:
        # nothing to build: the checks import the code from /repo's working tree
        import bimdp, mdp  # noqa
        print("ok", mdp.__file__, harness.hypothesis.__version__)
        sys.exit(0)
    sys.exit(harness.main(sys.argv[1:]))

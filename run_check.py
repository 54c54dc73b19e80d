#!/opt/venv/bin/python
"""run_check.py <PROPERTY> [quick|thorough]   |   run_check.py --replay <file>"""
import os
import sys

# determinism and isolation have to be set up before anything is imported
WANT = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "NO_COLOR": "1",
    "TERM": "dumb",
    "COLUMNS": "200",
}
HERE = os.path.dirname(os.path.abspath(__file__))


def shim():
    """the fault injection library, built from source and loaded before libc"""
    import subprocess

    src = os.path.join(HERE, "shim", "faults.c")
    out = os.path.join(HERE, "build", "faults.so")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = f"{out}.{os.getpid()}"
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src, "-ldl"], check=True)
        os.replace(tmp, out)
    return out


if len(sys.argv) > 1 and (sys.argv[1].upper() == "C17" or "C17" in os.path.basename(sys.argv[-1])):
    WANT["LD_PRELOAD"] = shim()
if any(os.environ.get(k) != v for k, v in WANT.items()):
    os.environ.update(WANT)
    py = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(py, [py] + sys.argv)

REPO = os.environ.get("CAUSY_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import logging  # noqa
import warnings  # noqa

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

import torch  # noqa

torch.set_num_threads(1)

import causy  # noqa

if not os.path.realpath(causy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    print("causy is not imported from", REPO, "but from", causy.__file__)
    sys.exit(3)

from vlib import core  # noqa

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(core.main(sys.argv[1].upper(), tier, seed))

#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE]   (tier from VERIF_TIER, seed from VERIF_SEED)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               LANG="C.UTF-8", TZ="UTC")
    os.execve(sys.executable, [sys.executable, os.path.abspath(__file__), *sys.argv[1:]], env)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))

from mon.harness import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:], REPO, HERE))

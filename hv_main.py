"""Entry point: see hv/core.py. Kept tiny because spawned worker processes re-import it."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
sys.path.insert(0, REPO)

if __name__ == "__main__":
    from hv import core

    sys.exit(core.main(sys.argv[1:]))

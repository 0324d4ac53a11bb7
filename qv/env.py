"""Import set-up shared by every entry point: the code under test comes from /repo's working tree,
hypothesis (and networkx) from the pre-installed tool environment, appended last so that it never
shadows the packages the code under test runs with."""
import os
import sys
import warnings

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ.setdefault(_k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QISKIT_PARALLEL", "FALSE")
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("QV_REPO", "/repo"))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

for _p in (VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
EVIDENCE = os.environ.get("QV_EVIDENCE", os.path.join(VERIF, "evidence"))

"""Process environment for every check: must be imported before torch / the code under test."""
import os, sys, tempfile, atexit, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")
for k, v in dict(MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1",
                 OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1").items():
    os.environ[k] = v
os.environ.pop("OIL_DEBUG_COMPONENT", None)
sys.dont_write_bytecode = True
SCRATCH = tempfile.mkdtemp(prefix="verif-mc-")
os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
_owner = os.getpid()


def _cleanup():
    if os.getpid() == _owner and SCRATCH.startswith(tempfile.gettempdir()):
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
if SRC not in sys.path:
    sys.path.insert(0, SRC)
ORIG_CWD = os.getcwd()
os.chdir(SCRATCH)            # anything the code writes relative to cwd lands in scratch

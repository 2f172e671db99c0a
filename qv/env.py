"""Process set-up shared by all checks: environment variables, imports of the tree under test."""
import os
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    if os.environ.get("QV_READY"):
        pass
    os.environ.setdefault("MPLBACKEND", "Agg")
    scratch = os.environ.get("QV_SCRATCH")      # shared by the workers of one run, removed by the driver
    if not scratch:
        scratch = tempfile.mkdtemp(prefix="qv_scratch_")
        atexit.register(shutil.rmtree, scratch, True)
    if os.path.isdir("/opt/qrisp-cache/mpl") and os.access("/opt/qrisp-cache/mpl", os.W_OK):
        os.environ.setdefault("MPLCONFIGDIR", "/opt/qrisp-cache/mpl")
    else:
        os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    # the numba cache does not notice edits in inlined callees: always start cold
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["QV_READY"] = "1"
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import qrisp  # noqa: F401
    import qrisp as _q
    assert os.path.realpath(_q.__file__).startswith(os.path.realpath(src)), _q.__file__
    return scratch

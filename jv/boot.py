"""Import environment: the real code from /repo/src, JAX on CPU in float64, no writes into /repo."""
import os
import sys
import types
import tempfile
import atexit
import shutil

REPO = os.environ.get("JV_REPO", "/repo")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=2")
sys.dont_write_bytecode = True
_pyc = tempfile.mkdtemp(prefix="jv_pyc_")
atexit.register(shutil.rmtree, _pyc, True)
sys.pycache_prefix = _pyc
_src = os.path.join(REPO, "src")
sys.path[:] = [_src] + [p for p in sys.path if p != _src]
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)


def load():
    if not os.path.exists(os.path.join(_src, "astrodynx", "_version.py")):
        m = types.ModuleType("astrodynx._version")
        m.version = m.__version__ = "0"
        m.version_tuple = m.__version_tuple__ = (0,)
        sys.modules["astrodynx._version"] = m
    import jax
    jax.config.update("jax_enable_x64", True)
    import astrodynx
    assert os.path.realpath(astrodynx.__file__).startswith(os.path.realpath(_src)), astrodynx.__file__
    return astrodynx

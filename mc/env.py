"""Process environment for every check: set before numpy / rasterio / cv2 are imported."""
import os
import sys

REPO = os.environ.get('MC_REPO', '/repo')  # (override: mutation tests on a scratch copy)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_FIXED = dict(
    PROJ_DATA='/opt/vp/proj-data',
    PYTHONHASHSEED='0',
    PYTHONDONTWRITEBYTECODE='1',
    OMP_NUM_THREADS='1',
    OPENBLAS_NUM_THREADS='1',
    MKL_NUM_THREADS='1',
    GDAL_PAM_ENABLED='YES',
    LC_ALL='C.UTF-8',
)


def fixed_env() -> dict:
    env = dict(os.environ)
    env.update(_FIXED)
    env['PYTHONPATH'] = os.pathsep.join([REPO, VERIF])
    for k in ('GDAL_DATA',):
        env.pop(k, None)
    return env


def prepare():
    os.environ.update(_FIXED)
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path[:0] = [REPO, VERIF]


def load_target():
    """Import the code under test from /repo's working tree, and check it really comes from there."""
    import cv2

    cv2.setNumThreads(1)
    import orthority

    path = os.path.abspath(orthority.__file__)
    if not path.startswith(REPO + os.sep):
        raise SystemExit(f'harness: orthority imported from {path}, not {REPO}')
    return orthority

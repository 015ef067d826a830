"""Process set-up for shards: import paths, environment, quiet logging."""
import os
import sys

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", PROJ_NETWORK="OFF",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HYPOTHESIS_NO_PLUGINS="1", LANG="C.UTF-8",
               LC_ALL="C.UTF-8", GDAL_PAM_ENABLED="NO", PYTHONWARNINGS="ignore", CPL_LOG="/dev/null",
               HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent-hypothesis")
    for k in ("PYTHONPATH", "PYTEST_ADDOPTS"):
        env.pop(k, None)
    return env


def activate(builddir):
    """Puts the private build of malstroem first and Hypothesis last on the import path."""
    sys.path.insert(0, builddir)
    if HYP not in sys.path:
        sys.path.append(HYP)
    import warnings
    warnings.simplefilter("ignore")
    import malstroem
    got = os.path.realpath(os.path.dirname(malstroem.__file__))
    want = os.path.realpath(os.path.join(builddir, "malstroem"))
    if got != want:
        raise RuntimeError("imported malstroem from %s instead of %s" % (got, want))
    from malstroem.algorithms import speedups
    if not speedups.available:
        raise RuntimeError("the Cython extensions of the build cannot be imported: %s"
                           % getattr(speedups, "import_error_msg", ""))
    import logging
    logging.disable(logging.CRITICAL)
    from osgeo import gdal, ogr, osr
    gdal.UseExceptions()
    gdal.PushErrorHandler("CPLQuietErrorHandler")

"""Process environment of the simulator: interpreter, variables, import of pyirf.

Everything here runs once, in the zygote, before any simulated run.
"""
import os
import sys

# only for trying planted changes in a scratch copy; the registered commands never set it
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"

FIXED_ENV = {
    "SETUPTOOLS_SCM_PRETEND_VERSION": "0.14.0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONHASHSEED": "0",
    "TZ": "UTC",
    "LC_ALL": "C.UTF-8",
    "PYTHONNOUSERSITE": "1",
    "VERIF_SIM": "1",
}


def reexec(argv, extra=None):
    """Replace this process by one with the fixed interpreter and environment."""
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS", "PYTHONHOME", "TQDM_DISABLE"):
        env.pop(k, None)
    for k in list(env):
        if k.startswith("TQDM_"):
            env.pop(k)
    env.update(FIXED_ENV)
    if extra:
        env.update(extra)
    os.execve(PYTHON, [PYTHON, "-B", *argv], env)


def _no_cache_for_repo():
    """pyirf is always compiled from the current source, never from a .pyc."""
    from importlib.machinery import SourceFileLoader

    orig = SourceFileLoader.get_code

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        if path.startswith(REPO + "/"):
            return self.source_to_code(self.get_data(path), path)
        return orig(self, fullname)

    SourceFileLoader.get_code = get_code


PYIRF_MODULES = [
    "pyirf", "pyirf.binning", "pyirf.compat", "pyirf.coordinates", "pyirf.cut_optimization",
    "pyirf.cuts", "pyirf.exceptions", "pyirf.gammapy", "pyirf.sensitivity",
    "pyirf.simulations", "pyirf.spectral", "pyirf.statistics", "pyirf.utils",
    "pyirf.version", "pyirf.benchmarks", "pyirf.interpolation", "pyirf.io",
    "pyirf.io.eventdisplay", "pyirf.io.gadf", "pyirf.irf",
]


def load():
    """Import everything the simulated runs use."""
    import importlib
    import warnings

    sys.dont_write_bytecode = True
    _no_cache_for_repo()
    # first on the path, whatever the editable install says
    sys.path.insert(0, REPO)
    from . import simlock

    simlock.install()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy, scipy, scipy.spatial, scipy.interpolate, scipy.stats  # noqa
        import astropy.units, astropy.table, astropy.coordinates, astropy.time  # noqa
        import astropy.io.fits, astropy.io.registry  # noqa
        import tqdm, tqdm.auto  # noqa
        from astropy.utils import iers

        iers.conf.auto_download = False
        for m in PYIRF_MODULES:
            importlib.import_module(m)
    import pyirf

    assert os.path.realpath(pyirf.__file__).startswith(REPO + "/"), pyirf.__file__
    _warm()
    simlock.replace_astropy_locks()
    from . import addr

    addr.install()


def _warm():
    """Fill the lazy caches of numpy/astropy (not of pyirf) in the zygote."""
    import io
    import warnings

    import astropy.units as u
    import numpy as np
    from astropy.io import fits
    from astropy.table import QTable
    from astropy.coordinates import SkyCoord, SkyOffsetFrame
    from astropy.time import Time

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for a, b in (("TeV", "GeV"), ("deg", "rad"), ("m", "km"), ("s", "hour"), ("m2", "cm2")):
            u.Quantity([1.0], a).to(b)
            (u.Quantity([1.0], a) / u.Quantity([1.0], b)).to(u.one)
        u.Unit("MeV-1 s-1 sr-1"), u.Unit("TeV-1 s-1 sr-1").to("MeV-1 s-1 sr-1")
        t = QTable({"a": [1.0, 2.0] * u.TeV, "b": [1, 2]})
        t.group_by("b")
        t[np.array([True, False])]
        hdu = fits.BinTableHDU(t, name="X")
        b = io.BytesIO()
        fits.HDUList([fits.PrimaryHDU(), hdu]).writeto(b)
        b.seek(0)
        with fits.open(b) as h:
            QTable.read(h, hdu="X")
        c = SkyCoord([1.0] * u.deg, [2.0] * u.deg)
        c.transform_to(SkyOffsetFrame(origin=SkyCoord([1.0] * u.deg, [2.5] * u.deg)))
        Time.now().utc.iso

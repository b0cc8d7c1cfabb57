"""Imports tatc from /repo's working tree with a usable Sun/Earth ephemeris.

src/tatc/resources/de421.bsp is not part of this copy of the repository and
tatc/constants.py opens it at import. When the file is absent, skyfield's
Loader is patched, for that file name only, to return a small analytic
ephemeris (`SyntheticEphemeris`): Earth on a Kepler ellipse about the Sun
(a good few arc-minutes from reality), Jupiter and Saturn far away. Code under
test uses it through exactly the skyfield interfaces it uses for the real file
(`de421["sun"]`, `observe`, `apparent`, `is_sunlit`, ...), so solar behaviour
is executed rather than skipped. If the real file is there, it is used.
"""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
warnings.filterwarnings("ignore")

import numpy as np
from skyfield.iokit import Loader
from skyfield.vectorlib import VectorFunction

_NAME = "de421.bsp"
_orig_call = Loader.__call__
_EPS = np.radians(23.4392911)
_AU_PER_D = 1.0


def _kepler_earth(tdb):
    """Heliocentric J2000 equatorial position (au) of the Earth (low precision)."""
    n = np.asarray(tdb, dtype=float) - 2451545.0
    g = np.radians(357.529 + 0.98560028 * n)
    q = 280.459 + 0.98564736 * n
    lam = np.radians(q + 1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    # precession of the equinox of date back to J2000
    lam = lam - np.radians(3.82394e-5 * n)
    r = 1.00014 - 0.01671 * np.cos(g) - 0.00014 * np.cos(2 * g)
    return -np.array(
        [r * np.cos(lam), r * np.cos(_EPS) * np.sin(lam), r * np.sin(_EPS) * np.sin(lam)]
    )


class _Body(VectorFunction):
    def __init__(self, eph, target, fn):
        self.ephemeris = eph
        self.center = 0
        self.target = target
        self.target_name = str(target)
        self.center_name = "0"
        self._fn = fn

    @property
    def vector_name(self):
        return "Synthetic"

    def _at(self, t):
        tdb = np.asarray(t.tdb, dtype=float)
        h = 0.01
        p = self._fn(tdb)
        v = (self._fn(tdb + h) - self._fn(tdb - h)) / (2 * h)
        return p, v, None, None


def _const(p):
    def fn(tdb):
        tdb = np.asarray(tdb, dtype=float)
        if tdb.ndim == 0:
            return np.array(p, dtype=float)
        return np.array(p, dtype=float)[:, None] * np.ones(tdb.shape)[None, :]

    return fn


class SyntheticEphemeris:
    filename = _NAME
    path = _NAME

    def __init__(self):
        sun = _Body(self, 10, _const([1e-9, 0.0, 0.0]))
        earth = _Body(self, 399, _kepler_earth)
        jup = _Body(self, 5, _const([5.2, 0.1, 0.05]))
        sat = _Body(self, 6, _const([-9.0, 1.0, 0.3]))
        self._bodies = {
            10: sun, "sun": sun, "SUN": sun,
            399: earth, "earth": earth, "EARTH": earth,
            5: jup, "jupiter barycenter": jup,
            6: sat, "saturn barycenter": sat,
        }

    def __getitem__(self, key):
        return self._bodies[key.lower() if isinstance(key, str) else key]

    def __contains__(self, key):
        return (key.lower() if isinstance(key, str) else key) in self._bodies

    def decode(self, name):
        return self[name].target


def _patched(self, filename, *args, **kwargs):
    if filename == _NAME and not self.exists(filename):
        return SyntheticEphemeris()
    return _orig_call(self, filename, *args, **kwargs)


Loader.__call__ = _patched

import tatc  # noqa: E402

if not os.path.abspath(tatc.__file__).startswith(os.path.abspath(SRC)):
    raise SystemExit(f"tatc imported from {tatc.__file__}, not from {SRC}")

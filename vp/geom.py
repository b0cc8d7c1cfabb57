"""Region probes: membership of ground points in reported regions vs the
viewing geometry, independent of how the regions are represented."""
import numpy as np
from shapely import geometry as geo
import shapely

from . import oracle as O

DEG_M = np.pi / 180 * O.A  # metres per degree in the equidistant cylindrical system


def wrap(lon):
    return (np.asarray(lon, dtype=float) + 180) % 360 - 180


def covers(g, lon, lat):
    """vectorised membership, either side of the antimeridian being one place"""
    lon = wrap(lon)
    lat = np.asarray(lat, dtype=float)
    g = shapely.force_2d(g)
    r = shapely.intersects_xy(g, lon, lat)
    edge = np.abs(np.abs(lon) - 180) < 1e-9
    if np.any(edge):
        r = r | (edge & (shapely.intersects_xy(g, np.full_like(lon, 180.0), lat) | shapely.intersects_xy(g, np.full_like(lon, -180.0), lat)))
    return r


def on_map(c, g, what, z=None):
    """valid pieces within the longitude/latitude range"""
    ok = g.geom_type in ("Polygon", "MultiPolygon") and not g.is_empty
    if not c.check(ok, f"{what}: not a polygonal region", sig="geom-type", got=g.geom_type):
        return False
    b = g.bounds
    c.check(b[0] >= -180 - 1e-7 and b[2] <= 180 + 1e-7 and b[1] >= -90 - 1e-7 and b[3] <= 90 + 1e-7, f"{what}: region leaves the map", sig="geom-range", bounds=list(b))
    c.check(g.is_valid, f"{what}: invalid region", sig="geom-valid", why=shapely.is_valid_reason(g)[:80])
    if z is not None:
        cs = shapely.get_coordinates(g, include_z=True)
        c.check(g.has_z and np.allclose(cs[:, 2], z, atol=1e-6), f"{what}: region is not at the requested elevation", sig="geom-z", expected=z)
    return True


def disc_distance(lon0, lat0, lon, lat):
    """distance (deg) in the plane of longitude/latitude between a centre and
    points, over the images across the antimeridian and the poles"""
    lon, lat = np.asarray(lon, dtype=float), np.asarray(lat, dtype=float)
    best = np.full(lon.shape, np.inf)
    for k in (-360, 0, 360):
        for lo, la in ((lon, lat), (lon + 180, 180 - lat), (lon + 180, -180 - lat)):
            best = np.minimum(best, np.hypot(lo + k - lon0, la - lat0))
    return best


def fibonacci(n):
    i = np.arange(n) + 0.5
    lat = np.degrees(np.arcsin(1 - 2 * i / n))
    lon = wrap(np.degrees(np.pi * (1 + 5 ** 0.5) * i))
    return lon, lat


def ring(lon0, lat0, dist, n=24, phase=0.1):
    """points at a central angle (deg) from a centre, all azimuths"""
    az = np.linspace(0, 2 * np.pi, n, endpoint=False) + phase
    la, d = np.radians(lat0), np.radians(dist)
    lat = np.arcsin(np.clip(np.sin(la) * np.cos(d) + np.cos(la) * np.sin(d) * np.cos(az), -1, 1))
    lon = np.radians(lon0) + np.arctan2(np.sin(az) * np.sin(d) * np.cos(la), np.cos(d) - np.sin(la) * np.sin(lat))
    return wrap(np.degrees(lon)), np.degrees(lat)


def seam(lon, lat, tol=1e-4):
    """probes too close to the map edge to place unambiguously"""
    return (np.abs(np.abs(wrap(lon)) - 180) < tol) | (np.abs(np.asarray(lat)) > 89.99)


class View:
    """Geometry of one instrument view at one instant."""

    def __init__(self, p, v, roll, pitch, cross, along, rect, elev):
        self.p, self.elev = p, elev
        self.vu, self.n, self.b = O.vnb(p, v)
        self.tr, self.tp = np.tan(np.radians(roll)), np.tan(np.radians(pitch))
        self.tc, self.ta = np.tan(np.radians(cross / 2)), np.tan(np.radians(along / 2))
        self.rect = rect

    def ray(self, x, y):
        """ray at fractions x (right), y (fore) of the half widths"""
        return self.b + self.vu * (self.tp + y * self.ta) + self.n * (self.tr + x * self.tc)

    def q(self, lon, lat):
        """normalised position in the view (1 = edge) of ground points, inf
        when behind; with the elevation angle of the satellite there"""
        g = O.geodetic_to_ecef(np.asarray(lat, float), np.asarray(lon, float), np.full(np.shape(lat), float(self.elev)))
        d = g - self.p[:, None]
        # coefficients of the line of sight in the (not exactly orthogonal) basis
        db, dv, dn = np.linalg.solve(np.column_stack([self.b, self.vu, self.n]), d)
        with np.errstate(divide="ignore", invalid="ignore"):
            y = (dv / db - self.tp) / self.ta
            x = (dn / db - self.tr) / self.tc
        q = np.maximum(np.abs(x), np.abs(y)) if self.rect else np.hypot(x, y)
        q = np.where(db > 0, q, np.inf)
        el = O.look_angles(np.repeat(self.p[:, None], len(q), axis=1), np.asarray(lat, float), np.asarray(lon, float), np.full(len(q), float(self.elev)))[0]
        return q, el

    def clear_of_limb(self, margin=-60e3, n=32):
        """does the whole edge of the view (corners included) hit the Earth well inside the limb?"""
        k = np.sqrt(2) if self.rect else 1.0
        for w in np.linspace(0, 2 * np.pi, n, endpoint=False):
            m, ahead = O.ray_miss(self.p, self.ray(k * np.cos(w), k * np.sin(w)), self.elev + margin)
            if m < 0 or ahead < 0:
                return False
        return True

    def coarse(self):
        """thin and wide in longitude: the few straight sides (in longitude and
        latitude) of the outline are far from the true edge of such a view"""
        e = np.array([self.ground(np.cos(w), np.sin(w)) or (np.nan, np.nan) for w in np.linspace(0, 2 * np.pi, 24, endpoint=False)])
        if np.isnan(e).any():
            return True
        span = np.degrees(np.ptp(np.unwrap(np.radians(np.append(e[:, 0], e[0, 0])))))
        return span > 8 and max(self.tc / self.ta, self.ta / self.tc) > 3

    def ground(self, x, y):
        g = O.ray_ellipsoid(self.p, self.ray(x, y), self.elev)
        if g is None:
            return None
        la, lo, _ = O.ecef_to_geodetic(g)
        return float(lo), float(la)

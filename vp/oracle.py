"""Independent reference computations used by the monitors.

Orbit propagation itself (SGP4 through skyfield, from the element-set text) is
trusted; everything tatc builds on top of it is recomputed here with separate
code: geodetic conversion, topocentric angles, visibility intervals, solar
geometry, ray/ellipsoid intersections, spherical polygons.
"""
from datetime import datetime, timedelta, timezone

import numpy as np
from skyfield.api import EarthSatellite, load
from skyfield.framelib import itrs

UTC = timezone.utc
TS = load.timescale(builtin=True)
A = 6378137.0
F = 1 / 298.257223563
B = A * (1 - F)
E2 = F * (2 - F)
R_MEAN = (2 * A + B) / 3
MU = 3.986004418e14
SIDEREAL = 86164.0905


def dt(s):
    if isinstance(s, datetime):
        return s
    return datetime.fromisoformat(s).astimezone(UTC)


def iso(d):
    return d.isoformat()


def ts_at(t0, seconds):
    """skyfield Time for UTC datetime t0 plus an array (or scalar) of seconds."""
    t0 = t0.astimezone(UTC)
    sec = t0.hour * 3600 + t0.minute * 60 + t0.second + t0.microsecond / 1e6 + np.asarray(seconds, dtype=float)
    # calendar seconds (a leap second in between is no second of the difference)
    days = np.floor(sec / 86400)
    return TS.utc(t0.year, t0.month, t0.day + days, 0, 0, sec - 86400 * days)


def ts_of(times):
    t0 = min(times)
    return ts_at(t0, np.array([(t - t0).total_seconds() for t in times]))


def geodetic_to_ecef(lat, lon, h):
    la, lo = np.radians(lat), np.radians(lon)
    n = A / np.sqrt(1 - E2 * np.sin(la) ** 2)
    return np.array([
        (n + h) * np.cos(la) * np.cos(lo),
        (n + h) * np.cos(la) * np.sin(lo),
        (n * (1 - E2) + h) * np.sin(la),
    ])


def ecef_to_geodetic(p):
    """(lat, lon, h) by fixed-point iteration; p is (3,) or (3,n)."""
    x, y, z = np.asarray(p, dtype=float)
    lon = np.arctan2(y, x)
    r = np.hypot(x, y)
    lat = np.arctan2(z, r * (1 - E2))
    for _ in range(12):
        n = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
        lat = np.arctan2(z + E2 * n * np.sin(lat), r)
    n = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
    c = np.abs(np.cos(lat))
    with np.errstate(divide="ignore", invalid="ignore"):
        h = np.where(c > 1e-3, r / np.where(c > 0, np.cos(lat), 1) - n,
                     np.abs(z) / np.abs(np.sin(lat)) - n * (1 - E2))
    return np.degrees(lat), np.degrees(lon), h


def enu(lat, lon):
    la, lo = np.radians(lat), np.radians(lon)
    e = np.array([-np.sin(lo), np.cos(lo), np.zeros_like(lo)])
    n = np.array([-np.sin(la) * np.cos(lo), -np.sin(la) * np.sin(lo), np.cos(la)])
    u = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    return e, n, u


def look_angles(pos, lat, lon, h):
    """elevation, azimuth (deg) and range of ECEF pos (3,n) from a geodetic place."""
    o = geodetic_to_ecef(lat, lon, h)
    pos = np.asarray(pos, dtype=float)
    if pos.ndim == 2 and o.ndim == 1:
        o = o[:, None]
    d = pos - o
    e, n, u = enu(np.asarray(lat, dtype=float), np.asarray(lon, dtype=float))
    if pos.ndim == 2 and e.ndim == 1:
        e, n, u = e[:, None], n[:, None], u[:, None]
    de, dn, du = (d * e).sum(0), (d * n).sum(0), (d * u).sum(0)
    r = np.sqrt((d * d).sum(0))
    return np.degrees(np.arcsin(np.clip(du / r, -1, 1))), np.degrees(np.arctan2(de, dn)) % 360, r


def angdiff(a, b):
    return np.abs((np.asarray(a) - np.asarray(b) + 180) % 360 - 180)


_sat_cache = {}


def sat(tle):
    key = tuple(tle[:2])
    if key not in _sat_cache:
        if len(_sat_cache) > 64:
            _sat_cache.clear()
        _sat_cache[key] = EarthSatellite(tle[0], tle[1], ts=TS)
    return _sat_cache[key]


def state_ecef(tle, t):
    """Earth-fixed position (m) and velocity (m/s) of the first element pair."""
    p, v = sat(tle).at(t).frame_xyz_and_velocity(itrs)
    return p.m, v.m_per_s


def state_eci(tle, t):
    g = sat(tle).at(t)
    return g.position.m, g.velocity.m_per_s


def sunlit(pos_eci, sun_eci):
    """Signed margin (m): >0 sunlit; line of sight to the Sun vs the Earth
    (sphere of equatorial radius, as customary for this flag)."""
    s = sun_eci - pos_eci
    u = s / np.linalg.norm(s, axis=0)
    along = (pos_eci * u).sum(0)
    perp = np.linalg.norm(pos_eci - along * u, axis=0)
    return np.where(along >= 0, np.inf, perp - 6378136.6)


def sun_eci(t):
    """Apparent-ish geocentric Sun vector (m), from the same ephemeris."""
    from tatc import constants
    return constants.de421["earth"].at(t).observe(constants.de421["sun"]).apparent().position.m


def to_itrs(vec, t):
    r = itrs.rotation_at(t)
    vec = np.asarray(vec, dtype=float)
    if vec.ndim == 1:
        return (r if r.ndim == 2 else r[:, :, 0]) @ vec
    return np.einsum("ij...,j...->i...", r, vec)


def sun_altaz(lat, lon, h, t):
    s = to_itrs(sun_eci(t), t)
    el, az, _ = look_angles(s, lat, lon, h)
    return el, az


def elevation_at(tle, t0, secs, lat, lon, h):
    p, _ = state_ecef(tle, ts_at(t0, np.atleast_1d(secs)))
    return look_angles(p, lat, lon, h)[0]


def visibility(elev_fn, duration, threshold, step=10.0):
    """Maximal intervals [a,b] (seconds, clipped to [0,duration]) with
    elev_fn(secs) >= threshold, by dense sampling and bisection. Returns a list
    of (a, b, peak margin, clipped_left, clipped_right)."""
    n = max(3, int(np.ceil(duration / step)) + 1)
    s = np.linspace(0, duration, n)
    m = elev_fn(s) - threshold
    # refine around local maxima that may reach the threshold and minima that may
    # dip below it: by how much is bounded by the change between samples
    near = np.abs(m[1:-1]) < 2.0 + 3.0 * np.maximum(np.abs(m[1:-1] - m[:-2]), np.abs(m[1:-1] - m[2:]))
    peak = (m[1:-1] > m[:-2]) & (m[1:-1] >= m[2:])
    dip = (m[1:-1] < m[:-2]) & (m[1:-1] <= m[2:])
    extra = [np.linspace(s[i - 1], s[i + 1], 41)[1:-1] for i in np.nonzero(near & (peak | dip))[0] + 1]
    extra += [np.linspace(s[0], s[1], 22)[1:-1], np.linspace(s[-2], s[-1], 22)[1:-1]]
    if extra:
        e = np.concatenate(extra)
        me = elev_fn(e) - threshold
        s = np.concatenate([s, e])
        m = np.concatenate([m, me])
        o = np.argsort(s, kind="stable")
        s, m = s[o], m[o]
        keep = np.concatenate([[True], np.diff(s) > 1e-9])
        s, m = s[keep], m[keep]
    up = m >= 0
    idx = np.nonzero(np.diff(up.astype(int)))[0]
    cross = []
    if len(idx):
        lo, hi = s[idx].copy(), s[idx + 1].copy()
        lo_up = up[idx].copy()
        for _ in range(25):
            mid = (lo + hi) / 2
            mu = elev_fn(mid) - threshold >= 0
            same = mu == lo_up
            lo = np.where(same, mid, lo)
            hi = np.where(same, hi, mid)
        cross = list((lo + hi) / 2)
    out = []
    a = 0.0 if up[0] else None
    left = bool(up[0])
    for c, i in zip(cross, idx):
        if a is None:
            a, left = c, False
        else:
            sel = (s >= a) & (s <= c)
            out.append((a, c, float(m[sel].max()) if sel.any() else 0.0, left, False))
            a = None
    if a is not None:
        sel = s >= a
        out.append((a, float(duration), float(m[sel].max()) if sel.any() else 0.0, left, True))
    return out


def gap_margin(elev_fn, a, b, threshold):
    """depth (deg) of the dip below the threshold in [a, b]"""
    return float(np.max(threshold - elev_fn(np.linspace(a, b, 41))))


# --- viewing geometry on the sphere -------------------------------------

def min_elevation(alt, f_of_r, elev=0.0):
    rho = (R_MEAN + elev) / (R_MEAN + alt)
    c = np.sin(np.radians(min(f_of_r, 180.0)) / 2) / rho
    return 0.0 if c >= 1 else float(np.degrees(np.arccos(c)))


def swath(alt, f_of_r, elev=0.0):
    rho = (R_MEAN + elev) / (R_MEAN + alt)
    s = min(rho, np.sin(np.radians(min(f_of_r, 180.0)) / 2))
    lam = np.pi / 2 - np.arcsin(s) - np.arccos(min(1.0, s / rho))
    return float(2 * (R_MEAN + elev) * lam)


def ray_ellipsoid(p, d, elev=0.0):
    """First intersection of p + k d (k>0) with the ellipsoid enlarged by elev,
    or None."""
    a, b = A + elev, B + elev
    w = np.array([1 / a, 1 / a, 1 / b])
    P, D = p * w, d * w
    qa, qb, qc = D @ D, 2 * P @ D, P @ P - 1
    disc = qb * qb - 4 * qa * qc
    if disc < 0:
        return None
    k = (-qb - np.sqrt(disc)) / (2 * qa)
    if k <= 0:
        return None
    return p + k * d


def ray_miss(p, d, elev=0.0):
    """discriminant margin (dimensionless): >0 hits"""
    a, b = A + elev, B + elev
    w = np.array([1 / a, 1 / a, 1 / b])
    P, D = p * w, d * w
    D = D / np.linalg.norm(D)
    return float((P @ D) ** 2 - (P @ P - 1)), float(-(P @ D))


def vnb(p, v):
    """unit velocity, right-hand normal (v x nadir) and nadir in the Earth-fixed frame"""
    vu = v / np.linalg.norm(v)
    b = -p / np.linalg.norm(p)
    n = np.cross(vu, b)
    return vu, n, b


def unit(lon, lat):
    lo, la = np.radians(lon), np.radians(lat)
    return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])


def central_angle(lon1, lat1, lon2, lat2):
    a, b = unit(lon1, lat1), unit(lon2, lat2)
    return np.degrees(np.arctan2(np.linalg.norm(np.cross(a, b, axis=0), axis=0), (a * b).sum(0)))

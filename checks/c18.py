"""C18: orbits convert to element sets that carry the specified orbit."""
from datetime import datetime, time, timedelta, timezone
from functools import lru_cache

import numpy as np
from pydantic import ValidationError
from sgp4.api import Satrec

from vp import core, oracle as O, work as W

PROPERTY = "C18"
RULE = "a case counts when an orbit was converted and its element set, propagated state and (sun-synchronous) equator crossing were compared with the specification, or an out-of-range parameter was offered"
CASES = {"quick": 5000, "thorough": 60000}
REQUIRED_EVENTS = ["call:to_tle", "circular", "keplerian", "sso", "molniya", "tundra", "sso_ascending", "sso_descending", "crossing_time", "out_of_range", "retrograde", "eccentric", "at_bound_ok", "reuse"]
ASSUMPTIONS = ["elements compared at the resolution of the exported columns (1e-4 deg, 1e-7, 1e-8 rev/day, 1e-8 day)",
               "mean anomaly compared with Kepler's equation up to the truncation of a fourth-order series",
               "propagated state judged below 170 deg inclination and eccentricity 0.55 (elsewhere the element set alone is judged): radius within 25 km + 3 % x eccentricity, direction within 0.5 deg + 2 deg x eccentricity (short-period perturbations)",
               "node of sun-synchronous orbits within 1 deg (precession of the equinox)"]

MU = 3.986004418e14
UTC = timezone.utc


def install():
    for k in ("CircularOrbit", "KeplerianOrbit", "SunSynchronousOrbit", "MolniyaOrbit"):
        core.hook(f"tatc.schemas.orbit.{k}.to_tle", post)


def mean_from_true(nu, e):
    nu = np.radians(nu)
    E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(nu / 2), np.sqrt(1 + e) * np.cos(nu / 2))
    return np.degrees(E - e * np.sin(E))


def true_from_mean(m, e):
    M = np.radians(m)
    lo, hi = M - e - 1e-9, M + e + 1e-9
    for _ in range(80):
        mid = (lo + hi) / 2
        if mid - e * np.sin(mid) < M:
            lo = mid
        else:
            hi = mid
    E = (lo + hi) / 2
    return np.degrees(2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2)))


@lru_cache(None)
def _series_tol(e):
    nu = np.radians(np.linspace(0, 360, 721))
    s = (nu - 2 * e * np.sin(nu) + (0.75 * e ** 2 + e ** 4 / 8) * np.sin(2 * nu) - e ** 3 / 3 * np.sin(3 * nu) + 5 / 32 * e ** 4 * np.sin(4 * nu))
    E = 2 * np.arctan2(np.sqrt(1 - e) * np.sin(nu / 2), np.sqrt(1 + e) * np.cos(nu / 2))
    ex = E - e * np.sin(E)
    return float(1.1 * np.max(np.abs(np.degrees(np.angle(np.exp(1j * (s - ex)))))))


def series_tol(e):
    return _series_tol(round(float(e) + 5e-4, 3)) + 1e-5


def spec_of(o):
    """(kind, inclination, node or None, perigee, eccentricity, mean motion, semi-major axis)"""
    k = o.type
    if k in ("circular", "keplerian", "sso"):
        a = O.R_MEAN + o.altitude
        n = 86400 / (2 * np.pi * np.sqrt(a ** 3 / MU))
        if k == "sso":
            # node rate of the mean Sun from the oblateness of the Earth
            rate = np.radians(360 / 365.2422) / 86400
            ci = -rate / (1.5 * 1.08263e-3 * (6378137.0 / a) ** 2 * np.sqrt(MU / a ** 3))
            return k, np.degrees(np.arccos(np.clip(ci, -1, 1))), None, 0.0, 0.0, n, a
        if k == "circular":
            return k, o.inclination, o.right_ascension_ascending_node, 0.0, 0.0, n, a
        return k, o.inclination, o.right_ascension_ascending_node, o.perigee_argument, o.eccentricity, n, a
    n = 86400 / o.orbital_period
    a = (MU * (o.orbital_period / (2 * np.pi)) ** 2) ** (1 / 3)
    e = o.eccentricity if k == "tundra" else 1 - (o.altitude + O.A) / a
    return k, o.inclination, o.right_ascension_ascending_node, o.perigee_argument, e, n, a


def post(c, args, tle, exc, token):
    o = args["self"]
    if exc is not None:
        return
    k, inc, raan, argp, e, n, a = spec_of(o)
    c.event(k)
    if inc > 90:
        c.event("retrograde")
    if e > 0.1:
        c.event("eccentric")
    l1, l2 = tle.tle
    c.check(len(tle.tle) == 2, "not a single element set", sig="count")
    s = Satrec.twoline2rv(l1, l2)
    d = {"orbit": o.model_dump(mode="json"), "lines": [l1, l2]}

    def eq(name, got, want, tol):
        c.check(abs(got - want) <= tol, f"{name} of the element set is not the specified one", sig=k + "-" + name, got=got, want=want, tol=tol, **d)

    etol = 1e-7 if k != "molniya" else 2e-4  # gravitational parameter
    eq("inclination", np.degrees(s.inclo), inc, 6e-5 if k != "sso" else 0.02 + 0.0005 / max(0.01, np.sin(np.radians(inc))))
    eq("eccentricity", s.ecco, e, etol)
    if k in ("keplerian", "molniya", "tundra"):
        eq("perigee", O.angdiff(np.degrees(s.argpo), argp), 0, 6e-5)
    eq("mean motion", s.no_kozai * 720 / np.pi, n, 3e-8)
    ep = o.epoch if o.epoch.tzinfo else o.epoch.replace(tzinfo=UTC)
    day = (s.jdsatepoch - 2451544.5) + s.jdsatepochF
    eq("epoch", (day - (ep - datetime(2000, 1, 1, tzinfo=UTC)) / timedelta(days=1)) * 86400, 0, 8e-4)
    m = mean_from_true(o.true_anomaly, e)
    mt = series_tol(e) + 6e-5 + (0.05 if k == "molniya" else 0)
    u = np.degrees(s.argpo) + np.degrees(s.mo)
    if e < 1e-9:
        eq("place in the orbit", O.angdiff(u, argp + o.true_anomaly), 0, 2e-4)
    else:
        eq("mean anomaly", O.angdiff(np.degrees(s.mo), m), 0, mt)
    if k == "sso":
        node = np.degrees(s.nodeo)
        t = O.ts_of([ep])[0]
        with core.suspend():
            sv = O.sun_eci(t)
        ra = np.degrees(np.arctan2(sv[1], sv[0]))
        x = o.equator_crossing_time
        h = x.hour + x.minute / 60 + x.second / 3600 + x.microsecond / 3.6e9
        want = ra + 15 * (h - 12) + (0 if o.equator_crossing_ascending else 180)
        c.event("sso_ascending" if o.equator_crossing_ascending else "sso_descending")
        eq("node", O.angdiff(node, want), 0, 0.05)
        # the node of the propagated orbit follows the Sun
        if a < 9500e3:
            rate = np.degrees(s.nodedot) * 1440
            c.check(abs(rate - 0.98565) < 0.012, "the node does not follow the Sun", sig="sso-rate", rate=rate, **d)
        raan = node
    else:
        eq("node", O.angdiff(np.degrees(s.nodeo), raan), 0, 6e-5)
    # propagated state at epoch
    err, r, v = s.sgp4(s.jdsatepoch, s.jdsatepochF)
    if err or a * (1 - e) < 6378e3 + 150e3 or (e > 0.1 and k != 'tundra' and mt > 1) or inc > 170 or e > 0.55:
        c.event("not_propagated")
        return
    r = np.array(r) * 1e3
    mo = np.degrees(s.mo)
    nu = true_from_mean(mo, s.ecco)
    th = np.radians(argp + nu)
    O_, i_ = np.radians(raan), np.radians(inc)
    dirn = np.array([np.cos(O_) * np.cos(th) - np.sin(O_) * np.sin(th) * np.cos(i_), np.sin(O_) * np.cos(th) + np.cos(O_) * np.sin(th) * np.cos(i_), np.sin(th) * np.sin(i_)])
    ang = np.degrees(np.arccos(np.clip(dirn @ r / np.linalg.norm(r), -1, 1)))
    rad = a * (1 - e * e) / (1 + e * np.cos(np.radians(nu)))
    # what an error of the series does to the radius and direction is part of the mean anomaly comparison above
    c.check(ang < 0.5 + 2 * e, "the propagated satellite is not at the specified place in the orbit", sig=k + "-direction", ang=ang, nu=nu, **d)
    c.check(abs(np.linalg.norm(r) - rad) < 25e3 + 0.03 * e * rad + 5e-4 * a, "the propagated satellite is not at the specified altitude", sig=k + "-altitude", got=np.linalg.norm(r) - O.R_MEAN, want=rad - O.R_MEAN, **d)
    c.event("propagated")
    c.state(k, int(inc // 30), int(e * 10), int(np.log10(a) * 10))


def crossing(o, tle, c):
    """Local solar time at the equator crossings of the propagated orbit."""
    ep = o.epoch
    P = 2 * np.pi * np.sqrt((O.R_MEAN + o.altitude) ** 3 / MU)
    secs = np.linspace(0, 1.1 * P, 400)
    t = O.ts_at(ep, secs)
    p, v = O.state_ecef(tle.tle, t)
    z = p[2]
    s = O.to_itrs(O.sun_eci(t), t)
    up = o.equator_crossing_ascending
    for j in range(len(z) - 1):
        if (z[j] <= 0 < z[j + 1]) if up else (z[j] >= 0 > z[j + 1]):
            f = z[j] / (z[j] - z[j + 1])
            lst = []
            for q in (j, j + 1):
                lst.append(np.degrees(np.arctan2(p[1, q], p[0, q]) - np.arctan2(s[1, q], s[0, q])))
            h = 12 + (lst[0] + f * ((lst[1] - lst[0] + 180) % 360 - 180)) / 15
            x = o.equator_crossing_time
            want = x.hour + x.minute / 60 + x.second / 3600
            dh = (h - want + 12) % 24 - 12
            c.event("crossing_time")
            c.check(abs(dh) < 0.06, "equator crossed at the wrong local solar time", sig="crossing", got=h % 24, want=want, up=up, orbit=o.model_dump(mode="json"))


def run(case, c):
    d = dict(case["orbit"])
    if case.get("reject"):
        c.event("out_of_range")
        try:
            o = W.build_orbit(d)
            o.to_tle()
        except ValidationError:
            c.check(True, "")
            return
        except (ValueError, TypeError) as exc:
            c.check(isinstance(exc, ValueError), "rejected with an unrelated error", sig="reject-kind", got=repr(exc), orbit=d)
            return
        c.fail("an out-of-range orbit parameter is accepted", sig="accepted", orbit=d)
        return
    o = W.build_orbit(d)
    if case.get("bound"):
        c.event("at_bound_ok")
    tle = o.to_tle()
    k, inc, raan, argp, e, n, a = spec_of(o)
    # descriptive accessors of the specification
    c.check(abs(o.get_mean_motion() - n) < 1e-7 * n, "mean motion", sig="acc-n", got=o.get_mean_motion(), want=n, orbit=d)
    c.check(abs(o.get_orbit_period().total_seconds() - 86400 / n) < 1e-5 * 86400 / n * 0.01 + 1e-5, "period", sig="acc-period", got=str(o.get_orbit_period()), want=86400 / n, orbit=d)
    c.check(abs(o.get_semimajor_axis() - a) < 1.2e-4 * a if k in ("molniya", "tundra") else abs(o.get_semimajor_axis() - a) < 1e-6 * a, "semi-major axis", sig="acc-a", got=o.get_semimajor_axis(), want=a, orbit=d)
    c.check(abs(O.angdiff(o.get_mean_anomaly(), mean_from_true(o.true_anomaly, e))) < series_tol(e) + (0.05 if k == "molniya" else 0), "mean anomaly", sig="acc-m", got=o.get_mean_anomaly(), orbit=d)
    if k == "sso":
        crossing(o, tle, c)
    if case.get("reuse"):
        # changing one field changes the element set
        c.event("reuse")
        f, v = case["reuse"]
        setattr(o, f, v)
        o.to_tle()


def gen(rng, i):
    k = str(rng.choice(["circular", "keplerian", "keplerian", "sso", "sso", "molniya", "tundra"]))
    epoch = W.gen_epoch(rng)
    if rng.random() < 0.1:
        epoch = datetime(int(rng.integers(1960, 2056)), int(rng.choice([1, 12])), int(rng.choice([1, 31])), int(rng.choice([0, 23])), int(rng.choice([0, 59])), 59, int(rng.choice([0, 999999])), tzinfo=UTC)
    if rng.random() < 0.1:
        epoch = epoch.astimezone(timezone(timedelta(hours=int(rng.integers(-11, 12)))))
    if k in ("circular", "keplerian", "sso"):
        o = W.gen_orbit(rng, kinds=(k,), epoch=epoch, max_e=0.02 if rng.random() < 0.5 else 0.6)
        if rng.random() < 0.08:
            o["altitude"] = 35786e3 if k != "sso" else W.r(rng.uniform(1600e3, 5700e3), 1)
    else:
        o = {"type": k, "altitude": W.r(rng.uniform(300e3, 3000e3), 1), "epoch": epoch.isoformat(), "inclination": 63.4 if rng.random() < 0.6 else W.r(rng.uniform(0, 179), 3),
             "right_ascension_ascending_node": W.r(rng.uniform(0, 359.99), 3), "perigee_argument": float(rng.choice([270.0, 90.0, 0.0, W.r(rng.uniform(0, 359), 2)])),
             "true_anomaly": W.r(rng.uniform(0, 359.99), 3) if rng.random() < 0.8 else float(rng.choice([0.0, 180.0]))}
        if k == "tundra":
            o["orbital_period"] = W.r(rng.uniform(80000, 90000), 2) if rng.random() < 0.6 else 86164.1
            if rng.random() < 0.8:
                o["eccentricity"] = W.r(rng.uniform(0, 0.5), 4)
        elif rng.random() < 0.7:
            o["orbital_period"] = W.r(rng.uniform(20000, 90000), 2)
        else:
            o["orbital_period"] = 43080
    if rng.random() < 0.15:
        return {"kind": "reject", "orbit": bad(rng, o), "reject": True}
    case = {"kind": "random", "orbit": o}
    if rng.random() < 0.1:
        f = str(rng.choice(["true_anomaly", "altitude", "inclination"])) if k != "sso" else str(rng.choice(["true_anomaly", "altitude"]))
        case["reuse"] = [f, {"true_anomaly": 123.0, "altitude": o["altitude"] + 50e3, "inclination": 55.0}[f]]
    if rng.random() < 0.1:
        for f in ("inclination", "right_ascension_ascending_node", "true_anomaly", "perigee_argument"):
            if f in o and rng.random() < 0.5:
                o[f] = 0.0
                case["bound"] = True
        if "right_ascension_ascending_node" in o and rng.random() < 0.5:
            o["right_ascension_ascending_node"] = 359.9999999
            case["bound"] = True
    if k == "sso" and rng.random() < 0.1:
        o["equator_crossing_time"] = str(rng.choice(["00:00:00", "23:59:59.999999", "12:00:00"]))
    return case


def bad(rng, o):
    o = dict(o)
    f = str(rng.choice(sorted(set(o) - {"type", "tle", "epoch", "equator_crossing_ascending"})))
    vals = {"inclination": [-1e-6, -1, 180, 180.5, 360], "right_ascension_ascending_node": [-1e-6, -90, 360, 720.5], "true_anomaly": [-1e-6, -10, 360, 400],
            "perigee_argument": [-0.001, 360, 1e6], "eccentricity": [-1e-6, -0.5, 1.0, 1.2, 7], "orbital_period": [0, -1, -43080],
            "equator_crossing_time": ["25:00:00", "noon", "12:60"], "altitude": ["high", None] if o["type"] != "sso" else [-1, 12352000 - 6371008.7714 + 1, 6e6, "high"]}[f]
    if rng.random() < 0.1 and f in ("altitude", "equator_crossing_time"):
        o.pop(f)
        return o
    o[f] = vals[int(rng.integers(0, len(vals)))]
    return o


def fixed_cases():
    e = W.EPOCH.isoformat()
    out = [{"orbit": {"type": "sso", "altitude": 705e3, "equator_crossing_time": f"{h:02d}:30:00", "equator_crossing_ascending": a, "epoch": f"2024-{m:02d}-15T03:00:00+00:00"}}
           for h, a, m in ((10, False, 1), (13, True, 4), (6, True, 7), (22, False, 10), (0, True, 12))]
    out += [{"orbit": {"type": "molniya", "altitude": 600e3, "inclination": 63.4, "perigee_argument": 270, "true_anomaly": t, "epoch": e}} for t in (0.0, 90.0, 180.0)]
    out += [{"orbit": {"type": "tundra", "altitude": 600e3, "epoch": e, "true_anomaly": t}} for t in (0.0, 180.0, 270.0)]
    return out

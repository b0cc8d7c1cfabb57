"""C28: orbital kinematics helpers agree with Kepler and the rotating Earth."""
from datetime import datetime, timedelta, timezone

import numpy as np

from checks.c18 import mean_from_true, series_tol, true_from_mean, MU
from checks.c19 import _inv_tol
from vp import core, oracle as O, work as W

PROPERTY = "C28"
RULE = "a case counts when the anomaly conversions, rates and sample counts at one set of arguments (and, for some, the passes of a propagated circular orbit) were compared with the closed forms"
CASES = {"quick": 12000, "thorough": 400000}
REQUIRED_EVENTS = ["anomaly", "revolutions", "negative_angle", "prograde", "retrograde", "polar", "round_trip", "passes_bounded", "samples", "samples_coarse", "ground_speed_of_track"]
ASSUMPTIONS = ["mean-to-true conversion: truncation of a third-order eccentricity series; true-to-mean: fourth-order", "ground speed of a propagated track averaged over one revolution agrees to 2 %"]
DAY = 86164.0905


def install():
    pass


def turns(a):
    return np.floor((a + 180) / 360) * 360


def run(case, c):
    from tatc import utils as U
    d = {"case": {k: v for k, v in case.items() if k != "orbit"}}

    def near(name, got, want, tol):
        c.check(np.isfinite(got) and abs(got - want) <= tol, f"{name} is not the closed form", sig=name, got=got, want=want, **d)

    for ang, e in case["anomalies"]:
        k = np.floor(ang / 360)
        c.event("anomaly")
        if k > 0:
            c.event("revolutions")
        if ang < 0:
            c.event("negative_angle")
        base = ang - 360 * k
        m = mean_from_true(base if base <= 180 else base - 360, e) + (0 if base <= 180 else 360) + 360 * k
        near("mean anomaly", U.true_anomaly_to_mean_anomaly(ang, e), m, series_tol(e) + 1e-9 * abs(ang))
        v = true_from_mean(base if base <= 180 else base - 360, e) + (0 if base <= 180 else 360) + 360 * k
        it = _inv_tol(round(float(e) + 5e-4, 3)) + 1e-5
        near("true anomaly", U.mean_anomaly_to_true_anomaly(ang, e), v, it + 1e-9 * abs(ang))
        if e < 0.1:
            near("anomaly round trip", U.true_anomaly_to_mean_anomaly(U.mean_anomaly_to_true_anomaly(ang, e), e), ang, series_tol(e) + it + 1e-5)
            near("anomaly round trip (true)", U.mean_anomaly_to_true_anomaly(U.true_anomaly_to_mean_anomaly(ang, e), e), ang, (series_tol(e) + it) * (1 + 3 * e) + 1e-5)
        near("circular anomaly", U.true_anomaly_to_mean_anomaly(ang), ang, 1e-9 + 1e-12 * abs(ang))
        near("circular anomaly (true)", U.mean_anomaly_to_true_anomaly(ang), ang, 1e-9 + 1e-12 * abs(ang))
    h, inc = case["altitude"], case["inclination"]
    c.event("prograde" if inc < 89 else "retrograde" if inc > 91 else "polar")
    a = O.R_MEAN + h
    n = np.sqrt(MU / a ** 3)
    near("orbit period", U.compute_orbit_period(h), 2 * np.pi / n, 1e-6 * 2 * np.pi / n)
    gv = O.R_MEAN * (n - 2 * np.pi / DAY * np.cos(np.radians(inc)))
    near("ground velocity", U.compute_ground_velocity(h, inc), gv, 2e-5 * O.R_MEAN * n)
    x, t = case["distance"], case["time"]
    if abs(gv) > 50:
        near("access time", U.along_track_distance_to_access_time(h, inc, x), x / gv, 1e-4 * abs(x / gv) * (O.R_MEAN * n / abs(gv)))
        near("along-track distance", U.access_time_to_along_track_distance(h, inc, t), t * gv, 2e-5 * t * O.R_MEAN * n + 1e-6)
        near("time round trip", U.along_track_distance_to_access_time(h, inc, U.access_time_to_along_track_distance(h, inc, t)), t, 1e-9 * t + 1e-9)
        near("distance round trip", U.access_time_to_along_track_distance(h, inc, U.along_track_distance_to_access_time(h, inc, x)), x, 1e-9 * x + 1e-9)
        c.event("round_trip")
    el = case["min_elevation"]
    mt = U.compute_max_access_time(h, el)
    near("maximum access time", mt, (np.pi - 2 * np.radians(el)) / n, 1e-6 * np.pi / n)
    if h < 2000e3:
        lam = np.arccos(O.R_MEAN / a * np.cos(np.radians(el))) - np.radians(el)
        c.check(mt >= 2 * lam / (n - 2 * np.pi / DAY) - 1e-9, "the maximum access time is shorter than an overhead pass", sig="bound", mt=mt, **d)
    for dist in case["distances"]:
        th = dist / O.R_MEAN
        want = 2 / (1 - np.cos(th / 2))
        got = U.compute_number_samples(dist)
        c.event("samples" if want > 50 else "samples_coarse")
        c.check(int(got) == got and abs(got - int(want)) <= 1 + 2e-5 * want and (got == int(want) or abs(want - round(want)) < 1e-4 * want), "the number of samples is not the ratio of areas", sig="samples", got=got, want=want, dist=dist)
    c.state(int(np.log10(h) * 3), int(inc // 30), int(el // 15))
    if case.get("orbit"):
        passes(case, c)


def passes(case, c):
    """Passes and mean ground speed of a propagated circular orbit."""
    from tatc import utils as U
    o = W.build_orbit(case["orbit"])
    tle = o.to_tle().tle
    ep = datetime.fromisoformat(case["orbit"]["epoch"])
    h, inc = case["orbit"]["altitude"], case["orbit"]["inclination"]
    pl = case["place"]
    p0 = O.state_ecef(tle, O.ts_at(ep, 3000.0))[0]
    la, lo, _ = (float(np.ravel(q)[0]) for q in O.ecef_to_geodetic(p0))
    el = case["min_elevation"]
    mt = U.compute_max_access_time(h, el)
    for lat, lon in ((la, lo), (pl["latitude"], pl["longitude"])):
        for a, b, peak, cl, cr in O.visibility(lambda s: O.elevation_at(tle, ep, s, lat, lon, 0.0), 20000.0, el, 20.0):
            if not (cl or cr):
                c.check(b - a <= mt * 1.01 + 1, "a pass is longer than the maximum access time", sig="pass", got=b - a, max=mt, orbit=case["orbit"])
                c.event("passes_bounded")
    P = U.compute_orbit_period(h)
    s = np.linspace(0, P, 721)
    p, _ = O.state_ecef(tle, O.ts_at(ep, s))
    u = p / np.linalg.norm(p, axis=0)
    ang = np.arccos(np.clip((u[:, 1:] * u[:, :-1]).sum(axis=0), -1, 1)).sum()
    got, want = U.compute_ground_velocity(h, inc), O.R_MEAN * ang / P
    c.event("ground_speed_of_track")
    c.check(abs(got - want) < 0.02 * want, "the mean ground velocity is not that of a propagated track", sig="track-speed", got=got, want=want, orbit=case["orbit"])


def gen(rng, i):
    inc = W.r(rng.uniform(0, 180), 3) if rng.random() < 0.8 else float(rng.choice([0.0, 90.0, 180.0, 98.0]))
    an = []
    for _ in range(4):
        ang = rng.uniform(0, 360) if rng.random() < 0.6 else rng.uniform(-1500, 3000) if rng.random() < 0.7 else rng.choice([0.0, 180.0, 360.0, -180.0, 90.0, 359.999])
        e = rng.uniform(0, 0.05) if rng.random() < 0.6 else rng.uniform(0, 0.3)
        an.append([W.r(ang, 5), W.r(e, 5)])
    case = {"kind": "random", "anomalies": an, "altitude": W.r(10 ** rng.uniform(5.2, 7.6), 1), "inclination": inc, "distance": W.r(10 ** rng.uniform(0, 7), 3), "time": W.r(10 ** rng.uniform(-2, 4), 3),
            "min_elevation": W.r(rng.uniform(0, 89), 3) if rng.random() < 0.85 else float(rng.choice([0.0, 90.0])), "distances": [W.r(10 ** rng.uniform(3.5, 7.2), 1), W.r(10 ** rng.uniform(5, 6.5), 1)]}
    if i % 40 == 0:
        case["orbit"] = W.gen_orbit(rng, kinds=("circular",), alt=(350e3, 1500e3))
        case["min_elevation"] = W.r(rng.uniform(0, 60), 2)
        case["place"] = W.gen_place(rng)
    return case


def fixed_cases():
    return []


def warmup():
    from tatc import utils as U
    U.true_anomaly_to_mean_anomaly(10.0, 0.1); U.mean_anomaly_to_true_anomaly(10.0, 0.1); U.compute_orbit_period(5e5)
    U.compute_ground_velocity(5e5, 50.0); U.along_track_distance_to_access_time(5e5, 50.0, 1e5); U.access_time_to_along_track_distance(5e5, 50.0, 1e2)
    U.compute_max_access_time(5e5, 10.0); U.compute_number_samples(1e6)

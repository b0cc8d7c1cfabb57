"""C02: solar angles and sunlight requirements."""
from datetime import timedelta

import numpy as np
from shapely.geometry import box

from vp import core, oracle as O, work as W

PROPERTY = "C02"
RULE = "a case counts when solar columns or validity flags of at least one sample were compared with the Sun's position computed separately"
CASES = {"quick": 640, "thorough": 4000}
REQUIRED_EVENTS = ["call:collect_observations", "call:collect_orbit_track", "call:collect_ground_track",
                   "call:collect_ground_pixels", "call:is_valid_observation", "valid", "invalid", "eclipsed", "beta", "obs_solar", "masked_partly"]
ASSUMPTIONS = [
    "the ephemeris file is absent: an analytic Sun (vp/boot.py) is observed through skyfield by the code under test; the oracle uses the same Sun with its own geometry",
    "samples within 20 km of the shadow edge or 0.05 deg of sunrise are not judged",
]


def install():
    core.hook("tatc.schemas.instrument.Instrument.is_valid_observation", post_valid)
    core.hook("tatc.analysis.coverage.collect_observations", post_obs)
    core.hook("tatc.analysis.track.collect_orbit_track", post_orbit)
    core.hook("tatc.analysis.track.collect_ground_track", post_ground)
    core.hook("tatc.analysis.track.collect_ground_pixels", post_pixels)


def expect(inst, pos_eci, sun, alt):
    """True/False/None (too close) of the requirements for one sample."""
    res = True
    if inst.req_self_sunlit is not None:
        m = float(O.sunlit(pos_eci, sun))
        if abs(m) < 20e3:
            return None
        res = res and ((m > 0) == inst.req_self_sunlit)
    if inst.req_target_sunlit is not None:
        if abs(alt) < 0.05:
            return None
        res = res and ((alt > 0) == inst.req_target_sunlit)
    return res


def post_valid(c, a, res, exc, token):
    """direct monitor of the validity predicate, wherever it is called from"""
    if exc is not None:
        return
    inst, ot, target = a["self"], a["orbit_track"], a["target"]
    t = ot.t
    n = int(np.size(t))
    pos = np.asarray(ot.position.m, dtype=float).reshape(3, n)
    from skyfield.api import wgs84
    if target is None:
        from skyfield.framelib import itrs
        la, lo, _ = O.ecef_to_geodetic(np.asarray(ot.frame_xyz(itrs).m).reshape(3, n))
        h = np.zeros(n)
    else:
        la, lo, h = (np.broadcast_to(np.asarray(x, dtype=float).reshape(-1), (n,)) for x in
                     (target.latitude.degrees, target.longitude.degrees, target.elevation.m))
    sun = np.asarray(O.sun_eci(t)).reshape(3, n)
    alt = np.asarray(O.look_angles(np.asarray(O.to_itrs(O.sun_eci(t), t)).reshape(3, n), la, lo, h)[0])
    got = np.atleast_1d(res)
    c.check(len(got) == n, "validity has wrong length", sig="valid-len")
    for i in range(n):
        e = expect(inst, pos[:, i], sun[:, i], float(alt[i]))
        if e is None:
            continue
        c.event("valid" if e else "invalid")
        c.state("req", inst.req_self_sunlit, inst.req_target_sunlit, e)
        c.check(bool(got[i]) == e, "validity flag does not match the sunlight requirements", sig="valid",
                req=[inst.req_self_sunlit, inst.req_target_sunlit], solar_alt=float(alt[i]), expected=e, got=bool(got[i]))


def post_obs(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    c.check(("sat_sunlit" in gdf.columns) == (not a["omit_solar"]), "solar columns do not follow the option", sig="obs-cols")
    if a["omit_solar"]:
        return
    pt = a["point"]
    tle = a["satellite"].orbit.to_tle().tle
    for r in gdf.itertuples(index=False):
        t = O.ts_at(r.epoch.to_pydatetime(), 0.0)
        el, az = O.sun_altaz(pt.latitude, pt.longitude, pt.elevation, t)
        c.check(abs(r.solar_alt - float(el)) < 0.03, "solar altitude at the observed point is wrong", sig="obs-solar-alt", expected=float(el), got=r.solar_alt)
        if float(el) < 88:
            c.check(O.angdiff(r.solar_az, float(az)) * np.cos(np.radians(float(el))) < 0.03, "solar azimuth is wrong", sig="obs-solar-az", expected=float(az), got=r.solar_az)
        m = float(O.sunlit(O.state_eci(tle, t)[0], O.sun_eci(t)))
        if abs(m) > 20e3:
            c.check(bool(r.sat_sunlit) == (m > 0), "sunlit flag of the satellite is wrong", sig="obs-sunlit", margin=m)
            if m < 0:
                c.event("eclipsed")
        s = O.to_itrs(O.sun_eci(t), t)
        if abs(pt.latitude) < 89:
            lst = ((pt.longitude - np.degrees(np.arctan2(s[1], s[0]))) / 15 + 12) % 24
            c.check(min((r.solar_time - lst) % 24, (lst - r.solar_time) % 24) < 0.01 and -1e-9 <= r.solar_time <= 24 + 1e-9,
                    "local solar time is wrong", sig="solar-time", expected=lst, got=r.solar_time)
        c.event("obs_solar")


def _val(c, inst, tle, t, la, lo, h, got, what):
    pos = O.state_eci(tle, t)[0]
    el, az = O.sun_altaz(la, lo, h, t)
    e = expect(inst, pos, O.sun_eci(t), float(el))
    if e is not None:
        c.check(bool(got) == e, f"{what}: validity does not refer to the viewed target / requirement", sig="valid-" + what,
                expected=e, got=bool(got), solar_alt=float(el))
    return float(el), float(az)


def _altaz(c, r, el, az, what):
    c.check(abs(r.solar_alt - el) < 0.03, f"{what}: solar altitude is wrong", sig="solar-alt-" + what, expected=el, got=r.solar_alt)
    if el < 88:
        c.check(O.angdiff(r.solar_az, az) * np.cos(np.radians(el)) < 0.03, f"{what}: solar azimuth is wrong", sig="solar-az-" + what, expected=az, got=r.solar_az)


def post_orbit(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    inst = a["satellite"].instruments[a["instrument_index"]]
    tle = a["satellite"].orbit.to_tle().tle
    for k, on in (("sat_sunlit", a["sat_sunlit"]), ("solar_alt", a["solar_altaz"]), ("solar_az", a["solar_altaz"]), ("solar_beta", a["solar_beta"])):
        c.check((k in gdf.columns) == bool(on), f"column {k} does not follow the option", sig="orbit-cols")
    for r in gdf.itertuples(index=False):
        t = O.ts_at(r.time.to_pydatetime(), 0.0)
        pe, ve = O.state_eci(tle, t)
        p = O.state_ecef(tle, t)[0]
        la, lo, h = O.ecef_to_geodetic(p)
        _val(c, inst, tle, t, la, lo, 0.0, r.valid_obs, "orbit")
        sun = O.sun_eci(t)
        if a["solar_altaz"]:
            el, az = O.sun_altaz(la, lo, h, t)
            _altaz(c, r, float(el), float(az), "orbit")
        if a["sat_sunlit"]:
            m = float(O.sunlit(pe, sun))
            if abs(m) > 20e3:
                c.check(bool(r.sat_sunlit) == (m > 0), "orbit track sunlit flag is wrong", sig="orbit-sunlit", margin=m)
                if m < 0:
                    c.event("eclipsed")
        if a["solar_beta"]:
            nrm = np.cross(pe, ve)
            beta = np.degrees(np.arcsin(nrm @ sun / np.linalg.norm(nrm) / np.linalg.norm(sun)))
            c.check(abs(beta - r.solar_beta) < 0.03, "solar beta angle is wrong", sig="beta", expected=beta, got=r.solar_beta)
            c.event("beta")


def boresight(inst, tle, t, elev):
    p, v = O.state_ecef(tle, t)
    vu, n, b = O.vnb(p, v)
    ray = b + vu * np.tan(np.radians(getattr(inst, "pitch_angle", 0.0))) + n * np.tan(np.radians(getattr(inst, "roll_angle", 0.0)))
    g = O.ray_ellipsoid(p, ray, elev)
    return None if g is None else O.ecef_to_geodetic(g)


def post_ground(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    inst = a["satellite"].instruments[a["instrument_index"]]
    tle = a["satellite"].orbit.to_tle().tle
    c.check(("solar_alt" in gdf.columns) == bool(a["solar_altaz"]), "solar columns do not follow the option", sig="ground-cols")
    for r in gdf.itertuples(index=False):
        t = O.ts_at(r.time.to_pydatetime(), 0.0)
        g = boresight(inst, tle, t, a["elevation"])
        if g is None:
            c.event("boresight_off_earth")
            continue
        el, az = _val(c, inst, tle, t, g[0], g[1], a["elevation"], r.valid_obs, "ground")
        if a["solar_altaz"]:
            _altaz(c, r, el, az, "ground")


def post_pixels(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    inst = a["satellite"].instruments[a["instrument_index"]]
    tle = a["satellite"].orbit.to_tle().tle
    for r in gdf.itertuples(index=False):
        t = O.ts_at(r.time.to_pydatetime(), 0.0)
        el, az = _val(c, inst, tle, t, r.geometry.y, r.geometry.x, r.geometry.z, r.valid_obs, "pixel")
        if a["solar_altaz"]:
            _altaz(c, r, el, az, "pixel")


REQS = [(s, t) for s in (None, True, False) for t in (None, True, False)]


def fixed_cases():
    # grazing: full opposite hemisphere, all requirement combinations
    return []


def gen(rng, i):
    ins = W.gen_instrument(rng, pointed=True, solar=0.0)
    s, t = REQS[i % 9]
    ins["req_self_sunlit"], ins["req_target_sunlit"] = s, t
    ins["is_rectangular"] = True
    ins["cross_track_pixels"] = int(rng.integers(1, 3))
    ins["along_track_pixels"] = int(rng.integers(1, 3))
    # keep the view on the Earth for low orbits
    ins["roll_angle"] = W.r(rng.uniform(-25, 25), 2)
    ins["pitch_angle"] = W.r(rng.uniform(-25, 25), 2)
    ins["cross_track_field_of_view"] = W.r(rng.uniform(1, 20), 2)
    ins["along_track_field_of_view"] = W.r(rng.uniform(1, 20), 2)
    o = W.gen_orbit(rng, alt=(400e3, 2000e3))
    mask = None
    if rng.random() < 0.35:
        x, y = W.r(rng.uniform(-150, 120), 1), W.r(rng.uniform(-60, 40), 1)
        mask = [[-180, -90, 0, 90], [0, -90, 180, 90], [-180, 0, 180, 90], [-180, -90, 180, 0], [x, -90, x + 60, 90], [-180, y, 180, y + 50], [-90, -85, 90, 85]][int(rng.integers(7))]
    return {"orbit": o, "instr": ins, "mask": mask, "shuffle": int(rng.integers(1, 1000)) if rng.random() < 0.4 else 0, "place": W.gen_place(rng), "offset": int(rng.integers(0, 2 * 86400)),
            "n": int(rng.integers(1, 12)), "step": int(rng.integers(60, 900)),
            "elev": W.r(rng.uniform(0, 3000), 1) if rng.random() < 0.3 else 0.0,
            "omit": bool(rng.random() < 0.2), "flags": [bool(rng.random() < 0.7) for _ in range(3)]}


def warmup():
    pass


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_ground_pixels, collect_ground_track, collect_observations, collect_orbit_track
    from tatc.schemas import Point
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    wide = dict(case["instr"])
    for k in list(wide):
        if "track" in k or "angle" in k or k == "is_rectangular":
            wide.pop(k)
    wide["field_of_regard"] = 170.0
    s = W.build_satellite("S", case["orbit"], [wide, case["instr"]])
    start = (W.orbit_epoch(case["orbit"]) + timedelta(seconds=case["offset"])).replace(microsecond=0)
    times = [start + timedelta(seconds=k * case["step"]) for k in range(case["n"])]
    f = case["flags"]
    if case.get("mask"):
        # samples outside a mask are dropped; the flags of the others stay with their samples
        m = box(*case["mask"])
        if case.get("shuffle"):
            times = [times[k] for k in np.random.default_rng(case["shuffle"]).permutation(len(times))]
        for g in (collect_orbit_track(s, times, 0, case["elev"], mask=m, sat_sunlit=f[0], solar_altaz=f[1], solar_beta=f[2]),
                  collect_ground_track(s, times, 1, case["elev"], mask=m, crs="spice" if f[0] else "EPSG:4087", solar_altaz=f[1]),
                  collect_ground_pixels(s, times[:4], 1, case["elev"], mask=m, solar_altaz=f[2])):
            if 0 < len(set(g.time)) < len(times):
                c.event("masked_partly")
        return
    collect_orbit_track(s, times, 0, case["elev"], sat_sunlit=f[0], solar_altaz=f[1], solar_beta=f[2])
    collect_ground_track(s, times, 1, case["elev"], crs="spice" if f[0] else "EPSG:4087", solar_altaz=f[1])
    collect_ground_pixels(s, times[:4], 1, case["elev"], solar_altaz=f[2])
    pt = Point(id=3, **case["place"])
    g = collect_observations(pt, s, start, start + timedelta(hours=8), 0, omit_solar=case["omit"])
    if not case["omit"]:
        with core.suspend():
            h = collect_observations(pt, s, start, start + timedelta(hours=8), 0, omit_solar=True)
        c.check(len(g) == len(h) and all(g[k].tolist() == h[k].tolist() for k in h.columns), "solar option changes other columns", sig="omit-solar")

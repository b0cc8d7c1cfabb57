"""C01: observations are exactly the periods of visibility."""
from datetime import timedelta

import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C01"
RULE = "a case counts as distinct and non-trivial when the visibility monitor compared at least one collected observation table with the independently computed visibility history of that point/satellite/period"
CASES = {"quick": 500, "thorough": 6000}
REQUIRED_EVENTS = ["call:collect_observations", "pass_matched", "pass_clipped_start", "pass_clipped_end", "constant_visible", "exactly_min_access", "empty_result", "pointed", "fixed_access", "short_pass_filtered", "pointed_high_ground", "long_pass", "sliver"]
ASSUMPTIONS = [
    "SGP4 propagation and Earth orientation by skyfield are correct",
    "near-circular orbits (e <= 0.02), altitude up to 30000 km or geostationary; skyfield's pass search is only meant for these",
    "above 15000 km, cases are not judged where the satellite both sets and rises within half the time between two culminations: skyfield's search samples only the instant half-way; nor where culminations follow within three steps of that search",
    "passes peaking within 0.1 deg of the threshold, or gaps shallower than that, may be reported or not",
]
TOL_S = 1.0
EDGE = 0.1  # deg


def install():
    core.hook("tatc.analysis.coverage.collect_observations", post)


def post(c, a, result, exc, token):
    if exc is not None:
        return
    check_observations(c, a["point"], a["satellite"], a["start"], a["end"], a["instrument_index"], a["omit_solar"], result)


def sun_ok(inst, tle, t, lat, lon, h):
    """(verdict or None when too close to call) of the sunlight requirements."""
    ts = O.ts_at(t, 0.0)
    res = True
    if inst.req_self_sunlit is not None:
        m = float(O.sunlit(O.state_eci(tle, ts)[0], O.sun_eci(ts)))
        if abs(m) < 20e3:
            return None
        res = res and ((m > 0) == inst.req_self_sunlit)
    if inst.req_target_sunlit is not None:
        el, _ = O.sun_altaz(lat, lon, h, ts)
        if abs(float(el)) < 0.05:
            return None
        res = res and ((float(el) > 0) == inst.req_target_sunlit)
    return res


def in_view(inst, tle, t, pt):
    """Is the point inside the pointed instrument's instantaneous view?
    Returns True/False, or None when too close to the edge to call."""
    p, v = O.state_ecef(tle, O.ts_at(t, 0.0))
    vu, n, b = O.vnb(p, v)
    g = O.geodetic_to_ecef(pt.latitude, pt.longitude, pt.elevation)
    d = g - p
    el = float(O.look_angles(p, pt.latitude, pt.longitude, pt.elevation)[0])
    if el < 3:
        return None if el > -3 else False
    # views reaching over the limb are approximated by limb points: not judged
    tc = np.tan(np.radians(inst.cross_track_field_of_view / 2))
    ta = np.tan(np.radians(inst.along_track_field_of_view / 2))
    k = np.sqrt(2) if inst.is_rectangular else 1.0
    base = b + vu * np.tan(np.radians(inst.pitch_angle)) + n * np.tan(np.radians(inst.roll_angle))
    edge = []
    for w in np.linspace(0, 2 * np.pi, 24, endpoint=False):
        ray = base + k * (vu * np.sin(w) * ta + n * np.cos(w) * tc)
        if O.ray_miss(p, ray, -100e3)[0] < 0:
            return None
        edge.append(O.ecef_to_geodetic(O.ray_ellipsoid(p, ray))[:2])
    # the footprint is a polygon of few vertices in longitude and latitude: its
    # straight sides are far from the true edge for wide views at high latitude
    elat, elon = np.array(edge, dtype=float).T
    span = np.ptp(np.unwrap(np.radians(np.append(elon, elon[0])))) * 180 / np.pi
    if span > 15 and (np.max(np.abs(elat)) > 65 or max(tc / ta, ta / tc) > 3):
        return None
    # coefficients in the axes of the pointing (velocity and nadir are not
    # exactly perpendicular on an eccentric orbit)
    db, dv, dn = np.linalg.solve(np.column_stack([b, vu, n]), d)
    if db <= 0:
        return False
    y = dv / db - np.tan(np.radians(inst.pitch_angle))
    x = dn / db - np.tan(np.radians(inst.roll_angle))
    q = max(abs(x) / tc, abs(y) / ta) if inst.is_rectangular else np.hypot(x / tc, y / ta)
    if q < 0.9:
        return True
    if q > 1.1:
        return False
    return None


def searchable(fn, dur, thr, orbit_s):
    """skyfield looks for a set and a rise between two culminations only on
    either side of the instant half-way, and for culminations by sampling every
    twentieth of an orbit: can that see every change here?"""
    t = np.linspace(0, dur, max(3, int(dur / 30)))
    m = fn(t) - thr
    top = t[1:-1][(m[1:-1] > m[:-2]) & (m[1:-1] >= m[2:]) & (m[1:-1] >= 0)]
    bend = t[1:-1][(m[1:-1] - m[:-2]) * (m[2:] - m[1:-1]) <= 0]
    if np.any(np.diff(bend[bend > 0]) < 3 * 0.05 * orbit_s):
        return False
    knots = np.concatenate([[0.0], top, [dur]])
    knots = np.sort(np.concatenate([knots, (knots[:-1] + knots[1:]) / 2]))
    at = np.searchsorted(knots, (t[:-1] + t[1:])[np.diff(m >= 0)] / 2)
    return len(set(at.tolist())) == len(at)


def check_observations(c, point, satellite, start, end, index, omit_solar, gdf):
    from tatc.schemas import PointedInstrument
    inst = satellite.instruments[index]
    tles = satellite.orbit.to_tle()
    if len(tles.tle) != 2:
        return
    tle = tles.tle
    dur = (end - start).total_seconds()
    lat, lon, h = point.latitude, point.longitude, point.elevation
    p0, _ = O.state_ecef(tle, O.ts_at(start, 0.0))
    alt0 = float(O.ecef_to_geodetic(p0)[2])
    thr = O.min_elevation(alt0, inst.field_of_regard)
    mm = float(tle[1][52:63])
    fn = lambda s: O.elevation_at(tle, start, s, lat, lon, h)
    step = min(20.0, 86400 / mm / 300)
    if alt0 > 15000e3 and not searchable(fn, dur, thr, 86400 / mm):
        c.event("beyond_pass_search")
        return
    vis = O.visibility(fn, dur, thr, step)
    # optional merges/splits across shallow gaps are ambiguous
    rows = [((r.start - start).total_seconds(), (r.end - start).total_seconds(), (r.epoch - start).total_seconds(), r)
            for r in gdf.itertuples(index=False)]
    c.check(list(gdf.columns[:7]) is not None and set(["point_id", "geometry", "satellite", "instrument", "start", "epoch", "end", "sat_alt", "sat_az"]) <= set(gdf.columns),
            "missing result columns", sig="columns", columns=list(map(str, gdf.columns)))
    if len(rows) == 0:
        c.event("empty_result")
    c.state("n_rows", len(rows), "n_vis", len(vis))
    used = [False] * len(rows)
    mat = inst.min_access_time.total_seconds()
    pointed = isinstance(inst, PointedInstrument)
    ambiguous_zone = []
    # gaps between consecutive oracle passes too shallow to call
    for (x, y) in zip(vis[:-1], vis[1:]):
        if O.gap_margin(fn, x[1], y[0], thr) < EDGE:
            ambiguous_zone.append((x[0] - 5, y[1] + 5))
    for (a, b, peak, cl, cr) in vis:
        if any(z[0] <= a and b <= z[1] for z in ambiguous_zone):
            continue
        mid = (a + b) / 2
        # find the row for this pass
        cand = [i for i, (ra, rb, re, r) in enumerate(rows) if a - 5 <= re <= b + 5]
        edge = peak < EDGE or (b - a) < (2.5 if cl or cr else 5)
        expect = True
        why = ""
        if cl and cr and mat > 0 and peak >= EDGE:
            # the pass is the whole period: its length is known exactly
            if dur < mat:
                expect, why = False, "shorter than the minimum access time"
            elif dur == mat:
                c.event("exactly_min_access")
        elif abs(b - a - mat) < 2 * TOL_S + 1:
            expect = None if not (mat == 0) else True
        elif b - a < mat:
            expect, why = False, "shorter than the minimum access time"
            c.event("short_pass_filtered")
        if expect is not False:
            so = sun_ok(inst, tle, start + timedelta(seconds=mid), lat, lon, h)
            if so is None:
                expect = None
            elif not so:
                expect, why = False, "sunlight requirement not met"
                c.event("sun_filtered")
        if pointed and expect is not False:
            iv = in_view(inst, tle, start + timedelta(seconds=mid), point)
            if iv is None:
                expect = None
            elif not iv:
                expect, why = False, "outside the pointed view at mid-pass"
                c.event("view_filtered")
        if edge and expect:
            expect = None
        if expect is None:
            for i in cand:
                used[i] = True
            c.event("ambiguous_pass")
            continue
        if expect is False:
            c.check(len(cand) == 0, f"observation reported for a pass that must be dropped: {why}",
                    sig="not-dropped:" + why.split()[0], pass_s=[a, b], rows=[rows[i][:3] for i in cand])
            for i in cand:
                used[i] = True
            continue
        if not c.check(len(cand) == 1, f"pass of {b - a:.0f} s peaking {peak:.2f} deg above the threshold has {len(cand)} observations (expected 1)",
                       sig="missed" if not cand else "duplicated", pass_s=[a, b], threshold=thr, rows=[x[:3] for x in rows]):
            for i in cand:
                used[i] = True
            continue
        i = cand[0]
        used[i] = True
        ra, rb, re, r = rows[i]
        c.event("pass_matched")
        if cl:
            c.event("pass_clipped_start")
        if cr:
            c.event("pass_clipped_end")
        if cl and cr:
            c.event("constant_visible")
        elif (cl or cr) and b - a < 10:
            c.event("sliver")
        if not cl and not cr and (b - a) * mm / 86400 > 0.9 * (1 - 2 * thr / 180):
            c.event("long_pass")  # nearly keeps up with the rotating ground
        if pointed:
            c.event("pointed")
            if point.elevation > 2500 and inst.cross_track_field_of_view < 4:
                c.event("pointed_high_ground")
        if inst.access_time_fixed:
            c.event("fixed_access")
            ea, eb = mid - mat / 2, mid + mat / 2
        else:
            ea, eb = a, b
        # grazing passes: threshold crossing time is ill-conditioned
        slack = TOL_S + (3.0 if peak < 1.0 else 0.0)
        c.check(abs(ra - ea) < slack and abs(rb - eb) < slack, "observation start/end differ from the visibility period",
                sig="bounds", expected=[ea, eb], got=[ra, rb], peak=peak)
        c.check(abs(re - (a + b) / 2) < slack, "epoch is not the middle of the pass", sig="epoch", expected=mid, got=re)
        el, az, _ = O.look_angles(O.state_ecef(tle, O.ts_at(start, re))[0], lat, lon, h)
        c.check(abs(float(el) - r.sat_alt) < 0.02, "satellite elevation at epoch is wrong", sig="sat_alt", expected=float(el), got=r.sat_alt)
        if float(el) < 89.5:
            c.check(O.angdiff(float(az), r.sat_az) * np.cos(np.radians(float(el))) < 0.02, "satellite azimuth at epoch is wrong", sig="sat_az", expected=float(az), got=r.sat_az)
        c.check(r.point_id == point.id and r.satellite == satellite.name and r.instrument == inst.name
                and (r.geometry.x, r.geometry.y) == (lon, lat) and r.geometry.z == h,
                "row identity differs from the inputs", sig="identity", row=str(r))
    # rows inside passes too marginal to call, or in ambiguous zones
    for i, (ra, rb, re, r) in enumerate(rows):
        if used[i] or any(z[0] <= re <= z[1] for z in ambiguous_zone):
            continue
        # not matched: must be a marginal (unsampled) pass
        m = float(np.max(fn(np.linspace(max(0, ra), min(dur, rb), 200)) - thr))
        c.check(-0.02 < m < EDGE and rb - ra < 120 and not inst.access_time_fixed, "observation where the satellite is not in view",
                sig="invented", row=[ra, rb, re], margin=m)
    s = [x[0] for x in rows]
    c.check(all(x <= y for x, y in zip(s[:-1], s[1:])), "observations are not chronological", sig="order", starts=s)
    c.check(len(gdf) == 0 or list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")


def fixed_cases():
    out = []
    # geostationary: permanently visible / never visible
    for lon in (10.0, 60.0, 170.0):
        out.append({"orbit": {"type": "circular", "altitude": 35793200.0, "inclination": 0.0, "epoch": W.EPOCH.isoformat(),
                              "true_anomaly": 0.0, "right_ascension_ascending_node": 340.0},
                    "place": {"latitude": 5.0, "longitude": lon - 180 if lon == 170.0 else lon, "elevation": 0.0},
                    "instr": {"name": "I", "field_of_regard": 180.0}, "offset": 0, "duration": 7200, "align": "none"})
    # whole period inside one pass
    for f in (100.0, 180.0, 360.0):
        out.append({"orbit": {"type": "circular", "altitude": 1200e3, "inclination": 60.0, "epoch": W.EPOCH.isoformat(),
                              "true_anomaly": 10.0, "right_ascension_ascending_node": 20.0},
                    "place": {"latitude": 30.0, "longitude": 40.0, "elevation": 0.0},
                    "instr": {"name": "I", "field_of_regard": f}, "offset": 0, "duration": 86400, "align": "inside", "exact": int(f == 180.0)})
    # passes lasting most of a day, and periods that barely touch a pass
    for a, f, d in ((23222e3, 360.0, 6), (25000e3, 180.0, 5), (30000e3, 180.0, 8)):
        out.append({"orbit": {"type": "circular", "altitude": a, "inclination": 20.0, "epoch": W.EPOCH.isoformat(),
                              "true_anomaly": 10.0, "right_ascension_ascending_node": 20.0},
                    "place": {"latitude": 10.0, "longitude": 40.0, "elevation": 0.0},
                    "instr": {"name": "I", "field_of_regard": f}, "offset": 0, "duration": d * 86400, "align": "none"})
    for k in range(4):
        out.append({"orbit": {"type": "circular", "altitude": 600e3, "inclination": 60.0, "epoch": W.EPOCH.isoformat(),
                              "true_anomaly": 10.0, "right_ascension_ascending_node": 20.0},
                    "place": {"latitude": 30.0, "longitude": 40.0, "elevation": 0.0}, "u": [0.5, 0.2],
                    "instr": {"name": "I", "field_of_regard": (90.0, 180.0)[k // 2]}, "offset": 0, "duration": 86400, "align": ("end_just", "start_just")[k % 2]})
    return out


def gen(rng, i):
    pointed = rng.random() < 0.35
    o = W.gen_orbit(rng)
    ins = W.gen_instrument(rng, pointed=pointed)
    if pointed and rng.random() < 0.5:
        # narrow view steered to the side
        ins["cross_track_field_of_view"] = W.r(rng.uniform(1, 6), 2)
        ins["pitch_angle"] = 0.0
    u = rng.random()
    if u < 0.25:
        ins["min_access_s"] = float(rng.choice([30, 60, 120, 240, 400]))
        if rng.random() < 0.5:
            ins["access_time_fixed"] = True
    place = W.gen_place(rng)
    steer = {}
    if pointed and rng.random() < 0.7:
        steer = {"align": "over", "xy": W.r(rng.uniform(-1.3, 1.3), 3)}
        if rng.random() < 0.6:
            # high ground close to the near or far edge of a narrow oblique view
            place["elevation"] = W.r(rng.uniform(3000, 8800), 1)
            steer["xy"] = W.r(float(rng.choice([-1, 1])) * (rng.uniform(0.7, 0.88) if rng.random() < 0.6 else rng.uniform(1.12, 1.3)), 3)
            ins.update(pitch_angle=0.0, roll_angle=W.r(float(rng.choice([-1, 1])) * rng.uniform(15, 40), 2), cross_track_field_of_view=W.r(rng.uniform(0.6, 3), 2),
                       along_track_field_of_view=W.r(rng.uniform(1, 6), 2), field_of_regard=90.0, req_self_sunlit=None, req_target_sunlit=None)
            ins.pop("min_access_s", None)
            ins.pop("access_time_fixed", None)
    if not pointed and rng.random() < 0.12:
        # passes of many hours over ground that nearly keeps up with the satellite
        a = float(rng.uniform(18000e3, 30000e3)) if rng.random() < 0.5 else float(rng.choice([20200e3, 21528e3, 23222e3, 25000e3, 30000e3]))
        o = {"type": "circular", "altitude": W.r(a, 1), "inclination": W.r(rng.uniform(0, 70), 3), "epoch": W.EPOCH.isoformat(),
             "true_anomaly": W.r(rng.uniform(0, 360), 3), "right_ascension_ascending_node": W.r(rng.uniform(0, 360), 3)}
        ins = {"name": "I", "field_of_regard": float(rng.choice([30.0, 60.0, 180.0, 360.0]))}
        place["latitude"] = W.r(rng.uniform(-60, 60), 3)
        return {"orbit": o, "place": place, "instr": ins, "offset": int(rng.integers(-86400, 86400)), "duration": int(rng.integers(86400, 6 * 86400)),
                "align": str(rng.choice(["none", "none", "start_in", "end_in"])), "u": [W.r(rng.random()), W.r(rng.random())]}
    return {"orbit": o, "place": place, "instr": ins, "offset": int(rng.integers(-3 * 86400, 3 * 86400)),
            "duration": int(rng.integers(1800, 86400)) if rng.random() < 0.8 else int(rng.integers(86400, 3 * 86400)),
            "align": str(rng.choice(["none", "none", "start_in", "end_in", "inside", "over", "end_just", "start_just"])),
            "u": [W.r(rng.random()), W.r(rng.random())],
            "repeat": bool(rng.random() < 0.1), "tz": int(rng.integers(-11, 12)) if rng.random() < 0.2 else 0, "exact": int(rng.choice([0, 0, 1, 2])), **steer}


def warmup():
    run(fixed_cases()[3], core.Ctx())


def place_for(case, tle, start, dur, thr_place):
    return case["place"]


def run(case, c):
    from datetime import timezone
    from tatc import config
    from tatc.analysis import collect_observations
    from tatc.schemas import Point
    rep = bool(case.get("repeat"))
    config.rc.repeat_cycle_for_orbit_track = rep
    config.rc.repeat_cycle_for_observation_events = rep
    try:
        s = W.build_satellite("Sat A", case["orbit"], [{"name": "other", "field_of_regard": 1.0}, case["instr"]])
        tle = None
        with core.suspend():
            t = s.orbit.to_tle()
            tle = t.tle
            if rep and t.get_repeat_cycle() is not None:
                c.event("repeat_orbit_skipped")
                config.rc.repeat_cycle_for_orbit_track = False
                config.rc.repeat_cycle_for_observation_events = False
        start = (W.orbit_epoch(case["orbit"]) + timedelta(seconds=case["offset"])).replace(microsecond=0)
        dur = float(case["duration"])
        pl = case["place"]
        if case["align"] != "none":
            # steer the period relative to an actual pass
            if "cross_track_field_of_view" in case["instr"] or case["align"] == "over":
                # point under the (pointed) view at some time
                k = case["u"][0] * dur
                p, v = O.state_ecef(tle, O.ts_at(start, k))
                vu, n, b = O.vnb(p, v)
                tp, tr = (np.tan(np.radians(case["instr"].get(x, 0))) for x in ("pitch_angle", "roll_angle"))
                h = 0.0
                if "xy" in case and "roll_angle" in case["instr"]:
                    # abeam (where the pass peaks) and some way from the centre of the view
                    h = pl["elevation"]
                    tr += case["xy"] * np.tan(np.radians(case["instr"]["cross_track_field_of_view"] / 2))
                    ta = np.tan(np.radians(case["instr"]["along_track_field_of_view"] / 2))
                    tp = tp + float(np.clip(-tp / ta, -0.8, 0.8)) * ta
                g = O.ray_ellipsoid(p, b + vu * tp + n * tr, h)
                if g is not None:
                    la, lo, _ = O.ecef_to_geodetic(g)
                    pl = {"latitude": W.r(la, 4), "longitude": W.r(lo, 4), "elevation": h}
            p0, _ = O.state_ecef(tle, O.ts_at(start, 0.0))
            thr = O.min_elevation(float(O.ecef_to_geodetic(p0)[2]), case["instr"]["field_of_regard"])
            fn = lambda x: O.elevation_at(tle, start, x, pl["latitude"], pl["longitude"], pl["elevation"])
            vis = [v for v in O.visibility(fn, dur, thr, 20.0) if v[1] - v[0] > 20]
            if vis:
                v = vis[int(case.get("u", [0.5])[0] * len(vis)) % len(vis)]
                L = v[1] - v[0]
                if case["align"] == "start_in":
                    sh = v[0] + L * (0.1 + 0.8 * case["u"][1])
                    start, dur = start + timedelta(seconds=round(sh)), dur - round(sh)
                elif case["align"] == "end_in":
                    dur = float(round(v[0] + L * (0.1 + 0.8 * case["u"][1])))
                elif case["align"] == "end_just" and not v[3]:
                    dur = v[0] + 3 + 5 * case["u"][1]
                elif case["align"] == "start_just" and not v[4]:
                    sh = v[1] - 3 - 5 * case["u"][1]
                    start, dur = start + timedelta(seconds=sh), dur - sh
                elif case["align"] == "inside":
                    start, dur = start + timedelta(seconds=round(v[0] + 0.2 * L)), float(round(0.5 * L))
                dur = max(dur, 5.0)
            if case.get("exact") and case["align"] == "inside":
                ins = dict(case["instr"], min_access_s=dur + (case["exact"] - 1) * 0.5)
                s = W.build_satellite("Sat A", case["orbit"], [{"name": "other", "field_of_regard": 1.0}, ins])
        end = start + timedelta(seconds=dur)
        if case.get("tz"):
            z = timezone(timedelta(hours=case["tz"]))
            start, end = start.astimezone(z), end.astimezone(z)
        pt = Point(id=int(case.get("offset", 0) % 1000), **pl)
        collect_observations(pt, s, start, end, instrument_index=1)
    finally:
        config.rc.repeat_cycle_for_orbit_track = True
        config.rc.repeat_cycle_for_observation_events = True

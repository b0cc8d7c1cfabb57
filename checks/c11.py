"""C11: ground pixels lie on the detector grid of the pointed instrument."""
from datetime import timedelta

import geopandas as gpd
import numpy as np
import shapely
from shapely.ops import unary_union

from vp import core, geom as G, oracle as O, work as W
from checks.c09 import make_mask

PROPERTY = "C11"
RULE = "a case counts when every pixel of at least one sample was compared with the ray through its place on the detector grid, or a masked result with the unmasked one, or an unsupported instrument was rejected"
CASES = {"quick": 2500, "thorough": 20000}
REQUIRED_EVENTS = ["call:collect_ground_pixels", "pixel", "overlap", "odd_grid", "even_grid", "non_square", "rolled", "pitched", "altaz", "solar_altaz", "masked_kept", "masked_dropped", "masked_empty", "masked_wide", "rejected", "mask_eccentric", "mask_tall", "single_time", "elevated", "one_pixel"]
ASSUMPTIONS = ["pixels whose ray passes the Earth or grazes it are placed on the limb and judged by C12",
               "masked results are judged for pixels well inside or outside the mask edge and fields of view up to 25 deg with a field of regard covering the pointed view"]


def install():
    core.hook("tatc.analysis.track.collect_ground_pixels", post)


def rays(inst, p, v):
    """expected ground position of every pixel (cross outer, along inner), None off Earth"""
    vu, n, b = O.vnb(p, v)
    out = []
    cw = inst.cross_track_field_of_view / inst.cross_track_pixels * (1 - inst.cross_track_oversampling)
    aw = inst.along_track_field_of_view / inst.along_track_pixels * (1 - inst.along_track_oversampling)
    bore = b + vu * np.tan(np.radians(inst.pitch_angle)) + n * np.tan(np.radians(inst.roll_angle))
    for i in range(inst.cross_track_pixels):
        x = (i - (inst.cross_track_pixels - 1) / 2) * cw
        for j in range(inst.along_track_pixels):
            y = ((inst.along_track_pixels - 1) / 2 - j) * aw
            cone, clock = np.hypot(x, y), np.arctan2(y, x)
            out.append(bore + (vu * np.sin(clock) + n * np.cos(clock)) * np.tan(np.radians(cone)))
    return out


def post(c, a, gdf, exc, token):
    sat = a["satellite"]
    inst = sat.instruments[a["instrument_index"]]
    good = hasattr(inst, "is_rectangular") and inst.is_rectangular
    times = list(a["times"])
    if not good:
        if times:
            c.event("rejected")
            c.check(isinstance(exc, ValueError), "unsupported instrument is not rejected", sig="reject", got=repr(exc))
        return
    if exc is not None:
        return
    if not times:
        c.event("no_times")
        c.check(len(gdf) == 0, "rows without times", sig="no-times")
        return
    if a["mask"] is not None:
        check_mask(c, a, gdf, times)
        return
    tle = sat.orbit.to_tle().tle
    nx, ny = inst.cross_track_pixels, inst.along_track_pixels
    k = nx * ny
    c.event("odd_grid" if nx % 2 and ny % 2 else "even_grid")
    if nx != ny:
        c.event("non_square")
    if k == 1:
        c.event("one_pixel")
    if inst.cross_track_oversampling or inst.along_track_oversampling:
        c.event("overlap")
    if inst.roll_angle:
        c.event("rolled")
    if inst.pitch_angle:
        c.event("pitched")
    if len(times) == 1:
        c.event("single_time")
    if a["elevation"]:
        c.event("elevated")
    c.state(nx, ny, bool(inst.roll_angle), bool(inst.pitch_angle), inst.cross_track_oversampling > 0, inst.along_track_oversampling > 0)
    if not c.check(len(gdf) == k * len(times), "not one row per pixel and time", sig="count", got=len(gdf), expected=k * len(times)):
        return
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")
    c.check(("sat_alt" in gdf.columns) == bool(a["sat_altaz"]) and ("solar_alt" in gdf.columns) == bool(a["solar_altaz"]), "angle columns do not follow the options", sig="cols")
    rows = list(gdf.itertuples(index=False))
    for m, t in enumerate(times):
        ts = O.ts_at(t, 0.0)
        p, v = O.state_ecef(tle, ts)
        hgt = float(O.ecef_to_geodetic(p)[2])
        for q, d in enumerate(rays(inst, p, v)):
            r = rows[m * k + q]
            c.check(abs((r.time - t).total_seconds()) < 2e-3 and r.satellite == sat.name and r.instrument == inst.name, "time or names of a pixel", sig="meta", got=str(r.time), expected=str(t))
            g = O.ray_ellipsoid(p, d, a["elevation"])
            if g is None or O.ray_miss(p, d, a["elevation"] - 20e3)[0] < 0:
                c.event("off_earth")
                continue
            la, lo, _ = (float(x) for x in O.ecef_to_geodetic(g))
            c.event("pixel")
            got = np.array(O.geodetic_to_ecef(r.geometry.y, r.geometry.x, r.geometry.z))
            dist = np.linalg.norm(got - g)
            rng_ = np.linalg.norm(g - p)
            if not c.check(dist < 5.0 + 3e-5 * rng_, "pixel is not where its ray meets the ground", sig="position", time=str(t), pixel=[q // ny, q % ny], got=[r.geometry.x, r.geometry.y, r.geometry.z], expected=[lo, la, a["elevation"]], error_m=dist, range_m=rng_):
                return
            if a["sat_altaz"]:
                c.event("altaz")
                el, az, _ = (float(x) for x in O.look_angles(p, la, lo, a["elevation"]))
                ok = abs(el - r.sat_alt) < 0.02 and O.angdiff(az, r.sat_az) * np.cos(np.radians(el)) < 0.02
                if not c.check(ok, "viewing angles do not belong to the pixel", sig="sat-altaz", got=[r.sat_alt, r.sat_az], expected=[el, az]):
                    return
            if a["solar_altaz"]:
                c.event("solar_altaz")
                el, az = (float(x) for x in O.sun_altaz(la, lo, a["elevation"], ts))
                ok = abs(el - r.solar_alt) < 0.05 and O.angdiff(az, r.solar_az) * np.cos(np.radians(el)) < 0.05
                if not c.check(ok, "solar angles do not belong to the pixel", sig="solar-altaz", got=[r.solar_alt, r.solar_az], expected=[el, az]):
                    return


def key(r):
    return (round(r.time.timestamp(), 2), round(r.geometry.x, 6), round(r.geometry.y, 6))


def check_mask(c, a, gdf, times):
    from tatc.analysis import collect_ground_pixels
    m = unary_union(list(a["mask"].geometry)) if isinstance(a["mask"], (gpd.GeoDataFrame, gpd.GeoSeries)) else a["mask"]
    full = collect_ground_pixels(a["satellite"], times, a["instrument_index"], a["elevation"], None, a["sat_altaz"], a["solar_altaz"])
    inst = a["satellite"].instruments[a["instrument_index"]]
    tle = a["satellite"].orbit.to_tle().tle
    over = set()
    for t in times:
        p, v = O.state_ecef(tle, O.ts_at(t, 0.0))
        w = G.View(p, v, inst.roll_angle, inst.pitch_angle, inst.cross_track_field_of_view, inst.along_track_field_of_view, True, a["elevation"])
        if not w.clear_of_limb():
            over.add(round(t.timestamp(), 1))
    left = {}
    for r in gdf.itertuples(index=False):
        left[key(r)] = left.get(key(r), 0) + 1
    shapely.prepare(m)
    edge = m.boundary
    shapely.prepare(edge)
    n = 0
    for r in full.itertuples(index=False):
        if round(r.time.timestamp(), 1) in over:
            left.pop(key(r), None)
            continue
        pt = shapely.Point(r.geometry.x, r.geometry.y)
        if shapely.dwithin(pt, edge, 1e-5):
            left.pop(key(r), None)
            continue
        k = key(r)
        if m.contains(pt):
            n += 1
            c.event("masked_kept")
            if not c.check(left.get(k, 0) >= 1, "pixel inside the mask is lost", sig="mask-lost", time=str(r.time), at=[pt.x, pt.y], mask=list(m.bounds)):
                return
            left[k] -= 1
        else:
            c.event("masked_dropped")
    seen = [key(r) for r in gdf.itertuples(index=False)]
    at = {}
    for i, r in enumerate(full.itertuples(index=False)):
        at.setdefault(key(r), i)
    pos = [at[k] for k in seen if k in at]
    c.check(len(at) < len(full) or pos == sorted(pos), "masked pixels are not in the order of times and pixels", sig="mask-order")
    rest = [k for k, q in left.items() if q > 0]
    c.check(not rest, "pixel outside the mask (or duplicated)", sig="mask-extra", extra=rest[:3])
    if m.bounds[2] - m.bounds[0] > 180 and n:
        c.event("masked_wide")
    if not len(gdf):
        c.event("masked_empty")


def fixed_cases():
    pol = {"type": "circular", "altitude": 7e5, "inclination": 98.0, "epoch": W.EPOCH.isoformat(), "true_anomaly": 0.0, "right_ascension_ascending_node": 0.0}
    base = {"name": "P", "field_of_regard": 100.0, "cross_track_field_of_view": 20.0, "along_track_field_of_view": 6.0, "is_rectangular": True, "cross_track_pixels": 5, "along_track_pixels": 2}
    out = []
    for up in ({}, {"roll_angle": 20.0}, {"pitch_angle": -15.0}, {"roll_angle": -12.0, "pitch_angle": 10.0, "cross_track_oversampling": 0.3}, {"along_track_oversampling": 0.5, "along_track_pixels": 4}):
        for n in (1, 3):
            out.append({"orbit": pol, "offsets": [100.0 + 240 * k for k in range(n)], "elev": 0.0, "instr": {**base, **up}, "mask": None, "altaz": True, "solar": True, "seed": 1})
    for ins in ({"name": "N", "field_of_regard": 40.0}, {**base, "is_rectangular": False}):
        out.append({"orbit": pol, "offsets": [0.0, 10.0], "elev": 0.0, "instr": ins, "mask": None, "altaz": False, "solar": False, "seed": 1})
    out.append({"orbit": pol, "offsets": [0.0, 10.0, 20.0], "elev": 0.0, "instr": base, "mask": "far", "altaz": False, "solar": False, "seed": 1})
    return out


def rim_mask(case, inst, tle, times, c):
    """A mask around the ground the rolled instrument sees from the highest (or most polar) sample."""
    g = np.random.default_rng(case["seed"])
    p, v = O.state_ecef(tle, O.ts_of(times))
    la = O.ecef_to_geodetic(p)[0]
    k = len(times) - 1 - int(g.integers(3)) if case["style"] == "eccentric" else int(np.argmax(np.abs(la)))
    vu, n, b = O.vnb(p[:, k], v[:, k])
    q = O.ray_ellipsoid(p[:, k], b + vu * np.tan(np.radians(inst.pitch_angle)) + n * np.tan(np.radians(inst.roll_angle)), case["elev"])
    if q is None:
        return None
    y, x, _ = (float(u) for u in O.ecef_to_geodetic(q))
    size = float(np.degrees(np.linalg.norm(q - p[:, k]) * np.tan(np.radians(inst.cross_track_field_of_view / 2 + 1.0)) / O.R_MEAN))
    y0, y1 = max(-89.5, y - size), min(89.5, y + size)
    w = size / max(0.05, np.cos(np.radians(max(abs(y0), abs(y1)))))
    if y1 - y0 < 0.05 or abs(x) + w > 179:
        return None
    if case["style"] == "tall":
        y0, y1 = (max(-89, y0 - g.uniform(30, 90)), y1) if y > 0 else (y0, min(89, y1 + g.uniform(30, 90)))
    c.event("mask_" + case["style"])
    m = shapely.box(x - w, y0, x + w, y1)
    return m if case["mask"] == "polygon" else shapely.geometry.MultiPolygon([m]) if case["mask"] == "multi" else gpd.GeoSeries([m], crs="EPSG:4326") if case["mask"] == "series" else gpd.GeoDataFrame({"a": [1]}, geometry=[m], crs="EPSG:4326")


def gen_rim(rng):
    ecc = rng.random() < 0.5
    roll = float(rng.choice([-1, 1])) * rng.uniform(12, 28)
    ct, at = rng.uniform(2, 7), rng.uniform(2, 7)
    ins = {"name": "R", "is_rectangular": True, "cross_track_field_of_view": W.r(ct, 2), "along_track_field_of_view": W.r(at, 2), "roll_angle": W.r(roll, 2), "pitch_angle": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(-5, 5), 2),
           "cross_track_pixels": int(rng.integers(1, 4)), "along_track_pixels": int(rng.integers(1, 4))}
    o = {"right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "epoch": W.gen_epoch(rng).isoformat()}
    if ecc:
        e = float(rng.uniform(0.45, 0.65))
        o.update(type="keplerian", altitude=W.r((6371e3 + rng.uniform(5e5, 9e5)) / (1 - e) - 6371e3, 1), eccentricity=W.r(e, 4), inclination=W.r(rng.uniform(20, 110), 2), perigee_argument=W.r(rng.uniform(0, 359), 2), true_anomaly=W.r(rng.uniform(0, 30), 2))
        off = [k * 40.0 for k in range(40)]
        ins["roll_angle"] = W.r(np.sign(roll) * rng.uniform(12, 22), 2)
    else:
        o.update(type="circular", altitude=W.r(rng.uniform(4e5, 1.2e6), 1), inclination=W.r(rng.uniform(65, 80), 2), true_anomaly=W.r(float(rng.choice([90, 270])) + rng.uniform(-30, 20), 2))
        off = [k * 10.0 for k in range(10)]
    ins["field_of_regard"] = W.r(2 * (np.hypot(ins["roll_angle"], ins["pitch_angle"]) + np.hypot(ct, at) / 2 + 1.0), 2)
    return {"orbit": o, "offsets": off, "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 9000), 1), "instr": ins, "mask": str(rng.choice(["polygon", "multi", "frame", "series"])), "altaz": False, "solar": False,
            "seed": int(rng.integers(1e6)), "edge": False, "style": "eccentric" if ecc else "tall"}


def gen(rng, i):
    if rng.random() < 0.06:
        return gen_rim(rng)
    masked = rng.random() < 0.35
    mx = 25 if masked else 90
    big = rng.random() < 0.15
    ins = {"name": f"P{int(rng.integers(9))}", "is_rectangular": bool(rng.random() < 0.96),
           "cross_track_field_of_view": W.r(rng.uniform(0.5, mx), 2), "along_track_field_of_view": W.r(rng.uniform(0.5, mx), 2),
           "roll_angle": 0.0 if rng.random() < 0.3 else W.r(rng.uniform(-30, 30), 2), "pitch_angle": 0.0 if rng.random() < 0.3 else W.r(rng.uniform(-30, 30), 2),
           "cross_track_pixels": int(rng.integers(1, 12 if big else 6)), "along_track_pixels": int(rng.integers(1, 12 if big else 6)),
           "cross_track_oversampling": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 0.95), 3), "along_track_oversampling": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 0.95), 3)}
    ins["field_of_regard"] = W.r(min(180.0, 2 * (np.hypot(ins["roll_angle"], ins["pitch_angle"]) + np.hypot(ins["cross_track_field_of_view"], ins["along_track_field_of_view"])) + 4), 2)
    if rng.random() < 0.15:
        ins["req_target_sunlit"] = bool(rng.random() < 0.5)
    n = int(rng.choice([1, 2, 5])) if not masked else int(rng.choice([1, 6, 12]))
    base = float(rng.integers(-86400, 2 * 86400))
    st = float(rng.choice([10.0, 60.0, 240.0]))
    wide = masked and rng.random() < 0.25
    if wide:
        n, st = 25, float(rng.choice([120.0, 240.0]))
    return {"orbit": W.gen_orbit(rng, alt=(350e3, 1500e3) if rng.random() < 0.8 else (1500e3, 36000e3)), "offsets": [base + k * st for k in range(n)], "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 5000), 1),
            "instr": ins, "mask": ["polygon", "multi", "frame", "series"][int(rng.integers(4))] if masked else None, "altaz": bool(rng.random() < 0.3), "solar": bool(rng.random() < 0.2), "seed": int(rng.integers(1e6)), "edge": bool(rng.random() < 0.4), "wide": bool(wide)}


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_ground_pixels
    config.rc.repeat_cycle_for_orbit_track = False
    s = W.build_satellite("S", case["orbit"], [{"name": "x", "field_of_regard": 33.0}, case["instr"]])
    base = W.orbit_epoch(case["orbit"]).replace(microsecond=0)
    times = [base + timedelta(seconds=x) for x in case["offsets"]]
    with core.suspend():
        if case.get("style"):
            mask = rim_mask(case, s.instruments[1], s.orbit.to_tle().tle, times, c)
        elif case["mask"] == "far":
            la, lo, _ = (float(x) for x in O.ecef_to_geodetic(O.state_ecef(s.orbit.to_tle().tle, O.ts_at(times[0], 0.0))[0]))
            lo = float(G.wrap(lo + 180))
            lo = max(-170, min(170, lo))
            mask = shapely.box(lo - 5, -5, lo + 5, 5)
        else:
            mask = make_mask(case, s.orbit.to_tle().tle, times, np.random.default_rng(case["seed"]), c)
    try:
        collect_ground_pixels(s, times, 1, case["elev"], mask, sat_altaz=case["altaz"], solar_altaz=case["solar"])
    except ValueError:
        if case["instr"].get("is_rectangular"):
            raise

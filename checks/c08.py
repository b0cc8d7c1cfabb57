"""C08: orbit tracks report the propagated state at each requested time."""
from datetime import timedelta, timezone

import geopandas as gpd
import numpy as np
from shapely import geometry as geo
from shapely.ops import unary_union

from vp import core, oracle as O, work as W

PROPERTY = "C08"
RULE = "a case counts when the rows of an orbit track were compared one by one with the state propagated and converted separately"
CASES = {"quick": 5000, "thorough": 30000}
REQUIRED_EVENTS = ["call:collect_orbit_track", "row_wgs84", "row_ecef", "row_eci", "vel_wgs84", "vel_ecef", "vel_eci", "masked_kept", "masked_dropped", "mask_never_reached",
                   "no_times", "one_time", "unordered_times", "mask_polygon", "mask_multi", "mask_frame", "mask_series", "mask_wgs84", "mask_ecef", "mask_eci", "swath", "masked_many", "mask_wide"]
ASSUMPTIONS = ["SGP4 propagation and Earth orientation by skyfield are correct", "sub-satellite points within 1e-6 deg of the mask boundary are not judged"]


def install():
    core.hook("tatc.analysis.track.collect_orbit_track", post)


def mask_geom(mask):
    return unary_union(list(mask.geometry)) if isinstance(mask, (gpd.GeoDataFrame, gpd.GeoSeries)) else mask


def post(c, a, gdf, exc, token):
    if exc is not None:
        return
    times = list(a["times"])
    sat = a["satellite"]
    inst = sat.instruments[a["instrument_index"]]
    tle = sat.orbit.to_tle().tle
    if len(tle) != 2:
        return
    c.check({"time", "satellite", "instrument", "swath_width", "valid_obs", "geometry"} <= set(gdf.columns), "missing columns", sig="columns", got=list(gdf.columns))
    if not times:
        c.event("no_times")
        c.check(len(gdf) == 0, "rows without requested times", sig="no-times")
        return
    if len(times) == 1:
        c.event("one_time")
    co = str(getattr(a["coordinates"], "value", a["coordinates"]))
    vel = str(getattr(a["orbit_output"], "value", a["orbit_output"])) == "velocity"
    t0 = times[0].astimezone(timezone.utc)
    secs = np.array([(t - t0).total_seconds() for t in times])
    ts = O.ts_at(t0, secs)
    p, v = O.state_ecef(tle, ts)
    pe, ve = O.state_eci(tle, ts)
    la, lo, h = O.ecef_to_geodetic(p)
    keep = [True] * len(times)
    if a["mask"] is not None:
        m = mask_geom(a["mask"])
        c.event("mask_" + co)
        for i in range(len(times)):
            q = geo.Point(lo[i], la[i])
            keep[i] = None if m.boundary.distance(q) < 1e-6 else m.contains(q)
        if sum(1 for k in keep if k) > 12:
            c.event("masked_many")
        c.event("masked_kept", sum(1 for k in keep if k))
        c.event("masked_dropped", sum(1 for k in keep if k is False))
        if not any(keep) and None not in keep:
            c.event("mask_never_reached")
    rows = list(gdf.itertuples(index=False))
    order = list(range(len(times)))
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")
    # align rows to expected samples
    got = {}
    k = 0
    for i in order:
        if keep[i] is False:
            continue
        if k < len(rows) and abs((rows[k].time - times[i]).total_seconds()) < 2e-3:
            got[i] = rows[k]
            k += 1
        elif keep[i] is True:
            c.fail("sample missing or out of order", sig="missing", index=i, time=str(times[i]), row_time=str(rows[k].time) if k < len(rows) else None)
            return
    if not c.check(k == len(rows), "more rows than samples (or samples outside the mask)", sig="extra", rows=len(rows), matched=k):
        return
    c.check(("velocity" in gdf.columns) == vel or len(gdf) == 0, "velocity column does not follow the option", sig="vel-col")
    c.state(co, vel, a["mask"] is not None, min(len(times), 5))
    r_eq = np.linalg.norm(p, axis=0)
    for i, r in got.items():
        g = r.geometry
        c.event("row_" + co)
        if co == "wgs84":
            dx = O.angdiff(g.x, lo[i]) * np.cos(np.radians(la[i]))
            c.check(dx < 1e-5 and abs(g.y - la[i]) < 1e-5 and abs(g.z - h[i]) < 1.0 and -180 <= g.x <= 180, "geodetic position is not the propagated one", sig="pos-wgs84", expected=[lo[i], la[i], h[i]], got=[g.x, g.y, g.z])
        else:
            e = p[:, i] if co == "ecef" else pe[:, i]
            d = np.linalg.norm(np.array([g.x, g.y, g.z]) - e)
            c.check(d < 1.0 + 1e-7 * r_eq[i], f"{co} position is not the propagated one", sig="pos-" + co, distance=d)
        if vel:
            e = ve[:, i] if co == "eci" else v[:, i]
            w = r.velocity
            d = np.linalg.norm(np.array([w.x, w.y, w.z]) - e)
            c.event("vel_" + co)
            c.check(d < 0.05, f"{co} velocity is not the propagated one", sig="vel-" + co, distance=d)
        sw = O.swath(float(h[i]), inst.field_of_regard, a["elevation"])
        c.event("swath")
        c.check(abs(r.swath_width - sw) < 1.0 + 1e-5 * sw, "swath width is not that of the instrument at this height and elevation", sig="swath", expected=sw, got=r.swath_width)
        c.check(r.satellite == sat.name and r.instrument == inst.name, "names", sig="names")


def fixed_cases():
    out = []
    o = {"type": "circular", "altitude": 7e5, "inclination": 98.0, "epoch": W.EPOCH.isoformat(), "true_anomaly": 5.0}
    for co in ("wgs84", "ecef", "eci"):
        for n in (0, 1):
            out.append({"orbit": o, "offsets": [100.0][:n], "coord": co, "vel": True, "mask": None, "elev": 0.0, "instr": 1, "fors": [50.0, 120.0], "u": 0.3, "seed": 1})
        out.append({"orbit": o, "offsets": [60.0 * k for k in range(90)], "coord": co, "vel": True, "mask": "never", "elev": 0.0, "instr": 0, "fors": [50.0, 120.0], "u": 0.3, "seed": 1})
        out.append({"orbit": o, "offsets": [60.0 * k for k in range(90)], "coord": co, "vel": True, "mask": "one", "elev": 0.0, "instr": 0, "fors": [50.0, 120.0], "u": 0.3, "seed": 1})
        out.append({"orbit": o, "offsets": [60.0 * k for k in range(120)], "coord": co, "vel": False, "mask": "wide", "elev": 0.0, "instr": 0, "fors": [50.0, 120.0], "u": 0.3, "seed": 3})
    return out


def gen(rng, i):
    e = 0.02 if rng.random() < 0.7 else 0.4
    o = W.gen_orbit(rng, max_e=e, kinds=("circular", "keplerian", "keplerian", "sso", "tle"))
    n = int(rng.choice([1, 2, 3, 20, 60, 150]))
    u = rng.random()
    base = float(rng.integers(-5 * 86400, 5 * 86400))
    if u < 0.5:
        st = float(rng.choice([1.0, 10.0, 30.0, 60.0, 600.0]))
        off = [base + k * st for k in range(n)]
    elif u < 0.75:
        off = sorted(W.r(x, 3) for x in base + rng.uniform(0, 86400, n))
    else:
        off = [W.r(x, 3) for x in base + rng.uniform(0, 86400, n)]
    return {"orbit": o, "offsets": off, "coord": str(rng.choice(["wgs84", "ecef", "eci"])), "vel": bool(rng.random() < 0.5),
            "mask": [None, "polygon", "multi", "frame", "series", "one", "never", "wide"][int(rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7]))],
            "elev": 0.0 if rng.random() < 0.5 else W.r(rng.uniform(-100, 9000), 1), "instr": int(rng.integers(2)),
            "fors": [W.r(rng.uniform(1, 360), 2), W.r(rng.uniform(1, 170), 2)], "u": W.r(rng.random()), "seed": int(rng.integers(1e6)),
            "tz": int(rng.integers(-11, 12)) if rng.random() < 0.2 else 0}


def make_mask(kind, tle, times, case):
    if kind is None:
        return None
    g = np.random.default_rng(case["seed"])
    if kind == "never":
        t = O.ts_at(times[0], np.array([(x - times[0]).total_seconds() for x in times])) if times else None
        la, lo, _ = O.ecef_to_geodetic(O.state_ecef(tle, t)[0])
        for _ in range(200):
            x, y = g.uniform(-179, 178), g.uniform(-89, 88)
            b = geo.box(x, y, x + 0.5, y + 0.5)
            if not any(b.buffer(0.1).contains(geo.Point(q, w)) for q, w in zip(lo, la)):
                return b
        return None
    if kind == "wide":
        x, y = g.uniform(-180, -20), g.uniform(-90, 20)
        return geo.box(x, y, min(180, x + g.uniform(181, 350)), min(90, y + g.uniform(40, 150)))
    def around():
        k = times[int(g.integers(len(times)))]
        la, lo, _ = (float(np.ravel(x)[0]) for x in O.ecef_to_geodetic(O.state_ecef(tle, O.ts_at(k, 0.0))[0]))
        w, hh = (2.0, 2.0) if kind == "one" else (g.uniform(3, 80), g.uniform(3, 60))
        x0, x1 = max(-180, lo - w * g.uniform(0.2, 1)), min(180, lo + w * g.uniform(0.2, 1))
        y0, y1 = max(-90, la - hh * g.uniform(0.2, 1)), min(90, la + hh * g.uniform(0.2, 1))
        if g.random() < 0.4 and kind != "one":
            return geo.Polygon([(x0, y0), (x1, y0), ((x0 + x1) / 2, (y0 + y1) / 2), (x1, y1), (x0, y1)])
        return geo.box(x0, y0, x1, y1)
    if kind in ("polygon", "one"):
        return around()
    parts = [around() for _ in range(2)]
    if kind == "multi":
        u = unary_union(parts)
        return u if u.geom_type == "MultiPolygon" else geo.MultiPolygon([u])
    if kind == "frame":
        return gpd.GeoDataFrame({"a": [1, 2]}, geometry=parts, crs="EPSG:4326")
    return gpd.GeoSeries(parts, crs="EPSG:4326")


def run(case, c):
    from tatc import config
    from tatc.analysis import OrbitCoordinate, OrbitOutput, collect_orbit_track
    config.rc.repeat_cycle_for_orbit_track = False
    s = W.build_satellite("S", case["orbit"], [{"name": f"I{k}", "field_of_regard": f} for k, f in enumerate(case["fors"])])
    base = W.orbit_epoch(case["orbit"]).replace(microsecond=0)
    times = [base + timedelta(seconds=x) for x in case["offsets"]]
    if times != sorted(times):
        c.event("unordered_times")
    with core.suspend():
        tle = s.orbit.to_tle().tle
        mask = make_mask(case["mask"], tle, times, case)
    if case.get("tz"):
        times = [t.astimezone(timezone(timedelta(hours=case["tz"]))) for t in times]
    if mask is not None and case["mask"] in ("polygon", "multi", "frame", "series", "wide"):
        c.event("mask_" + case["mask"])
    collect_orbit_track(s, times, case["instr"], case["elev"], mask, OrbitCoordinate(case["coord"]),
                        OrbitOutput.POSITION_VELOCITY if case["vel"] else OrbitOutput.POSITION)

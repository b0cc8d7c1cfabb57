"""C09: ground-track footprints cover exactly what the instrument can view."""
from datetime import timedelta

import geopandas as gpd
import numpy as np
import shapely
from shapely import geometry as geo
from shapely.ops import unary_union

from vp import core, geom as G, oracle as O, work as W

PROPERTY = "C09"
RULE = "a case counts when the region of at least one ground-track sample was probed point by point against the viewing geometry, or a masked track against the clipped unmasked one"
CASES = {"quick": 600, "thorough": 6000}
REQUIRED_EVENTS = ["call:collect_ground_track", "sample_EPSG:4087", "sample_utm", "sample_spice", "split_antimeridian", "contains_pole", "probe_in", "probe_out", "pointed", "full_disc",
                   "masked_kept", "masked_dropped", "mask_polygon", "mask_multi", "mask_frame", "mask_series", "mask_high_latitude", "mask_at_rim", "mask_eccentric", "mask_tall", "mask_wide", "altaz", "single_time", "no_times", "elevated"]
ASSUMPTIONS = [
    "probes within a margin of the region edge are not judged (projected systems 2-8 %, projected views 40 % of the half width, because region edges are straight on the map between few vertices)",
    "views reaching over the limb are represented by limb points: only the sub-satellite region is judged for those",
    "masked samples whose overlap with the mask is a sliver (below 0.5 % of the footprint or 0.02 square degrees) are not judged",
]


def install():
    core.hook("tatc.analysis.track.collect_ground_track", post)


def sample_state(tle, t):
    ts = O.ts_at(t, 0.0)
    p, v = O.state_ecef(tle, ts)
    return p, v


def view_of(inst, p, v, elev):
    if hasattr(inst, "roll_angle"):
        return G.View(p, v, inst.roll_angle, inst.pitch_angle, inst.cross_track_field_of_view, inst.along_track_field_of_view, inst.is_rectangular, elev)
    f = min(inst.field_of_regard, 179.99)
    return G.View(p, v, 0.0, 0.0, f, f, False, elev)


def check_region(c, g, inst, tle, t, elev, crs):
    """probe one reported region against the geometry of that sample"""
    p, v = sample_state(tle, t)
    la, lo, h = (float(x) for x in O.ecef_to_geodetic(p))
    if crs == "spice" and hasattr(inst, "roll_angle") and not view_of(inst, p, v, elev).clear_of_limb():
        # pointed views over the limb are only approximated by limb points
        c.event("over_limb")
        return
    if not G.on_map(c, g, "footprint", elev):
        return
    c.event("sample_" + crs)
    if elev:
        c.event("elevated")
    if g.geom_type == "MultiPolygon":
        c.event("split_antimeridian")
    if max(abs(g.bounds[1]), abs(g.bounds[3])) > 89.999:
        c.event("contains_pole")
    flo, fla = G.fibonacci(400)
    if crs == "spice":
        w = view_of(inst, p, v, elev)
        pointed = hasattr(inst, "roll_angle")
        if pointed:
            c.event("pointed")
        ctr = w.ground(0, 0)
        if pointed and w.coarse():
            c.event("coarse_outline")
            return
        if w.clear_of_limb():
            ins = [w.ground(x, y) for k in (0.0, 0.3, 0.55) for x, y in [(k * np.cos(a), k * np.sin(a)) for a in np.arange(0, 6.28, 0.7)]]
            lon, lat = np.array(ins).T
            ok = ~G.seam(lon, lat)
            r = G.covers(g, lon[ok], lat[ok])
            c.event("probe_in", int(ok.sum()))
            c.check(r.all(), "part of the view is not covered by the footprint", sig="spice-in", missing=[[x, y] for x, y in zip(lon[ok][~r], lat[ok][~r])][:3], center=ctr)
            out = [w.ground(x, y) for k in (1.6, 2.5) for x, y in [(k * np.cos(a), k * np.sin(a)) for a in np.arange(0, 6.28, 0.35)]]
            if w.rect:
                out = [w.ground(x, y) for k in (1.6, 2.5) for s in (-1, 1) for u in (-1, -0.3, 0.4, 1) for x, y in ((s * k, u * k), (u * k, s * k))]
            out = [o for o in out if o is not None]
            lon, lat = (np.array(out).T if out else (np.zeros(0), np.zeros(0)))
            lon, lat = np.concatenate([lon, flo]), np.concatenate([lat, fla])
            q, el = w.q(lon, lat)
            ok = ~G.seam(lon, lat) & ((q > 1.45) | (el < -2))
            r = G.covers(g, lon[ok], lat[ok])
            c.event("probe_out", int(ok.sum()))
            c.check(not r.any(), "footprint covers ground outside the view", sig="spice-out", extra=[[x, y] for x, y in zip(lon[ok][r], lat[ok][r])][:3], center=ctr)
        elif not pointed:
            # nadir view of the full disc: everything well above the horizon in, below out
            c.event("full_disc")
            q, el = w.q(flo, fla)
            lim = 25.0
            ok = ~G.seam(flo, fla) & (el > lim)
            r = G.covers(g, flo[ok], fla[ok])
            c.event("probe_in", int(ok.sum()))
            if inst.field_of_regard >= 179 or w.q(np.array([lo]), np.array([la]))[0][0] < 1:
                okk = ok & (q < 0.55)
                r = G.covers(g, flo[okk], fla[okk])
                c.check(r.all(), "part of the visible disc is not covered", sig="disc-in", missing=[[x, y] for x, y in zip(flo[okk][~r], fla[okk][~r])][:3])
            ok = ~G.seam(flo, fla) & (el < -12)
            r = G.covers(g, flo[ok], fla[ok])
            c.event("probe_out", int(ok.sum()))
            c.check(not r.any(), "footprint covers ground below the horizon", sig="disc-out", extra=[[x, y] for x, y in zip(flo[ok][r], fla[ok][r])][:3])
        return
    half = O.swath(h, inst.field_of_regard, elev) / 2
    if crs == "EPSG:4087":
        rd = half / G.DEG_M
        # probes: rings in the plane of the projected system and a global lattice
        az = np.linspace(0, 2 * np.pi, 24, endpoint=False) + 0.05
        lon, lat = [flo], [fla]
        for k in (0.02, 0.5, 0.9, 0.985, 1.012, 1.03, 1.4):
            x, y = lo + k * rd * np.cos(az), la + k * rd * np.sin(az)
            up, dn = y > 90, y < -90
            x = np.where(up | dn, x + 180, x)
            y = np.where(up, 180 - y, np.where(dn, -180 - y, y))
            lon.append(x)
            lat.append(y)
        lon, lat = G.wrap(np.concatenate(lon)), np.concatenate(lat)
        d = G.disc_distance(lo, la, lon, lat) / rd
        inn, out = d < 0.992, d > 1.009  # a degree of latitude is 0.7 % shorter at the equator
    else:
        from pyproj import Geod
        dg = np.degrees(half / O.R_MEAN)
        if half > 1.0e6:
            c.event("utm_too_wide")
            return
        pr = [G.ring(lo, la, dg * k) for k in (0.02, 0.5, 0.85, 0.92, 1.08, 1.2, 1.5)]
        lon, lat = np.concatenate([x[0] for x in pr] + [flo]), np.concatenate([x[1] for x in pr] + [fla])
        d = Geod(ellps="WGS84").inv(np.full(len(lon), lo), np.full(len(lon), la), lon, lat)[2] / half
        inn, out = d < 0.93, d > 1.07
    keep = ~G.seam(lon, lat, 1e-3)
    inn, out = inn & keep, out & keep
    r = G.covers(g, lon, lat)
    c.event("probe_in", int(inn.sum()))
    c.event("probe_out", int(out.sum()))
    bad = inn & ~r
    c.check(not bad.any(), "part of the swath disc is not covered", sig=crs + "-in", missing=[[x, y, k] for x, y, k in zip(lon[bad], lat[bad], d[bad])][:3], center=[lo, la], half=half)
    bad = out & r
    c.check(not bad.any(), "footprint covers ground outside the swath disc", sig=crs + "-out", extra=[[x, y, k] for x, y, k in zip(lon[bad], lat[bad], d[bad])][:3], center=[lo, la], half=half)


def post(c, a, gdf, exc, token):
    if exc is not None:
        return
    times = list(a["times"])
    if not times:
        c.event("no_times")
        c.check(len(gdf) == 0, "rows without times", sig="no-times")
        return
    sat = a["satellite"]
    inst = sat.instruments[a["instrument_index"]]
    tle = sat.orbit.to_tle().tle
    if len(tle) != 2:
        return
    crs = a["crs"]
    if len(times) == 1:
        c.event("single_time")
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")
    rows = list(gdf.itertuples(index=False))
    for r in rows:
        c.check(r.satellite == sat.name and r.instrument == inst.name, "names", sig="names")
    if a["mask"] is None:
        if not c.check(len(rows) == len(times) and all(abs((r.time - t).total_seconds()) < 2e-3 for r, t in zip(rows, times)), "not one sample per requested time, in order", sig="rows", n=len(rows), expected=len(times)):
            return
        for r, t in zip(rows, times):
            check_region(c, r.geometry, inst, tle, t, a["elevation"], crs)
            c.state(crs, r.geometry.geom_type, hasattr(inst, "roll_angle"))
            if a["sat_altaz"]:
                p, v = sample_state(tle, t)
                w = view_of(inst, p, v, a["elevation"])
                g = w.ground(0, 0)
                if g is not None:
                    c.event("altaz")
                    el, az, _ = O.look_angles(p, g[1], g[0], a["elevation"])
                    c.check(abs(float(el) - r.sat_alt) < 0.02, "satellite elevation does not refer to the viewed target", sig="sat-alt", expected=float(el), got=r.sat_alt)
                    if float(el) < 88:
                        c.check(O.angdiff(float(az), r.sat_az) * np.cos(np.radians(float(el))) < 0.02, "satellite azimuth does not refer to the viewed target", sig="sat-az", expected=float(az), got=r.sat_az)
        c.check(("sat_alt" in gdf.columns) == bool(a["sat_altaz"]), "altaz option", sig="altaz-cols")
    else:
        check_mask(c, a, gdf, times)


def check_mask(c, a, gdf, times):
    from tatc.analysis import collect_ground_track
    m = unary_union(list(a["mask"].geometry)) if isinstance(a["mask"], (gpd.GeoDataFrame, gpd.GeoSeries)) else a["mask"]
    full = collect_ground_track(a["satellite"], times, a["instrument_index"], a["elevation"], None, a["crs"], a["sat_altaz"], a["solar_altaz"])
    got = {}
    for r in gdf.itertuples(index=False):
        got.setdefault(round(r.time.timestamp(), 2), []).append(r)
    if max(abs(m.bounds[1]), abs(m.bounds[3])) > 60:
        c.event("mask_high_latitude")
    want = set()
    for r in full.itertuples(index=False):
        k = round(r.time.timestamp(), 2)
        g2 = shapely.force_2d(r.geometry)
        e = g2.intersection(m)
        rows = got.get(k, [])
        if e.is_empty and g2.distance(m) > 1e-6:
            c.event("masked_dropped")
            c.check(not rows, "sample that does not reach the mask is returned", sig="mask-extra", time=str(r.time))
            continue
        want.add(k)
        if e.area < max(0.005 * g2.area, 0.02) or e.area < 0.001 * m.area and e.area < 0.1 * g2.area:
            c.event("sliver")
            continue
        if not c.check(len(rows) == 1, "sample that reaches the mask is lost or duplicated", sig="mask-lost" if not rows else "mask-dup", time=str(r.time), area=e.area, mask=list(m.bounds), footprint=list(g2.bounds)):
            continue
        c.event("masked_kept")
        o = shapely.force_2d(rows[0].geometry)
        c.check(o.symmetric_difference(e).area < 1e-6 * max(1.0, e.area), "masked sample is not the footprint clipped to the mask", sig="mask-clip", time=str(r.time), expected=e.area, got=o.area)
        c.check(bool(rows[0].valid_obs) == bool(r.valid_obs), "mask changes validity", sig="mask-valid")
        if a["sat_altaz"]:
            c.check(abs(rows[0].sat_alt - r.sat_alt) < 1e-4 and O.angdiff(rows[0].sat_az, r.sat_az) * np.cos(np.radians(r.sat_alt)) < 1e-4, "mask changes viewing angles", sig="mask-altaz")
    c.check(set(got) <= set(round(r.time.timestamp(), 2) for r in full.itertuples(index=False)), "row at a time not requested", sig="mask-time")
    order = [round(t.timestamp(), 2) for t in full.time]
    seq = [round(t.timestamp(), 2) for t in gdf.time]
    c.check(len(set(order)) < len(order) or seq == [t for t in order if t in got], "masked samples are not in the order of the times", sig="mask-order", got=seq[:10])


def fixed_cases():
    out = []
    pol = {"type": "circular", "altitude": 7e5, "inclination": 90.0, "epoch": W.EPOCH.isoformat(), "true_anomaly": 0.0, "right_ascension_ascending_node": 0.0}
    for crs in ("EPSG:4087", "utm", "spice"):
        # over both poles and across the antimeridian at several swaths
        for f in (20.0, 90.0):
            out.append({"orbit": pol, "offsets": [1300.0 + 30 * k for k in range(12)] + [4200.0 + 30 * k for k in range(10)], "crs": crs, "elev": 0.0, "instr": {"name": "I", "field_of_regard": f}, "mask": None, "altaz": False, "seed": 1})
        out.append({"orbit": pol, "offsets": [], "crs": crs, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 50.0}, "mask": None, "altaz": True, "seed": 1})
        out.append({"orbit": pol, "offsets": [700.0], "crs": crs, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 50.0}, "mask": None, "altaz": True, "seed": 1})
        out.append({"orbit": pol, "offsets": [700.0], "crs": crs, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 50.0}, "mask": "polygon", "altaz": True, "seed": 1})
        for k in range(4):
            out.append({"orbit": dict(pol, inclination=75.0 + 2 * k), "offsets": [1150.0 + 5 * j for j in range(8)], "crs": crs, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 50.0 + 20 * k},
                        "mask": "polygon", "altaz": False, "seed": k, "edge": True})
    return out


def gen(rng, i):
    crs = str(rng.choice(["EPSG:4087", "utm", "spice"]))
    alt = (350e3, 1500e3) if rng.random() < 0.8 else (1500e3, 20000e3)
    pointed = crs == "spice" and rng.random() < 0.5
    ins = W.gen_instrument(rng, pointed=pointed, solar=0.1)
    if not pointed:
        ins["field_of_regard"] = W.r(rng.uniform(2, 100), 2) if rng.random() < 0.8 else float(rng.choice([150.0, 180.0, 360.0]))
        if crs == "utm":
            ins["field_of_regard"] = W.r(rng.uniform(2, 60), 2)
            alt = (350e3, 1200e3)
    n = int(rng.choice([1, 2, 6, 15]))
    base = float(rng.integers(-86400, 2 * 86400))
    st = float(rng.choice([10.0, 30.0, 60.0, 400.0]))
    u = rng.random()
    if u < 0.2:
        # a mask that only the widest swaths (climbing on an eccentric orbit), or the far end of a tall mask, can reach
        elev = 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 9000), 1)
        mk = str(rng.choice(["polygon", "multi", "frame", "series"]))
        if u < 0.1:
            e = float(rng.uniform(0.45, 0.65))
            o = {"type": "keplerian", "altitude": W.r((6371e3 + rng.uniform(5e5, 9e5)) / (1 - e) - 6371e3, 1), "eccentricity": W.r(e, 4), "inclination": W.r(rng.uniform(20, 110), 2), "perigee_argument": W.r(rng.uniform(0, 359), 2),
                 "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "true_anomaly": W.r(rng.uniform(0, 30), 2), "epoch": W.gen_epoch(rng).isoformat()}
            return {"orbit": o, "offsets": [k * 40.0 for k in range(45)], "crs": str(rng.choice(["EPSG:4087", "spice"])), "elev": elev, "instr": {"name": "I", "field_of_regard": W.r(rng.uniform(10, 40), 2)}, "mask": mk, "altaz": False,
                    "seed": int(rng.integers(1e6)), "edge": True, "style": "eccentric"}
        o = {"type": "circular", "altitude": W.r(rng.uniform(4e5, 1.2e6), 1), "inclination": W.r(rng.uniform(65, 80), 2), "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "true_anomaly": W.r(float(rng.choice([90, 270])) + rng.uniform(-30, 20), 2), "epoch": W.gen_epoch(rng).isoformat()}
        return {"orbit": o, "offsets": [k * 10.0 for k in range(10)], "crs": str(rng.choice(["EPSG:4087", "spice"])), "elev": elev,
                "instr": {"name": "I", "field_of_regard": W.r(rng.uniform(30, 110), 2)}, "mask": mk, "altaz": False, "seed": int(rng.integers(1e6)), "edge": True, "style": "tall"}
    if u < 0.3:
        # masks wider than half the globe and tracks of many samples
        return {"orbit": W.gen_orbit(rng, alt=(350e3, 1500e3)), "offsets": [base + k * (st if st > 30 else 150.0) for k in range(60)],
                "crs": crs if crs == "spice" else "EPSG:4087", "elev": 0.0, "instr": {"name": "I", "field_of_regard": W.r(rng.uniform(2, 60), 2)}, "mask": ["polygon", "multi", "frame", "series"][int(rng.integers(4))],
                "altaz": False, "seed": int(rng.integers(1e6)), "edge": False, "wide": True}
    return {"orbit": W.gen_orbit(rng, alt=alt), "offsets": [base + k * st for k in range(n)], "crs": crs, "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(0, 9000), 1),
            "instr": ins, "mask": [None, None, "polygon", "multi", "frame", "series"][int(rng.integers(6))], "altaz": bool(rng.random() < 0.4), "seed": int(rng.integers(1e6)), "edge": bool(rng.random() < 0.45)}


def make_mask(case, tle, times, g, c):
    kind = case["mask"]
    if kind is None:
        return None

    def around():
        if case.get("wide"):
            c.event("mask_wide")
            x, y = g.uniform(-180, -20), g.uniform(-88, 20)
            return geo.box(x, y, min(180, x + g.uniform(150, 350)), min(90, y + g.uniform(40, 150)))
        k = times[int(g.integers(len(times)))]
        if case.get("style") == "eccentric":
            k = times[-1 - int(g.integers(4))]  # the highest samples
        elif case.get("style") == "tall":
            k = times[int(np.argmax(np.abs(O.ecef_to_geodetic(O.state_ecef(tle, O.ts_of(times))[0])[0])))]
        la, lo, _ = (float(x) for x in O.ecef_to_geodetic(O.state_ecef(tle, O.ts_at(k, 0.0))[0]))
        if case.get("edge"):
            # a small mask near the rim of the view, mostly east or west of the satellite
            alt = float(O.ecef_to_geodetic(O.state_ecef(tle, O.ts_at(k, 0.0))[0])[2])
            half = O.swath(alt, case["instr"]["field_of_regard"]) / 2 / O.R_MEAN
            az, d = np.radians(90 + 180 * g.integers(2) + g.uniform(-25, 25)), half * g.uniform(0.6, 0.85)
            p1 = np.radians(la)
            p2 = np.arcsin(np.sin(p1) * np.cos(d) + np.cos(p1) * np.sin(d) * np.cos(az))
            dl = np.degrees(np.arctan2(np.sin(az) * np.sin(d) * np.cos(p1), np.cos(d) - np.sin(p1) * np.sin(p2)))
            cy, cx, q = np.degrees(p2), lo + dl, np.degrees(half) * 0.15
            qx = q / max(0.05, np.cos(p2))
            cx = (cx + 180) % 360 - 180
            x0, x1, y0, y1 = max(-180, cx - qx), min(180, cx + qx), max(-89.9, cy - q), min(89.9, cy + q)
            if x1 - x0 > 0.05 and y1 - y0 > 0.05:
                c.event("mask_at_rim")
                if case.get("style"):
                    c.event("mask_" + case["style"])
                if case.get("style") == "tall":  # reaching far towards (and across) the equator
                    y0, y1 = (max(-89, y0 - g.uniform(30, 90)), y1) if cy > 0 else (y0, min(89, y1 + g.uniform(30, 90)))
                return geo.box(x0, y0, x1, y1)
        lo, la = lo + g.uniform(-8, 8), la + g.uniform(-8, 8)
        w, hh = g.uniform(1, 40), g.uniform(1, 30)
        x0, x1, y0, y1 = max(-180, lo - w), min(180, lo + w), max(-90, la - hh), min(90, la + hh)
        if x1 - x0 < 0.5 or y1 - y0 < 0.5:
            return geo.box(-10, -10, 10, 10)
        if g.random() < 0.4:
            return geo.Polygon([(x0, y0), (x1, y0), ((x0 + x1) / 2, (y0 + y1) / 2), (x1, y1), (x0, y1)])
        return geo.box(x0, y0, x1, y1)
    if kind == "polygon":
        return around()
    parts = [around(), around()]
    if kind == "multi":
        u = unary_union(parts)
        return u if u.geom_type == "MultiPolygon" else geo.MultiPolygon([u])
    if kind == "frame":
        return gpd.GeoDataFrame({"a": [1, 2]}, geometry=parts, crs="EPSG:4326")
    return gpd.GeoSeries(parts, crs="EPSG:4326")


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_ground_track
    config.rc.repeat_cycle_for_orbit_track = False
    s = W.build_satellite("S", case["orbit"], [{"name": "x", "field_of_regard": 33.0}, case["instr"]])
    base = W.orbit_epoch(case["orbit"]).replace(microsecond=0)
    times = [base + timedelta(seconds=x) for x in case["offsets"]]
    mask = make_mask(case, s.orbit.to_tle().tle, times, np.random.default_rng(case["seed"]), c) if times else None
    if mask is not None:
        c.event("mask_" + case["mask"])
    collect_ground_track(s, times, 1, case["elev"], mask, case["crs"], sat_altaz=case["altaz"])

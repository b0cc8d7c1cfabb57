"""C29: having nothing to report is a well-formed answer."""
from datetime import timedelta

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely import geometry as geo

from vp import core, oracle as O, work as W

PROPERTY = "C29"
RULE = "a case counts when an analysis with nothing to report was compared, column by column and as input of the following stages, with the same analysis having something to report"
CASES = {"quick": 900, "thorough": 12000}
KINDS = ["observations", "multi", "aggregate", "reduce", "grid", "downlinks", "latencies", "reduce_latencies", "grid_latencies",
         "orbit_track", "ground_track", "track_point", "track_line", "pixels", "ro", "dop"]
REQUIRED_EVENTS = ["pair:" + k for k in KINDS] + ["way:" + w for w in (
    "antipode", "access", "nobody", "no_instrument", "no_times", "mask_poly", "mask_frame", "mask_series", "impossible", "invalid", "no_visible", "no_downlinks", "no_observations", "unmatched", "filtered", "outside_cells")] + [
    "concat", "downstream", "crs_kept", "no_requirement_full"]
ASSUMPTIONS = ["a gridded table is complete rather than empty: every cell with zero samples and no value", "text and geometry columns are compared by presence only; time resolution (us or ns) is not compared"]


def install():
    pass


def kind(s):
    t = s.dtype
    if isinstance(t, gpd.array.GeometryDtype):
        return "geometry"
    for name, f in (("bool", pd.api.types.is_bool_dtype), ("datetime", pd.api.types.is_datetime64_any_dtype), ("timedelta", pd.api.types.is_timedelta64_dtype),
                    ("int", pd.api.types.is_integer_dtype), ("float", pd.api.types.is_float_dtype)):
        if f(t):
            return name
    return "other"


def same_value(p, q):
    if pd.isna(p) or pd.isna(q):
        return bool(pd.isna(p) and pd.isna(q))
    if isinstance(p, (pd.Timestamp, pd.Timedelta)):
        return abs(p - q) <= pd.Timedelta(microseconds=2)
    return p == q


def pair(c, name, way, empty, full, optional=(), index=True):
    """An empty result against a non-empty one of the same analysis."""
    lab = f"{name} ({way})"
    if not c.check(isinstance(empty, gpd.GeoDataFrame), "an empty result is not a GeoDataFrame", sig=f"{name}-type", got=type(empty).__name__, case=lab):
        return
    c.check(len(empty) == 0, "rows although there is nothing to report", sig=f"{name}-rows", got=len(empty), case=lab)
    c.check(empty.crs is not None and empty.crs == full.crs and empty.crs.to_epsg() == 4326, "an empty result is not in EPSG:4326", sig=f"{name}-crs", got=str(empty.crs), case=lab)
    c.event("crs_kept")
    if len(full) == 0:
        c.event("full_is_empty")
        return
    want = [x for x in full.columns if x not in optional]
    have = [x for x in empty.columns if x not in optional]
    if not c.check(set(want) == set(have), "an empty result has other columns than a non-empty one", sig=f"{name}-columns", missing=sorted(set(want) - set(have)), extra=sorted(set(have) - set(want)), case=lab):
        return
    c.check(empty.geometry.name == full.geometry.name, "an empty result has another geometry column", sig=f"{name}-geometry", case=lab)
    for parts in ([empty, full], [full, empty]):
        both = pd.concat(parts, ignore_index=True)
        c.event("concat")
        c.check(len(both) == len(full), "rows appear when combined with an empty result", sig=f"{name}-concat-rows", case=lab)
        c.check(getattr(both, "crs", None) == full.crs, "combining with an empty result loses the coordinate reference system", sig=f"{name}-concat-crs", case=lab)
        for col in want:
            a, b = kind(both[col]), kind(full[col])
            if b == "other":
                continue
            c.check(a == b, "combining with an empty result changes the kind of a column", sig=f"{name}-kind-{col}", column=col, alone=b, combined=a, case=lab)
        for col in want:
            if kind(full[col]) in ("bool", "int", "float", "datetime", "timedelta"):
                x, y = list(both[col]), list(full[col])
                c.check(all(same_value(p, q) for p, q in zip(x, y)), "combining with an empty result changes values", sig=f"{name}-concat-values", column=col, case=lab)
    c.event("pair:" + name)
    c.event("way:" + way)
    c.state(name, way, len(want))


def gridded(c, name, way, out, cells, values):
    lab = f"{name} ({way})"
    if not c.check(isinstance(out, gpd.GeoDataFrame) and out.crs == cells.crs, "a gridded table without data is not a GeoDataFrame in the reference system of the cells", sig=f"{name}-type", case=lab):
        return
    c.check(sorted(out.cell_id) == sorted(cells.cell_id), "a gridded table without data does not list every cell", sig=f"{name}-cells", got=list(out.cell_id)[:8], case=lab)
    c.check(set(out.columns) >= {"cell_id", "geometry", "samples"} | set(values), "columns missing without data", sig=f"{name}-columns", got=list(out.columns), case=lab)
    c.check((out.samples == 0).all(), "samples without data", sig=f"{name}-samples", case=lab)
    for v in values:
        c.check(out[v].isna().all(), "a value without data", sig=f"{name}-value", column=v, case=lab)
    w = {r.cell_id: r.geometry for r in cells.itertuples()}
    c.check(all(r.geometry.equals(w[r.cell_id]) for r in out.itertuples() if r.cell_id in w), "cells changed without data", sig=f"{name}-geometry", case=lab)
    c.event("pair:" + name)
    c.event("way:" + way)


def fixed_cases():
    return []


GROUPS = ["coverage", "multi", "downlinks", "tracks", "gtrack", "pixels", "ro", "dop"]


def gen(rng, i):
    ep = W.gen_epoch(rng)
    inc = W.r(rng.uniform(20, 48), 2)  # with the horizon at most 33 deg away, nothing of the polar masks is in view
    o = W.gen_orbit(rng, kinds=("circular", "circular", "keplerian"), alt=(450e3, 1200e3), epoch=ep)
    o.pop("x", None)
    o["inclination"] = inc
    return {"tle": bool(rng.random() < 0.3), "group": GROUPS[i % len(GROUPS)], "orbit": o, "fors": W.r(rng.uniform(60, 130), 1), "solar": bool(rng.random() < 0.5), "mask": str(rng.choice(["poly", "frame", "series", "multi"])),
            "z": 0.0 if rng.random() < 0.5 else W.r(rng.uniform(0, 2000), 1), "dissolve": bool(rng.random() < 0.5), "self_sunlit": bool(rng.random() < 0.5), "crs": str(rng.choice(["EPSG:4087", "EPSG:4087", "utm", "spice"])),
            "hours": int(rng.integers(12, 25)), "crs2": bool(rng.random() < 0.5), "opts": [bool(rng.random() < 0.3) for _ in range(4)], "kind": str(rng.choice(["gdop", "pdop", "hdop", "vdop", "tdop"])), "rect": bool(rng.random() < 0.5), "lazy": int(rng.integers(3))}


def mask_of(case):
    """A region no satellite of these orbits sees at all."""
    p = [geo.box(-20, 89.2, 30, 89.8), geo.box(100, -89.8, 140, -89.3)]
    m = case["mask"]
    if m == "poly":
        return p[0], "mask_poly"
    if m == "multi":
        return geo.MultiPolygon(p), "mask_poly"
    if m == "frame":
        return gpd.GeoDataFrame({"n": [1, 2]}, geometry=p, crs="EPSG:4326"), "mask_frame"
    return gpd.GeoSeries(p, crs="EPSG:4326"), "mask_series"


def subpoint(orbit, t):
    tle = orbit.to_tle().tle
    p, _ = O.state_ecef(tle[:2], O.ts_at(t, 0.0))
    lat, lon, _ = O.ecef_to_geodetic(p)
    return float(lat), float(lon)


def run(case, c):
    from tatc import config
    from tatc.schemas import Point, GroundStation, Satellite, Instrument, PointedInstrument
    from tatc import analysis as A
    config.rc.repeat_cycle_for_orbit_track = False
    orbit = W.build_orbit(case["orbit"])
    if case["tle"]:
        orbit = orbit.to_tle()
    start = W.orbit_epoch(case["orbit"]).replace(microsecond=0)
    g = case["group"]
    omit = not case["solar"]
    ins = Instrument(name="I", field_of_regard=case["fors"])
    sat = Satellite(name="S", orbit=orbit, instruments=[ins])
    slow = Satellite(name="S", orbit=orbit, instruments=[Instrument(name="I", field_of_regard=case["fors"], min_access_time=timedelta(hours=6))])
    lat, lon = subpoint(orbit, start)
    clat = max(-85.0, min(85.0, lat))
    near = Point(id=7, latitude=clat, longitude=lon, elevation=case["z"])
    far = Point(id=8, latitude=-clat, longitude=(lon + 360) % 360 - 180, elevation=case["z"])
    day, minute = start + timedelta(hours=case["hours"]), start + timedelta(seconds=60)
    early = start - timedelta(minutes=20)
    cells = gpd.GeoDataFrame({"cell_id": [3, 9, 4]}, geometry=[geo.box(lon - 4, clat - 4, lon + 4, clat + 4), geo.box(-1, -1, 1, 1), geo.box(20, 60, 30, 65)], crs="EPSG:4326")
    away = gpd.GeoDataFrame({"cell_id": [5]}, geometry=[geo.box(*((10, 86, 20, 88)))], crs="EPSG:4326")
    times = [start + timedelta(seconds=30 * k) for k in range(8)]

    def stages(obs, full, way):
        """what follows: aggregate, reduce, grid"""
        ae, af = A.aggregate_observations(obs), A.aggregate_observations(full)
        pair(c, "aggregate", way, ae, af)
        re, rf = A.reduce_observations(ae), A.reduce_observations(af)
        pair(c, "reduce", way, re, rf)
        gridded(c, "grid", way, A.grid_observations(re, cells), cells, ["access", "revisit"])
        c.event("downstream")
        if len(rf):
            out = A.grid_observations(rf, away)
            c.check(len(out) == 0 or (out.samples == 0).all(), "data reported for cells that hold no point", sig="grid-outside")
            c.event("way:outside_cells")
            again = A.aggregate_observations(pd.concat([obs, full], ignore_index=True))
            same = len(again) == len(af) and all(same_value(x, y) for k in ("point_id", "start", "end", "epoch", "access", "revisit") for x, y in zip(again[k], af[k]))
            c.check(same, "aggregating together with an empty table changes the result", sig="aggregate-with-empty")
        return ae, af, re, rf

    def late(obs, full, dls, full_dls, way):
        le, lf = A.compute_latencies(obs, dls), A.compute_latencies(full, full_dls)
        pair(c, "latencies", way, le, lf)
        re, rf = A.reduce_latencies(le), A.reduce_latencies(lf)
        pair(c, "reduce_latencies", way, re, rf)
        gridded(c, "grid_latencies", way, A.grid_latencies(re, cells), cells, ["latency"])
        c.event("downstream")

    if g in ("coverage", "downlinks"):
        full = A.collect_observations(near, sat, early, day, omit_solar=omit)
        c.event("no_requirement_full")
        gs = GroundStation(name="G", latitude=clat, longitude=lon)
        gs_far = GroundStation(name="G", latitude=-clat, longitude=(lon + 360) % 360 - 180)
        dfull = A.collect_downlinks(gs, sat, early, day)
        if g == "coverage":
            for way, e in (("antipode", A.collect_observations(far, sat, start, minute, omit_solar=omit)),
                           ("access", A.collect_observations(near, slow, early, day, omit_solar=omit)),
                           ("filtered", full[full.sat_alt > 90])):
                pair(c, "observations", way, e, full)
                stages(e, full, way)
                late(e, full, dfull, dfull, way)
            late(A.collect_observations(far, sat, start, minute), full, dfull, dfull, "no_observations")
            full_other = full.assign(satellite="T")
            le, lf = A.compute_latencies(full_other, dfull), A.compute_latencies(full, dfull)
            c.check(len(le) == len(full) and le.latency.isna().all() and le.downlinked.isna().all() and set(le.columns) == set(lf.columns), "observations nobody downlinks are not reported without latency", sig="unmatched")
            for col in lf.columns:
                if kind(lf[col]) in ("datetime", "timedelta"):
                    c.check(kind(le[col]) == kind(lf[col]), "a column of undefined times is of another kind", sig="unmatched-kind", column=col, got=str(le[col].dtype))
            c.event("way:unmatched")
        else:
            gs_slow = GroundStation(name="G", latitude=clat, longitude=lon, min_access_time=timedelta(hours=6))
            for way, e in (("nobody", A.collect_downlinks([], sat, early, day)), ("antipode", A.collect_downlinks(gs_far, sat, start, minute)),
                           ("antipode", A.collect_downlinks([gs_far, gs_far], sat, start, minute)), ("access", A.collect_downlinks([gs_slow], sat, early, day))):
                pair(c, "downlinks", way, e, dfull)
                late(full, full, e, dfull, "no_downlinks")
                late(full[:0], full, e, dfull, way)
    elif g == "multi":
        full = A.collect_multi_observations(near, [sat], early, day, omit_solar=omit)
        ways = [("nobody", A.collect_multi_observations(near, [], early, day, omit_solar=omit)),
                ("antipode", A.collect_multi_observations(far, [sat, sat], start, minute, omit_solar=omit)),
                ("antipode", A.collect_multi_observations(far, sat, start, minute, omit_solar=omit)),
                ("access", A.collect_multi_observations(near, [slow], early, day, omit_solar=omit))]
        try:
            bare = Satellite(name="S", orbit=orbit, instruments=[])
        except ValueError:
            bare = None
        if bare is not None and len(bare.instruments) == 0:
            ways.append(("no_instrument", A.collect_multi_observations(near, [bare], early, day, omit_solar=omit)))
        else:
            c.event("way:no_instrument")
        for way, e in ways:
            pair(c, "multi", way, e, full)
            stages(e, full, way)
    elif g == "tracks":
        coords = A.OrbitCoordinate.WGS84 if case["crs2"] else A.OrbitCoordinate.ECEF
        full = A.collect_orbit_track(sat, times, coordinates=coords)
        m, way = mask_of(case)
        # optional outputs are asked for, and may be left out when there is nothing to report
        kw = dict(zip(["sat_sunlit", "solar_altaz", "solar_beta"], case["opts"]))
        opt = ["sat_sunlit", "solar_alt", "solar_az", "solar_beta", "velocity"]
        if case["opts"][3]:
            kw["orbit_output"] = A.OrbitOutput.POSITION_VELOCITY
        pair(c, "orbit_track", "no_times", A.collect_orbit_track(sat, [], coordinates=coords, **kw), full, opt)
        pair(c, "orbit_track", way, A.collect_orbit_track(sat, times, mask=m, coordinates=coords, **kw), full, opt)
        full = A.collect_ground_track(sat, times, crs=case["crs"])
        c.event("no_requirement_full")
        pair(c, "ground_track", "no_times", A.collect_ground_track(sat, [], crs=case["crs"]), full)
        pair(c, "ground_track", way, A.collect_ground_track(sat, times, mask=m, crs=case["crs"]), full)
        pair(c, "ground_track", way, A.collect_ground_track(sat, times[:1], mask=m, crs=case["crs"]), full)
    elif g == "gtrack":
        m, way = mask_of(case)
        never = None
        for flag in (True, False):
            s = Satellite(name="S", orbit=orbit, instruments=[Instrument(name="I", field_of_regard=case["fors"], req_self_sunlit=flag)])
            with core.suspend():
                if not A.collect_orbit_track(s, times[:3]).valid_obs.any():
                    never = s
        for method in ("point", "line"):
            if method == "line" and case["crs"] in ("spice", "utm"):
                crs = "EPSG:4087"
            else:
                crs = case["crs"]
            kw = {"method": method, "dissolve_orbits": case["dissolve"], "crs": crs}
            full = A.compute_ground_track(sat, times[:3], **kw)
            name = "track_" + method
            opt = ["orbit_id", "track_id"]
            pair(c, name, "no_times", A.compute_ground_track(sat, [], **kw), full, opt)
            pair(c, name, way, A.compute_ground_track(sat, times[:3], mask=m, **kw), full, opt)
            if never is not None:
                pair(c, name, "invalid", A.compute_ground_track(never, times[:3], **kw), full, opt)
                pair(c, name, "invalid", A.compute_ground_track(never, times[:3], mask=geo.box(-180, -90, 180, 90), **kw), full, opt)
    elif g == "pixels":
        p = Satellite(name="S", orbit=orbit, instruments=[PointedInstrument(name="P", field_of_regard=40, cross_track_field_of_view=6, along_track_field_of_view=4, is_rectangular=True, cross_track_pixels=2, along_track_pixels=2)])
        full = A.collect_ground_pixels(p, times[:2])
        m, way = mask_of(case)
        kw = dict(zip(["sat_altaz", "solar_altaz"], case["opts"]))
        opt = ["sat_alt", "sat_az", "solar_alt", "solar_az"]
        pair(c, "pixels", "no_times", A.collect_ground_pixels(p, [], **kw), full, opt)
        pair(c, "pixels", way, A.collect_ground_pixels(p, times[:4], mask=m, **kw), full, opt)
        pair(c, "pixels", way, A.collect_ground_pixels(p, times[:1], mask=m, **kw), full, opt)
    elif g == "ro":
        tx = [Satellite(name=f"T{k}", orbit=W.build_orbit({"type": "circular", "altitude": 20180e3, "inclination": 55.0, "true_anomaly": 60.0 * k, "right_ascension_ascending_node": 120.0 * k, "epoch": start.isoformat()})) for k in range(3)]
        ts = [start + timedelta(seconds=20 * k) for k in range(300)]
        full = A.collect_ro_observations(sat, tx, ts)
        pair(c, "ro", "nobody", A.collect_ro_observations(sat, [], ts[:5]), full)
        pair(c, "ro", "no_times", A.collect_ro_observations(sat, tx, []), full)
        pair(c, "ro", "impossible", A.collect_ro_observations(sat, tx, ts[:40], range_elevation=(4e8, 5e8)), full)
        pair(c, "ro", "impossible", A.collect_ro_observations(sat, tx[0], ts[:40], max_yaw=0), full)
    elif g == "dop":
        gps = [Satellite(name=f"T{k}", orbit=W.build_orbit({"type": "circular", "altitude": 20180e3, "inclination": 55.0, "true_anomaly": 75.0 * k % 360, "right_ascension_ascending_node": 51.0 * k % 360, "epoch": start.isoformat()})) for k in range(16)]
        method = A.DopMethod(case["kind"])
        full = A.compute_dop(times, near, gps, 5, method)
        pair(c, "dop", "no_times", A.compute_dop([], near, gps, 5, method), full)
        for way, e in (("nobody", A.compute_dop(times, near, [], 5, method)), ("no_visible", A.compute_dop(times, near, gps, 89.9999, method))):
            c.event("way:" + way)
            c.check(len(e) == len(times) and list(e.index) == times and e.dop.isna().all() and kind(e.dop) == "float" and set(e.columns) == set(full.columns) and e.crs == full.crs,
                    "without visible satellites the result is not an undefined value for each time", sig="dop-none", way=way, got=str(e)[:300])

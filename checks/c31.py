"""C31: the same request stated another way gets the same answer."""
import json
from datetime import timedelta, timezone

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely import geometry as geo

from vp import core, oracle as O, work as W

PROPERTY = "C31"
RULE = "a case counts when at least two statements of the same request were answered and compared row by row"
CASES = {"quick": 500, "thorough": 12000}
GROUPS = ["orbit_track", "ground_track", "pixels", "aggregate_track", "dop", "ro", "observations", "downlinks", "generation", "state"]
FUNCTIONS = ["tatc.analysis.track.collect_orbit_track", "tatc.analysis.track.collect_ground_track", "tatc.analysis.track.collect_ground_pixels", "tatc.analysis.track.compute_ground_track",
             "tatc.analysis.dop.compute_dop", "tatc.analysis.ro_coverage.collect_ro_observations", "tatc.analysis.coverage.collect_observations", "tatc.analysis.coverage.collect_multi_observations",
             "tatc.analysis.latency.collect_downlinks", "tatc.generation.points.generate_fibonacci_lattice_points", "tatc.generation.points.generate_equally_spaced_points", "tatc.generation.cells.generate_equally_spaced_cells"]
TIME_FORMS = ["tuple", "array", "index", "index_tz", "timestamps", "zoned", "mixed"]
MASK_FORMS = ["multi", "series", "frame", "turned", "reversed"]
REQUIRED_EVENTS = ["group:" + g for g in GROUPS] + ["call:" + f.split(".")[-1] for f in FUNCTIONS] + ["time:" + t for t in TIME_FORMS] + ["mask:" + m for m in MASK_FORMS] + [
    "one_by_one", "one_by_one_masked", "as_tle", "epoch_zone", "reloaded", "other_index", "text_option", "single_or_list", "numbers", "split_list", "mask_two_parts", "several_sets", "rows_compared", "zone_period"]
ASSUMPTIONS = ["answers are compared with 1e-7 relative tolerance (floating-point order of operations)", "time lists are sequences of aware datetimes without own labels"]


def install():
    for f in FUNCTIONS:
        core.hook(f, lambda c, a, r, e, t: None)


# ---- other ways of stating things ----

def time_form(times, form, rng):
    if form == "tuple":
        return tuple(times)
    if form == "array":
        return np.array(times)
    if form == "index":
        return pd.DatetimeIndex(times)
    if form == "index_tz":
        return pd.DatetimeIndex(times).tz_convert(["America/New_York", "Asia/Kolkata", "Pacific/Auckland"][int(rng.integers(3))])
    if form == "timestamps":
        return [pd.Timestamp(t) for t in times]
    if form == "zoned":
        z = timezone(timedelta(hours=float(rng.choice([-11, -7, 5.5, 13]))))
        return [t.astimezone(z) for t in times]
    return [t.astimezone(timezone(timedelta(hours=int(h)))) for t, h in zip(times, rng.integers(-12, 13, len(times)))]


def turned(p, rev):
    x = list(p.exterior.coords)[:-1]
    x = x[::-1] if rev else x[2:] + x[:2]
    return geo.Polygon(x)


def mask_form(parts, form):
    if form == "plain":
        return parts[0] if len(parts) == 1 else geo.MultiPolygon(parts)
    if form == "multi":
        return geo.MultiPolygon(parts)
    if form == "series":
        return gpd.GeoSeries(parts, index=[10 + 3 * i for i in range(len(parts))], crs="EPSG:4326")
    if form == "frame":
        return gpd.GeoDataFrame({"name": ["m"] * len(parts), "time": [1] * len(parts)}, geometry=list(parts), crs="EPSG:4326")
    q = [turned(p, form == "reversed") for p in parts][::-1]
    return q[0] if len(q) == 1 else geo.MultiPolygon(q)


# ---- comparison ----

def key(v):
    return pd.Timestamp(v).tz_convert("UTC").value


def close(a, b, rel, ab):
    if pd.isna(a) or pd.isna(b):
        return bool(pd.isna(a)) and bool(pd.isna(b))
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def same_geometry(a, b, rel):
    if (a is None or a.is_empty) or (b is None or b.is_empty):
        return (a is None or a.is_empty) == (b is None or b.is_empty)
    if a.geom_type in ("Point", "MultiPoint") or b.geom_type in ("Point", "MultiPoint"):
        pa = np.array([list(q.coords)[0] for q in getattr(a, "geoms", [a])])
        pb = np.array([list(q.coords)[0] for q in getattr(b, "geoms", [b])])
        return pa.shape == pb.shape and bool(np.allclose(pa, pb, rtol=rel, atol=1e-6, equal_nan=True))
    if a.equals_exact(b, 1e-7):
        return True
    a, b = a.buffer(0), b.buffer(0)
    zz = lambda g: sorted({round(q[2], 3) for p in getattr(g, "geoms", [g]) for q in p.exterior.coords if len(q) > 2})
    return a.symmetric_difference(b).area <= 1e-6 * max(a.area, b.area) + 1e-9 and (zz(a) == zz(b) or not zz(a) or not zz(b))


def same(c, what, way, a, b, rel=1e-7, sort=None, index=False):
    c.event("oracle_evaluations")
    sig = what + ":" + way
    if not c.check(list(a.columns) == list(b.columns) or set(a.columns) == set(b.columns), "other columns for the same request", sig=sig + ":columns", want=list(map(str, a.columns)), got=list(map(str, b.columns))):
        return
    if not c.check(len(a) == len(b), "another number of rows for the same request", sig=sig + ":rows", want=len(a), got=len(b)):
        return
    c.check(str(a.crs) == str(b.crs), "another reference system", sig=sig + ":crs", want=str(a.crs), got=str(b.crs))
    if index:
        c.check([key(x) for x in a.index] == [key(x) for x in b.index], "rows of other times", sig=sig + ":index")
    if sort:
        def order(f):
            return f.iloc[sorted(range(len(f)), key=lambda i: [key(f[k].iloc[i]) if "time" in str(f[k].dtype) or isinstance(f[k].iloc[i], pd.Timestamp) else f[k].iloc[i] for k in sort if k != "geometry"]
                                 + ([tuple(np.round(list(f.geometry.iloc[i].coords)[0], 5))] if "geometry" in sort else []))]
        a, b = order(a), order(b)
    for col in a.columns:
        for i in range(len(a)):
            x, y = a[col].iloc[i], b[col].iloc[i]
            c.event("rows_compared")
            if hasattr(x, "geom_type") or hasattr(y, "geom_type"):
                ok = same_geometry(x, y, rel)
            elif isinstance(x, (str, bool, np.bool_)) or x is None:
                ok = x == y or (x is None and y is None)
            elif isinstance(x, (pd.Timestamp,)) or hasattr(x, "tzinfo"):
                ok = abs(key(x) - key(y)) <= 2000
            elif isinstance(x, (pd.Timedelta, timedelta)):
                ok = abs(pd.Timedelta(x) - pd.Timedelta(y)) <= pd.Timedelta(microseconds=2)
            else:
                ok = close(float(x), float(y), rel, 2e-6)
                if not ok and col.endswith("_az") or col == "tp_tx_azimuth":
                    # an azimuth is ill-conditioned near the zenith
                    al = col[:-3] + "_alt"
                    flat = abs(np.cos(np.radians(float(a[al].iloc[i])))) if al in a.columns else 1.0
                    ok = abs((float(x) - float(y) + 180) % 360 - 180) < 1e-4 + 1e-6 / max(flat, 1e-8)
            if not ok:
                c.check(False, "another value for the same request", sig=sig + ":" + str(col), row=i, want=str(x)[:200], got=str(y)[:200])
                return


# ---- workload ----

def fixed_cases():
    return []


def gen(rng, i):
    g = GROUPS[i % len(GROUPS)]
    multi = rng.random() < 0.3
    ep = W.gen_epoch(rng)
    if multi:
        inc, raan, mm = W.r(rng.uniform(30, 110), 4), W.r(rng.uniform(0, 359), 4), W.r(rng.uniform(14.0, 15.6), 8)
        lines = []
        for j in range(int(rng.integers(2, 5))):
            lines += W.tle_text(ep + timedelta(minutes=int(j * rng.integers(20, 200))) if j else ep, inc, raan, W.r(rng.uniform(0, 0.01), 7), 40.0, W.r(rng.uniform(0, 359), 4), mm)
        e = sorted(zip(lines[::2], lines[1::2]), key=lambda p: p[0][18:32])
        orbit = {"type": "tle", "tle": [x for p in e for x in p]}
    else:
        orbit = W.gen_orbit(rng, kinds=("circular", "keplerian", "sso", "tle"), alt=(400e3, 1500e3), epoch=ep)
    instr = W.gen_instrument(rng, pointed=g == "pixels" or rng.random() < 0.35, fors=[20.0, 40.0, 75.0, 100.0])
    if "cross_track_field_of_view" in instr:
        instr.update(cross_track_field_of_view=W.r(rng.uniform(2, 25), 2), along_track_field_of_view=W.r(rng.uniform(2, 25), 2), roll_angle=W.r(rng.uniform(-15, 15), 1), pitch_angle=W.r(rng.uniform(-15, 15), 1), field_of_regard=90.0)
        if g == "pixels":
            instr.update(is_rectangular=True, cross_track_pixels=int(rng.integers(1, 5)), along_track_pixels=int(rng.integers(1, 4)))
    return {"group": g, "orbit": orbit, "instr": instr, "seed": int(rng.integers(1 << 30)), "n": int(rng.choice([1, 2, 3, 7, 15])), "step": float(rng.choice([10.0, 45.0, 200.0, 900.0, 4000.0])),
            "frac": int(rng.integers(0, 2)) * int(rng.integers(0, 1000000)), "shuffle": bool(rng.random() < 0.2), "z": float(rng.choice([0.0, 0.0, 500.0, 3000.0])), "masked": bool(rng.random() < 0.55), "two": bool(rng.random() < 0.4),
            "place": W.gen_place(rng), "offset": int(rng.integers(-20000, 20000)), "opts": [bool(rng.random() < 0.5) for _ in range(4)], "pick": int(rng.integers(0, 1000)), "crs": str(rng.choice(["EPSG:4087", "EPSG:4087", "utm", "spice"]))}


def run(case, c):
    from tatc import config
    for k in ("repeat_cycle_for_orbit_track", "repeat_cycle_for_observation_events"):
        setattr(config.rc, k, False)
    try:
        _run(case, c)
    finally:
        for k in ("repeat_cycle_for_orbit_track", "repeat_cycle_for_observation_events"):
            setattr(config.rc, k, True)


def _run(case, c):
    from tatc import analysis as A, generation as G
    from tatc.analysis.dop import DopMethod
    from tatc.schemas import GroundStation, Point, Satellite
    rng = np.random.default_rng(case["seed"])
    g = case["group"]
    c.event("group:" + g)
    orbit = W.build_orbit(case["orbit"])
    inst = W.build_instrument(case["instr"])
    sat = Satellite(name="S", orbit=orbit, instruments=[inst])
    if case["orbit"]["type"] == "tle" and len(case["orbit"]["tle"]) > 2:
        c.event("several_sets")
    start = (W.orbit_epoch(case["orbit"]) + timedelta(seconds=case["offset"])).replace(microsecond=case["frac"])
    times = [start + timedelta(seconds=k * case["step"]) for k in range(case["n"])]
    if case["shuffle"]:
        times = [times[i] for i in rng.permutation(len(times))]
    z = case["z"]
    o = case["opts"]

    # a region near the track
    tle = orbit.to_tle()
    with core.suspend():
        at = times[int(rng.integers(len(times)))]
        p, _ = O.state_ecef(tle.tle[2 * _closest(tle, at):][:2], O.ts_at(at, 0.0))
        la, lo, _ = (float(x) for x in O.ecef_to_geodetic(p))
    w, h = rng.uniform(4, 60), rng.uniform(4, 40)
    x0, y0 = np.clip(lo - w * rng.uniform(0.2, 0.8), -179, 179 - w), np.clip(la - h * rng.uniform(0.2, 0.8), -88, 88 - h)
    parts = [geo.Polygon([(x0, y0), (x0 + w, y0 + 0.1 * h), (x0 + 0.9 * w, y0 + h), (x0 + 0.1 * w, y0 + 0.8 * h)])]
    if case["two"]:
        parts = [geo.box(x0, y0, x0 + 0.4 * w, y0 + h), geo.box(x0 + 0.6 * w, y0, x0 + w, y0 + h)]
        c.event("mask_two_parts")
    mask = mask_form(parts, "plain") if case["masked"] else None

    def sats():
        """other statements of the same satellite: (way, satellite, instrument index)"""
        other = W.build_instrument({"name": "other", "field_of_regard": 3.0})
        out = [("other_index", Satellite(name="S", orbit=orbit, instruments=[other, inst, other]), 1),
               ("as_tle", Satellite(name="S", orbit=orbit.to_tle(), instruments=[inst]), 0),
               ("reloaded", Satellite.model_validate_json(sat.model_dump_json()), 0),
               ("reloaded", Satellite(**json.loads(json.dumps(sat.model_dump(mode="json")))), 0)]
        if "epoch" in case["orbit"]:
            zone = timezone(timedelta(hours=float(rng.choice([-9, 4, 5.5]))))
            out.append(("epoch_zone", Satellite(name="S", orbit=W.build_orbit(dict(case["orbit"], epoch=W.orbit_epoch(case["orbit"]).astimezone(zone))), instruments=[inst]), 0))
        return [out[i] for i in rng.permutation(len(out))[:2]]

    def forms(n):
        return [TIME_FORMS[(case["pick"] + i) % len(TIME_FORMS)] for i in range(n)]

    def tracks(what, call, sort, rel=1e-7, single=True):
        """call(satellite, times, index, mask)"""
        base = call(sat, times, 0, mask)
        for f in forms(2):
            same(c, what, "time:" + f, base, call(sat, time_form(times, f, rng), 0, mask), rel, sort)
            c.event("time:" + f)
        if mask is not None:
            f = MASK_FORMS[case["pick"] % len(MASK_FORMS)]
            same(c, what, "mask:" + f, base, call(sat, times, 0, mask_form(parts, f)), rel, sort)
            c.event("mask:" + f)
        for way, s, k in sats():
            same(c, what, way, base, call(s, times, k, mask), rel, sort)
            c.event(way)
        if single and len(times) > 1:
            # one at a time, and in two halves
            alone = [call(sat, [t], 0, mask) for t in times]
            full = [x for x in alone if len(x)]
            if mask is None or full:
                joined = pd.concat(full) if full else alone[0]
                same(c, what, "one_by_one", base, joined[list(base.columns)] if set(base.columns) == set(joined.columns) else joined, rel, sort)
            else:
                c.check(len(base) == 0, "rows only when asked together", sig=what + ":one_by_one:rows", got=len(base))
            c.event("one_by_one" if mask is None else "one_by_one_masked")
            k = len(times) // 2
            halves = [x for x in (call(sat, times[:k], 0, mask), call(sat, times[k:], 0, mask)) if len(x)]
            if halves:
                joined = pd.concat(halves)
                same(c, what, "split_list", base, joined[list(base.columns)] if set(base.columns) == set(joined.columns) else joined, rel, sort)
            else:
                c.check(len(base) == 0, "rows only when asked together", sig=what + ":split_list:rows", got=len(base))
            c.event("split_list")
        return base

    if g == "orbit_track":
        co, out = list(A.OrbitCoordinate)[case["pick"] % 3], list(A.OrbitOutput)[case["pick"] % 2]
        kw = dict(sat_sunlit=o[0], solar_altaz=o[1], solar_beta=o[2])
        base = tracks(g, lambda s, t, k, m: A.collect_orbit_track(s, t, k, z, m, co, out, **kw), ["time"])
        same(c, g, "text_option", base, A.collect_orbit_track(sat, times, 0, z, mask, co.value, out.value, **kw), sort=["time"])
        c.event("text_option")
        if z == int(z):
            same(c, g, "numbers", base, A.collect_orbit_track(sat, times, 0, int(z), mask, co, out, **kw), sort=["time"])
            c.event("numbers")
    elif g == "ground_track":
        base = tracks(g, lambda s, t, k, m: A.collect_ground_track(s, t, k, z, m, case["crs"], o[0], o[1]), ["time"])
        same(c, g, "numbers", base, A.collect_ground_track(sat, times, 0, np.float64(z) if o[2] else int(z), mask, case["crs"], o[0], o[1]), sort=["time"])
        c.event("numbers")
    elif g == "pixels":
        tracks(g, lambda s, t, k, m: A.collect_ground_pixels(s, t, k, z, m, o[0], o[1]), ["time", "geometry"])
    elif g == "aggregate_track":
        times = sorted(times)
        method = "line" if o[0] else "point"
        crs = case["crs"] if method == "point" else "EPSG:4087"
        tracks(g, lambda s, t, k, m: A.compute_ground_track(s, t, k, z, m, crs, method, o[1]).drop(columns=["time"], errors="ignore"), None, single=False)
    elif g == "dop":
        others = []
        for k in range(int(rng.integers(4, 9))):
            d = W.gen_orbit(rng, kinds=("circular",), alt=(8000e3, 20200e3), epoch=W.orbit_epoch(case["orbit"]))
            others.append(Satellite(name=f"T{k}", orbit=W.build_orbit(d)))
        pt = Point(id=1, **case["place"])
        m = list(DopMethod)[case["pick"] % 5]
        base = A.compute_dop(times, pt, others + [sat], -20.0, m, 3)
        for f in forms(2):
            same(c, g, "time:" + f, base, A.compute_dop(time_form(times, f, rng), pt, others + [sat], -20.0, m, 3), 1e-5, index=True)
            c.event("time:" + f)
        same(c, g, "text_option", base, A.compute_dop(times, pt, others + [sat], -20, m.value, 3), 1e-5, index=True)
        for way, s, k in sats():
            same(c, g, way, base, A.compute_dop(times, pt, others + [s], -20.0, m, 3), 1e-5, index=True)
            c.event(way)
        if len(times) > 1:
            same(c, g, "one_by_one", base, pd.concat([A.compute_dop([t], pt, others + [sat], -20.0, m, 3) for t in times]), 1e-5, index=True)
            c.event("one_by_one")
    elif g == "ro":
        times = [start + timedelta(seconds=20 * k) for k in range(120)]
        tx = [Satellite(name=f"T{k}", orbit=W.build_orbit(W.gen_orbit(rng, kinds=("circular",), alt=(15000e3, 20200e3), epoch=W.orbit_epoch(case["orbit"])))) for k in range(2)]
        call = lambda s, x, t: A.collect_ro_observations(s, x, t)
        key2 = ["transmitter", "start"]
        base = call(sat, tx, times)
        for f in forms(2):
            same(c, g, "time:" + f, base, call(sat, tx, time_form(times, f, rng)), sort=key2)
            c.event("time:" + f)
        for way, s, k in sats():
            same(c, g, way, base, call(s, tx, times), sort=key2)
            c.event(way)
        same(c, g, "order", base, call(sat, tx[::-1], times), sort=key2)
        one = call(sat, tx[0], times)
        same(c, g, "single_or_list", one, call(sat, [tx[0]], times), sort=key2)
        same(c, g, "split_list", base[base.transmitter == "T0"], one, sort=key2)
        c.event("single_or_list")
    elif g in ("observations", "downlinks"):
        pt = Point(id=int(rng.integers(100)), latitude=W.r(np.clip(la + rng.uniform(-3, 3), -89, 89), 4), longitude=W.r((lo + rng.uniform(-3, 3) + 540) % 360 - 180, 4), elevation=z)
        a, b = start - timedelta(hours=float(rng.uniform(0, 4))), start + timedelta(hours=float(rng.uniform(1, 12)))
        z1, z2 = (timezone(timedelta(hours=float(x))) for x in rng.choice([-10, -3.5, 2, 5.75, 12], 2))
        periods = [(a.astimezone(z1), b.astimezone(z2)), (pd.Timestamp(a), pd.Timestamp(b)), (a.astimezone(z2), b)]
        st = GroundStation(name="G", latitude=pt.latitude, longitude=pt.longitude, elevation=z, min_elevation_angle=float(rng.choice([0, 5, 12.5])))
        if g == "observations":
            call = lambda s, k, u, v: A.collect_observations(pt, s, u, v, k, not o[1])
            base = call(sat, 0, a, b)
            many = lambda x: A.collect_multi_observations(pt, x, a, b, not o[1])
            m1 = many(sat)
            same(c, g, "single_or_list", m1, many([sat]))
            same(c, g, "single_or_list", base.sort_values("start"), m1)
            s2 = Satellite(name="R", orbit=W.build_orbit(W.gen_orbit(rng, kinds=("circular",), alt=(400e3, 1500e3), epoch=W.orbit_epoch(case["orbit"]))), instruments=[inst])
            same(c, g, "order", many([sat, s2]), many([s2, sat]), sort=["satellite", "start"])
        else:
            call = lambda s, k, u, v: A.collect_downlinks([st], s, u, v)
            base = call(sat, 0, a, b)
            same(c, g, "single_or_list", base, A.collect_downlinks(st, sat, a, b))
            s2 = GroundStation(name="H", latitude=-pt.latitude / 2, longitude=pt.longitude, min_elevation_angle=10)
            same(c, g, "order", A.collect_downlinks([st, s2], sat, a, b), A.collect_downlinks([s2, st], sat, a, b), sort=["station", "start"])
            same(c, g, "split_list", A.collect_downlinks([st, s2], sat, a, b), pd.concat([base, A.collect_downlinks([s2], sat, a, b)]) if len(base) else A.collect_downlinks([s2], sat, a, b), sort=["station", "start"])
        c.event("single_or_list")
        u, v = periods[case["pick"] % 3]
        same(c, g, "zone_period", base, call(sat, 0, u, v))
        c.event("zone_period")
        for way, s, k in sats():
            same(c, g, way, base, call(s, k, a, b))
            c.event(way)
    elif g == "generation":
        d = int(rng.integers(300, 3000)) * 1000
        fn = [lambda m, d=d, z=z: G.generate_fibonacci_lattice_points(d, z, m), lambda m, d=d, z=z: G.generate_equally_spaced_points(d, z, m),
              lambda m, d=d, z=z: G.generate_equally_spaced_cells(d, z, m, [None, "lat", "lon"][case["pick"] % 3])]
        for k, f in enumerate(fn):
            idc = ["cell_id" if k == 2 else "point_id"]
            base = f(mask)
            same(c, g, "numbers", base, f(mask, d=float(d), z=int(z)), sort=idc)
            same(c, g, "numbers", base, f(mask, d=np.float64(d), z=np.float64(z)), sort=idc)
            c.event("numbers")
            if mask is not None:
                for form in ("multi", "turned", "reversed"):
                    same(c, g, "mask:" + form, base, f(mask_form(parts, form)), sort=idc)
                    c.event("mask:" + form)
    else:
        # states and positions
        x = lambda s, t: s.orbit.to_tle().get_orbit_track(t)
        def state(s, t):
            q = x(s, t)
            return np.atleast_2d(np.vstack([q.position.m.reshape(3, -1), 1000 * q.velocity.m_per_s.reshape(3, -1)]).T)
        base = state(sat, times)

        def cmp(way, other):
            c.event("oracle_evaluations")
            c.check(base.shape == other.shape and bool(np.allclose(base, other, rtol=1e-9, atol=0.05)), "another state for the same request", sig="state:" + way,
                    worst=float(np.abs(base - other).max()) if base.shape == other.shape else None)
        for f in forms(3):
            cmp("time:" + f, state(sat, time_form(times, f, rng)))
            c.event("time:" + f)
        cmp("one_by_one", np.vstack([state(sat, t) for t in times]))
        cmp("one_by_one", np.vstack([state(sat, pd.Timestamp(t)) for t in times]))
        c.event("one_by_one")
        for way, s, k in sats():
            cmp(way, state(s, times))
            c.event(way)


def _closest(tle, t):
    n = len(tle.tle) // 2
    return min(range(n), key=lambda i: abs(tle.get_epoch(i) - t))

"""C25: analyses are pure: same inputs, same results, inputs untouched; caches never stale."""
import copy
import json
import pickle
from datetime import datetime, timedelta

import geopandas as gpd
import numpy as np
import pandas as pd
import shapely
from pydantic import BaseModel
from shapely import geometry as geo

from vp import core, tables as TB, work as W
from checks import c05, c07, c22

PROPERTY = "C25"
RULE = "a case counts when a history of calls, updates and copies over shared objects was run and every call compared with the same call on newly built objects"
CASES = {"quick": 300, "thorough": 12000}
ORBIT_CALLS = ["tle", "track", "cycle", "events", "derived", "closest", "getters"]
SAT_CALLS = ["observe", "multi", "downlinks", "orbit_track", "ground_track", "gtrack", "pixels", "dop", "ro", "members"]
TABLE_CALLS = ["aggregate", "reduce", "latencies", "reduce_lat", "grid_obs", "grid_lat"]
GEO_CALLS = ["points", "fibonacci", "cells", "split", "normalize"]
REQUIRED_EVENTS = ["compared:" + x for x in ORBIT_CALLS + SAT_CALLS + TABLE_CALLS + GEO_CALLS] + [
    "op:set", "op:model_copy", "op:deepcopy", "op:pickle", "op:json", "op:share", "op:instrument", "op:lazy", "op:scribble", "op:tle", "cycle_then_set", "after_set", "after_copy", "repeated", "arguments_unmodified"]
ASSUMPTIONS = ["fields are changed by assignment or by copying with changes, not by editing the element-set list in place", "element sets handed out by an orbit are not modified by the caller",
               "search settings of repeat cycles stay the same within a history (an earlier search is reused by design while lazy loading is on)", "results compared to a relative 1e-9"]


def shot(v, depth=0):
    """Deep value snapshot of an argument."""
    if isinstance(v, BaseModel):
        return (type(v).__name__, v.model_dump_json(), [id(x) for x in v.__dict__.get("instruments", [])] if "instruments" in type(v).model_fields else None)
    if isinstance(v, (gpd.GeoDataFrame, pd.DataFrame)):
        return ("frame", TB.snapshot(v), str(getattr(v, "crs", None)), str(v.index.name), str(v._geometry_column_name) if isinstance(v, gpd.GeoDataFrame) else None)
    if isinstance(v, (gpd.GeoSeries, pd.Series)):
        return ("series", [str(x) for x in v], list(v.index))
    if isinstance(v, shapely.Geometry):
        return ("geom", v.wkb)
    if isinstance(v, np.ndarray):
        return ("array", v.dtype.str, v.tobytes() if v.dtype != object else str(v.tolist()))
    if isinstance(v, (list, tuple)) and depth < 3:
        return (type(v).__name__, [shot(x, depth + 1) for x in v])
    if isinstance(v, dict) and depth < 3:
        return ("dict", {str(k): shot(x, depth + 1) for k, x in v.items()})
    if hasattr(v, "position") and hasattr(v, "velocity"):
        return ("track", shot(np.asarray(v.position.m)), shot(np.asarray(v.velocity.m_per_s)))
    if isinstance(v, (int, float, str, bool, datetime, timedelta, type(None))):
        return repr(v)
    return type(v).__name__


def pre(c, a):
    return {k: shot(v) for k, v in a.items()}


def post(name):
    def f(c, a, r, exc, token):
        for k, v in a.items():
            c.event("arguments_unmodified")
            now = shot(v)
            c.check(now == token[k], f"{name} modifies its argument {k}", sig=f"modified:{name}:{k}", before=str(token[k])[:400], after=str(now)[:400])
    return f


def install():
    A, G, U = "tatc.analysis.", "tatc.generation.", "tatc.utils."
    names = [A + "coverage." + n for n in ("collect_observations", "collect_multi_observations", "aggregate_observations", "reduce_observations", "grid_observations")]
    names += [A + "latency." + n for n in ("collect_downlinks", "compute_latencies", "reduce_latencies", "grid_latencies")]
    names += [A + "track." + n for n in ("collect_orbit_track", "collect_ground_track", "compute_ground_track", "collect_ground_pixels")]
    names += [A + "dop.compute_dop", A + "ro_coverage.collect_ro_observations", U + "normalize_geometry", U + "split_polygon", U + "compute_footprint", U + "compute_limb"]
    names += [G + "points." + n for n in ("generate_equally_spaced_points", "generate_fibonacci_lattice_points")] + [G + "cells.generate_equally_spaced_cells"]
    T = "tatc.schemas.orbit.TwoLineElements."
    names += [T + n for n in ("get_orbit_track", "get_observation_events", "get_repeat_cycle", "get_closest_tle_index", "partition_by_tle_index", "get_derived_orbit")]
    names += [f"tatc.schemas.orbit.{k}.{n}" for k in ("CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit") for n in ("to_tle", "get_derived_orbit")]
    names += [f"tatc.schemas.satellite.{k}.generate_members" for k in ("TrainConstellation", "WalkerConstellation", "MOGConstellation", "SOCConstellation")]
    for n in names:
        core.hook(n, post(n.split(".")[-1]), pre=pre)


# ---- comparison of results

def same(a, b):
    if isinstance(a, gpd.GeoDataFrame) or isinstance(a, pd.DataFrame):
        return (type(a) is type(b) and list(a.columns) == list(b.columns) and len(a) == len(b) and list(a.index) == list(b.index)
                and str(getattr(a, "crs", None)) == str(getattr(b, "crs", None)) and all(same(list(a[k]), list(b[k])) for k in a.columns))
    if isinstance(a, BaseModel):
        return type(a) is type(b) and same(a.model_dump(), b.model_dump())
    if isinstance(a, shapely.Geometry):
        return isinstance(b, shapely.Geometry) and a.geom_type == b.geom_type and (a.wkb == b.wkb or a.equals_exact(b, 1e-9) or (a.is_empty and b.is_empty))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and (np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True) if a.dtype != object else same(a.tolist(), b.tolist()))
    if a is pd.NaT or b is pd.NaT or a is None or b is None:
        return pd.isnull(a) and pd.isnull(b)
    if isinstance(a, (datetime, pd.Timestamp)):
        return isinstance(b, datetime) and abs(a - b) <= timedelta(microseconds=2)
    if isinstance(a, (timedelta, pd.Timedelta, np.timedelta64)):
        return abs(pd.Timedelta(a) - pd.Timedelta(b)) <= pd.Timedelta(microseconds=2)
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        return bool(np.isclose(float(a), float(b), rtol=1e-9, atol=1e-9, equal_nan=True))
    return a == b


# ---- the world: descriptions and the aged objects made from them

class World:
    def __init__(self, case):
        self.case = case
        self.ep = W.orbit_epoch(case["sats"][0]["orbit"])
        self.desc = copy.deepcopy(case["sats"])
        self.live = [self.build(d) for d in self.desc]
        self.system_desc = copy.deepcopy(case["systems"])
        self.systems = [self.build_system(d) for d in self.system_desc]
        self.inputs = self.make_inputs()
        self.touched = [set() for _ in self.live]

    def build(self, d):
        return W.build_satellite(d["name"], d["orbit"], d["instruments"])

    def build_system(self, d):
        from tatc.schemas import MOGConstellation, SOCConstellation, TrainConstellation, WalkerConstellation
        cls = {"train": TrainConstellation, "walker": WalkerConstellation, "mog": MOGConstellation, "soc": SOCConstellation}[d["type"]]
        kw = {k: v for k, v in d.items() if k not in ("orbit", "instruments", "interval", "type")}
        if "interval" in d:
            kw["interval"] = timedelta(seconds=d["interval"])
        return cls(orbit=W.build_orbit(d["orbit"]), instruments=[W.build_instrument(i) for i in d["instruments"]], **kw)

    def make_inputs(self):
        """Everything else the calls take, built from the case (shared or new)."""
        from tatc.schemas import GroundStation, Point
        k = self.case
        ep = self.ep
        inp = {"times": [ep + timedelta(seconds=x) for x in k["times"]], "points": [Point(id=i, **p) for i, p in enumerate(k["places"])],
               "stations": [GroundStation(name=f"G{i}", min_elevation_angle=5.0 * i, latitude=p["latitude"], longitude=p["longitude"], elevation=p["elevation"]) for i, p in enumerate(k["places"])],
               "start": ep + timedelta(seconds=k["start"]), "end": ep + timedelta(seconds=k["start"] + k["hours"] * 3600)}
        inp["mask"] = geo.box(*k["mask"])
        inp["maskset"] = gpd.GeoDataFrame({"geometry": [geo.box(*k["mask"]), geo.box(-170, -40, -120, 10)], "name": ["a", "b"]}, crs="EPSG:4326")
        inp["crossing"] = geo.Polygon([(170, -20), (-170, -20), (-165, 15), (172, 20)])
        t = k["tables"]
        inp["obs"] = TB.shuffle(TB.observations(t["obs"], t["points"]), 3)
        inp["down"] = TB.shuffle(TB.downlinks(t["dl"], t["stations"]), 4)
        inp["cells"] = c05.make_cells({"cells": "boxes", "step": 45.0}, np.random.default_rng(5), core.Ctx())
        return inp


def getters(o):
    out = {}
    for n in ("get_mean_anomaly", "get_semimajor_axis", "get_mean_motion", "get_orbit_period", "get_inclination", "get_right_ascension_ascending_node", "get_altitude", "get_true_anomaly",
              "get_epoch", "get_catalog_number", "get_eccentricity", "get_perigee_argument", "get_tle_count"):
        if hasattr(o, n):
            out[n] = getattr(o, n)()
    return out


def call(name, sats, systems, inp, k):
    import tatc.analysis as A
    import tatc.generation as Gn
    from tatc import utils as U
    from tatc.analysis.dop import DopMethod
    s = sats[k["i"] % len(sats)] if sats else None
    two = [s, sats[k["j"] % len(sats)]] if sats else None
    n = k["n"]
    # calls hand over the caller's own lists and objects
    times = inp["times"] if n % 3 else inp["times"][: 1 + n % 4]
    start, end = inp["start"], inp["end"]
    pt, st = inp["points"][n % len(inp["points"])], inp["stations"]
    mask = [None, inp["mask"], inp["maskset"]][n % 3]
    if name == "tle":
        return list(s.orbit.to_tle().tle)
    if name == "track":
        g = s.orbit.to_tle().get_orbit_track(times if n % 2 else times[0])
        return [np.asarray(g.position.m), np.asarray(g.velocity.m_per_s)]
    if name == "cycle":
        return s.orbit.to_tle().get_repeat_cycle()
    if name == "events":
        t, e = s.orbit.to_tle().get_observation_events(pt, start, end, 10.0)
        return [[x.utc_datetime() for x in t] if len(e) else [], [int(x) for x in e]]
    if name == "derived":
        return s.orbit.get_derived_orbit(20.0 + n, 350.0)
    if name == "closest":
        t = s.orbit.to_tle()
        return [t.get_closest_tle_index(times), t.get_closest_tle_index(times[0])]
    if name == "getters":
        return [getters(s.orbit), getters(s.orbit.to_tle())]
    if name == "observe":
        return A.collect_observations(pt, s, start, end, instrument_index=n % len(s.instruments), omit_solar=bool(n % 2))
    if name == "multi":
        return A.collect_multi_observations(pt, two if n % 2 else systems[n % len(systems)], start, start + (end - start) / 3)
    if name == "downlinks":
        return A.collect_downlinks(st if n % 2 else st[0], s, start, end)
    if name == "orbit_track":
        return A.collect_orbit_track(s, times, n % len(s.instruments), mask=mask)
    if name == "ground_track":
        return A.collect_ground_track(s, times, n % len(s.instruments), mask=mask)
    if name == "gtrack":
        return A.compute_ground_track(s, times, n % len(s.instruments), mask=mask, method=["point", "line"][n % 2])
    if name == "pixels":
        p = next((x for x in sats if any(hasattr(q, "roll_angle") for q in x.instruments)), None)
        return None if p is None else A.collect_ground_pixels(p, times[:2], next(q for q, x in enumerate(p.instruments) if hasattr(x, "roll_angle")))
    if name == "dop":
        return A.compute_dop(times, pt, [m for x in two for m in x.generate_members()] + list(sats), 5.0, DopMethod.GDOP if n % 2 else DopMethod.HDOP, min_count_visible=3)
    if name == "ro":
        return A.collect_ro_observations(s, two[1] if n % 2 else sats, times)
    if name == "members":
        return [m.model_dump() for m in systems[n % len(systems)].generate_members()]
    if name == "aggregate":
        return A.aggregate_observations(inp["obs"])
    if name == "reduce":
        return A.reduce_observations(inp["agg"])
    if name == "latencies":
        return A.compute_latencies(inp["obs"], inp["down"])
    if name == "reduce_lat":
        return A.reduce_latencies(inp["lat"])
    if name == "grid_obs":
        return A.grid_observations(inp["red"], inp["cells"])
    if name == "grid_lat":
        return A.grid_latencies(inp["redlat"], inp["cells"])
    if name == "points":
        return Gn.generate_equally_spaced_points(3e6, mask=[None, inp["mask"], inp["crossing"]][n % 3])
    if name == "fibonacci":
        return Gn.generate_fibonacci_lattice_points(3e6, mask=[None, inp["mask"], inp["crossing"]][n % 3])
    if name == "cells":
        return Gn.generate_equally_spaced_cells(3e6, mask=[None, inp["mask"], inp["crossing"]][n % 3])
    if name == "split":
        return U.split_polygon(inp["crossing"])
    if name == "normalize":
        return U.normalize_geometry([inp["mask"], inp["crossing"], inp["maskset"]][n % 3])
    raise KeyError(name)


def derive_tables(inp):
    """Intermediate tables of the reduction pipelines (made once, then shared)."""
    from tatc.analysis import aggregate_observations, compute_latencies, reduce_latencies, reduce_observations
    inp["agg"] = aggregate_observations(inp["obs"])
    inp["red"] = reduce_observations(inp["agg"])
    inp["lat"] = compute_latencies(inp["obs"], inp["down"])
    inp["redlat"] = reduce_latencies(inp["lat"])


def outcome(f):
    try:
        return "ok", f()
    except Exception as e:  # noqa: BLE001
        return "raised", type(e).__name__


def scribble(r):
    """The caller modifies a table it was given."""
    if isinstance(r, pd.DataFrame) and len(r):
        for k in list(r.columns):
            if k != "geometry":
                r[k] = None
        r.drop(r.index[:1], inplace=True)
        return True
    if isinstance(r, list) and r and isinstance(r[0], (int, float, list)):
        r.clear()
        return True
    return False


def run(case, c):
    from tatc import config
    rc0 = config.rc
    base = {"repeat_cycle_search_duration_days": 1.15}
    try:
        config.rc = config.RuntimeConfiguration(**base)
        w = World(case)
        derive_tables(w.inputs)
        seen = {}
        for n, op in enumerate(case["ops"]):
            kind = op["op"]
            i = op.get("i", 0) % len(w.live)
            if kind == "lazy":
                base.update(op["rc"])
                config.rc = config.RuntimeConfiguration(**base)
                c.event("op:lazy")
            elif kind == "set":
                d, o = w.desc[i]["orbit"], w.live[i].orbit
                f, v = op["field"], op["value"]
                if d["type"] == "tle":
                    f, v = "tle", op["tle"]
                    c.event("op:tle")
                elif f not in d:
                    f = "altitude"
                    v = op["altitude"]
                if op["read_first"]:
                    t = outcome(lambda: o.to_tle())
                    if d["type"] == "tle" and op["n"] % 2:
                        found = outcome(lambda: t[1].get_repeat_cycle())
                        if found[0] == "ok" and found[1] is not None:
                            c.event("cycle_then_set")
                setattr(o, f, datetime.fromisoformat(v) if f == "epoch" else v)
                d[f] = v
                if d["type"] == "tle" and op["read_first"] and op["n"] % 2 and found[1] is not None:
                    with core.suspend():
                        want = outcome(lambda: type(o)(tle=list(v)).get_repeat_cycle())
                    got = outcome(lambda: o.get_repeat_cycle())
                    c.check(got == want, "the repeat cycle does not follow the element set", sig="stale-cycle", got=str(got), want=str(want))
                w.touched[i].add("set")
                c.event("op:set")
            elif kind == "instrument":
                q = op["n"] % len(w.live[i].instruments)
                w.live[i].instruments[q].field_of_regard = op["fov"]
                w.desc[i]["instruments"][q]["field_of_regard"] = op["fov"]
                c.event("op:instrument")
            elif kind in ("model_copy", "deepcopy", "pickle", "json"):
                src, d = w.live[i], copy.deepcopy(w.desc[i])
                if op["warm"]:
                    outcome(lambda: src.orbit.to_tle().get_repeat_cycle())
                if kind == "model_copy":
                    f, v = op["field"], op["value"]
                    if d["orbit"]["type"] == "tle":
                        f, v = "tle", op["tle"]
                    elif f not in d["orbit"]:
                        f, v = "altitude", op["altitude"]
                    up = {f: datetime.fromisoformat(v) if f == "epoch" else v} if op["warm"] else None
                    new = src.model_copy(update={"orbit": src.orbit.model_copy(update=up, deep=bool(op["n"] % 2)), "instruments": copy.deepcopy(src.instruments)})
                    if up:
                        d["orbit"][f] = v
                else:
                    new = {"deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x)), "json": lambda x: type(x).model_validate_json(x.model_dump_json())}[kind](src)
                c.event("op:" + kind)
                if len(w.live) < 6:
                    w.live.append(new)
                    w.desc.append(d)
                    w.touched.append({"copy"})
                else:
                    w.live[i], w.desc[i], w.touched[i] = new, d, {"copy"}
            elif kind == "share":
                j = op["j"] % len(w.live)
                if i != j:
                    w.live[j].orbit = w.live[i].orbit
                    w.desc[j]["orbit"] = w.desc[i]["orbit"]
                    c.event("op:share")
            else:
                name = op["name"]
                group = name in TABLE_CALLS + GEO_CALLS
                got = outcome(lambda: call(name, w.live, w.systems, w.inputs, op))
                with core.suspend():
                    fresh_in = w.make_inputs()
                    if name in TABLE_CALLS:
                        derive_tables(fresh_in)
                    sats = [] if group else [w.build(d) for d in w.desc]
                    systems = [] if group else [w.build_system(d) for d in w.system_desc]
                    want = outcome(lambda: call(name, sats, systems, fresh_in, op))
                c.event("compared:" + name)
                c.event("call_raised:" + name, got[0] == "raised")
                if not group:
                    for t in w.touched[op["i"] % len(w.live)]:
                        c.event("after_" + t)
                key = (name, op["i"], op["n"])
                c.event("repeated", key in seen)
                seen[key] = n
                ok = got[0] == want[0] and same(got[1], want[1])
                c.check(ok, "a call on objects with a history gives another result than the same call on new objects", sig="history:" + name, call=op, step=n, touched=sorted(w.touched[op["i"] % len(w.live)]) if not group else [],
                        got=str(got)[:300], want=str(want)[:300], history=[o.get("op") + ":" + str(o.get("name", "")) for o in case["ops"][: n + 1]])
                if op.get("scribble") and got[0] == "ok" and scribble(got[1]):
                    c.event("op:scribble")
            c.state(kind, op.get("name", ""), *sorted(w.touched[i]), *(str(v)[0] for v in (base.get("orbit_tle_lazy_load", True), base.get("repeat_cycle_lazy_load", True))))
        # nothing built along the way has gone stale
        for i, (o, d) in enumerate(zip(w.live, w.desc)):
            with core.suspend():
                want = outcome(lambda: list(w.build(d).orbit.to_tle().tle))
            got = outcome(lambda: list(o.orbit.to_tle().tle))
            c.check(got == want, "an orbit's element set does not follow its fields", sig="stale-tle", got=got, want=want, i=i)
        with core.suspend():
            fresh = w.make_inputs()
        for k in fresh:
            c.check(shot(fresh[k]) == shot(w.inputs[k]), "an input changed in the course of a history", sig="input:" + k, got=str(shot(w.inputs[k]))[:300])
    finally:
        config.rc = rc0


# ---- workload

def new_tle(rng, epoch, count):
    out = []
    t = epoch
    inc, alt = rng.uniform(20, 110), rng.uniform(4e5, 1.2e6)
    if count == 1 and rng.random() < 0.6:
        inc = float(rng.uniform(50, 100))
        alt = c22.resonant(inc, float(rng.choice([15.0, 14.0]))) or 6e5
    for _ in range(count):
        out += W.tle_text(t, inc, rng.uniform(0, 359), 0.001, rng.uniform(0, 359), rng.uniform(0, 359), W.mean_motion(alt))
        t += timedelta(hours=float(rng.uniform(1, 8)))
    return out


def gen(rng, i):
    ep = W.gen_epoch(rng)
    sats = []
    for q in range(int(rng.integers(2, 4))):
        u = rng.random()
        if u < 0.27:
            o = {"type": "tle", "tle": new_tle(rng, ep, int(rng.choice([1, 1, 2, 3])))}
        elif u < 0.5:
            inc = W.r(rng.uniform(50, 100), 2)
            alt = c22.resonant(inc, float(rng.choice([15.0, 14.0]))) or 6e5
            o = {"type": "circular", "altitude": W.r(max(alt, 3e5), 1), "inclination": inc, "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "true_anomaly": W.r(rng.uniform(0, 359), 2), "epoch": ep.isoformat()}
        else:
            o = W.gen_orbit(rng, kinds=("circular", "keplerian", "sso"), alt=(4e5, 1.5e6), epoch=ep)
        ins = [W.gen_instrument(rng, pointed=False, fors=[60.0, 100.0, 140.0])]
        if rng.random() < 0.5:
            ins.append(dict(W.gen_instrument(rng, pointed=True), cross_track_pixels=2, along_track_pixels=2))
        sats.append({"name": f"S{q}", "orbit": o, "instruments": ins})
    co = {"type": "circular", "altitude": 8e5, "inclination": 70.0, "epoch": ep.isoformat()}
    I = [{"name": "cam", "field_of_regard": 120.0}]
    systems = [{"type": "walker", "name": "W", "orbit": co, "instruments": I, "number_satellites": 4, "number_planes": 2, "relative_spacing": 1},
               {"type": "train", "name": "T", "orbit": dict(co, inclination=98.0), "instruments": I, "number_satellites": 3, "interval": 600.0},
               {"type": "mog", "name": "M", "orbit": co, "instruments": I, "parallel_axis": 4e5, "transverse_axis": 2e5, "number_satellites": 3},
               {"type": "soc", "name": "C", "orbit": dict(co, altitude=1.4e6), "instruments": I, "swath_width": 4e6, "packing_distance": 0.9}]
    times = sorted(W.r(x, 1) for x in rng.uniform(-20000, 100000, int(rng.integers(3, 8))))
    if rng.random() < 0.3:
        rng.shuffle(times)
    x, y = rng.uniform(-170, 60), rng.uniform(-80, 10)
    case = {"kind": "history", "sats": sats, "systems": systems, "times": [float(t) for t in times], "places": [W.gen_place(rng) for _ in range(3)], "start": W.r(rng.uniform(-20000, 90000), 1),
            "hours": W.r(rng.uniform(2, 12), 2), "mask": [W.r(x, 1), W.r(y, 1), W.r(x + rng.uniform(20, 100), 1), W.r(y + rng.uniform(20, 70), 1)],
            "tables": {k: v for k, v in c07.gen(rng, 1).items() if k in ("points", "stations", "obs", "dl")}}
    ops = []
    for _ in range(int(rng.integers(8, 26))):
        u = rng.random()
        b = {"i": int(rng.integers(0, 6)), "j": int(rng.integers(0, 6)), "n": int(rng.integers(0, 12))}
        if u < 0.62:
            v = rng.random()
            pool = ORBIT_CALLS if v < 0.45 else SAT_CALLS if v < 0.75 else TABLE_CALLS if v < 0.9 else GEO_CALLS
            b.update(op="call", name=str(rng.choice(pool)), scribble=bool(rng.random() < 0.3))
            if b["name"] in ("cells", "grid_obs") and rng.random() < 0.3:
                b["name"] = "multi"
            ops.append(b)
            if rng.random() < 0.3:
                ops.append(dict(b))
            continue
        f = str(rng.choice(["altitude", "altitude", "inclination", "right_ascension_ascending_node", "true_anomaly", "epoch", "eccentricity", "perigee_argument", "equator_crossing_ascending"]))
        alt = W.r(rng.uniform(4e5, 1.4e6), 1)
        v = {"altitude": alt, "epoch": (ep + timedelta(seconds=int(rng.integers(-9000, 9000)))).isoformat(), "eccentricity": W.r(rng.uniform(0, 0.01), 4), "inclination": W.r(rng.uniform(10, 120), 2),
             "equator_crossing_ascending": bool(rng.random() < 0.5)}.get(f, W.r(rng.uniform(0, 359), 2))
        upd = {"field": f, "value": v, "altitude": alt, "tle": new_tle(rng, ep + timedelta(hours=float(rng.uniform(-5, 5))), int(rng.choice([1, 2])))}
        if u < 0.75:
            ops.append(dict(b, op="set", read_first=bool(rng.random() < 0.6), **upd))
        elif u < 0.88:
            ops.append(dict(b, op=str(rng.choice(["model_copy", "model_copy", "deepcopy", "pickle", "json"])), warm=bool(rng.random() < 0.7), **upd))
        elif u < 0.92:
            ops.append(dict(b, op="share"))
        elif u < 0.95:
            ops.append(dict(b, op="instrument", fov=float(rng.choice([40.0, 80.0, 170.0]))))
        else:
            ops.append({"op": "lazy", "rc": {str(rng.choice(["orbit_tle_lazy_load", "repeat_cycle_lazy_load", "repeat_cycle_for_orbit_track", "repeat_cycle_for_observation_events"])): bool(rng.random() < 0.5)}})
    case["ops"] = ops
    return case


def fixed_cases():
    return []

"""C06: downlink opportunities are exactly the station contacts."""
from datetime import timedelta, timezone

import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C06"
RULE = "a case counts when a collected downlink table was compared with the independently computed visibility history of each station"
CASES = {"quick": 400, "thorough": 5000}
REQUIRED_EVENTS = ["same_name", "call:collect_downlinks", "contact_matched", "clipped_start", "clipped_end", "short_contact_filtered", "empty_result", "multi_station", "twin_sites", "single_station_argument", "constant_visible", "exactly_min_access", "mask_positive"]
ASSUMPTIONS = ["near-circular orbits up to 20200 km altitude or geostationary", "contacts peaking within 0.1 deg of the station mask, or gaps shallower than that, may be reported or not"]
EDGE = 0.1


def install():
    core.hook("tatc.analysis.latency.collect_downlinks", post)


def post(c, a, gdf, exc, token):
    if exc is not None:
        return
    sat, start, end = a["satellite"], a["start"], a["end"]
    stations = a["stations"] if isinstance(a["stations"], list) else [a["stations"]]
    if not isinstance(a["stations"], list):
        c.event("single_station_argument")
    if len(stations) > 1:
        c.event("multi_station")
    tle = sat.orbit.to_tle().tle
    if len(tle) != 2:
        return
    c.check({"station", "geometry", "satellite", "start", "epoch", "end"} <= set(gdf.columns), "missing columns", sig="columns", got=list(gdf.columns))
    if len(gdf) == 0:
        c.event("empty_result")
    dur = (end - start).total_seconds()
    mm = float(tle[1][52:63])
    step = min(20.0, 86400 / mm / 300)
    st = list(gdf["start"])
    c.check(all(x <= y for x, y in zip(st[:-1], st[1:])), "not ordered by start", sig="order")
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not fresh", sig="index")
    names = {s.name for s in stations}
    c.check(set(gdf["station"]) <= names, "unknown station", sig="station")
    rows = [((r.start - start).total_seconds(), (r.end - start).total_seconds(), (r.epoch - start).total_seconds(), r) for r in gdf.itertuples(index=False)]
    for ra, rb, re, r in rows:
        c.check(abs(re - (ra + rb) / 2) < 1e-3, "epoch is not the middle of the contact", sig="epoch", row=[ra, re, rb])
        c.check(r.satellite == sat.name, "satellite name", sig="satname", got=r.satellite)
        c.check(ra > -1e-3 and rb < dur + 1e-3, "contact outside the analysis period", sig="clip", row=[ra, rb], duration=dur)
    used = [0] * len(rows)
    sites = {}
    for s in stations:
        sites.setdefault(s.name, []).append(s)
        if s.min_elevation_angle > 0:
            c.event("mask_positive")
    if len({(s.latitude, s.longitude) for s in stations}) < len(stations):
        c.event("twin_sites")
    if len(names) < len(stations):
        c.event("same_name", len(rows))
    for s in stations:
        fn = lambda x: O.elevation_at(tle, start, x, s.latitude, s.longitude, s.elevation)
        thr = s.min_elevation_angle
        vis = O.visibility(fn, dur, thr, step)
        amb = [(x[0] - 5, y[1] + 5) for x, y in zip(vis[:-1], vis[1:]) if O.gap_margin(fn, x[1], y[0], thr) < EDGE]
        mine = [i for i, (ra, rb, re, r) in enumerate(rows) if r.station == s.name
                and (r.geometry.x, r.geometry.y, r.geometry.z) == (s.longitude, s.latitude, s.elevation)]
        c.check(all((r.geometry.x, r.geometry.y, r.geometry.z) in {(q.longitude, q.latitude, q.elevation) for q in sites[s.name]} for *_, r in rows if r.station == s.name),
                "row does not carry the station's location", sig="location", station=s.name)
        mat = s.min_access_time.total_seconds()
        c.state(min(len(vis), 12), int(thr > 0), int(mat > 0))
        for (x, y, peak, cl, cr) in vis:
            cand = [i for i in mine if x - 5 <= rows[i][2] <= y + 5]
            for i in cand:
                used[i] += 1
            if any(z[0] <= x and y <= z[1] for z in amb) or peak < EDGE or y - x < 3 or (mat > 0 and abs(y - x - mat) < 3 and not (cl and cr)):
                c.event("ambiguous")
                continue
            if cl and cr and dur == mat:
                c.event("exactly_min_access")
            if (dur if cl and cr else y - x) < mat:
                c.event("short_contact_filtered")
                c.check(len(cand) == 0, "contact shorter than the station's minimum access time kept", sig="short", contact=[x, y], min_access=mat)
                continue
            if not c.check(len(cand) == 1, f"contact of {y - x:.0f} s peaking {peak:.2f} deg above the mask has {len(cand)} rows",
                           sig="missed" if not cand else "duplicated", station=s.name, contact=[x, y], rows=[q[:3] for q in rows][:8]):
                continue
            ra, rb, re, r = rows[cand[0]]
            c.event("contact_matched")
            if cl:
                c.event("clipped_start")
            if cr:
                c.event("clipped_end")
            if cl and cr:
                c.event("constant_visible")
            tol = 1.0 + (3.0 if peak < 1 else 0)
            c.check(abs(ra - x) < tol and abs(rb - y) < tol, "contact start/end differ from visibility above the station mask", sig="bounds", expected=[x, y], got=[ra, rb], peak=peak)
        for i in mine:
            if not used[i] and not any(z[0] <= rows[i][2] <= z[1] for z in amb):
                m = float(np.max(fn(np.linspace(max(0, rows[i][0]), min(dur, rows[i][1]), 100)) - thr))
                c.check(-0.02 < m < EDGE and rows[i][1] - rows[i][0] < 120, "contact where the satellite is below the mask", sig="invented", row=rows[i][:3], margin=m, station=s.name)


def fixed_cases():
    geo_o = {"type": "circular", "altitude": 35793200.0, "inclination": 0.0, "epoch": W.EPOCH.isoformat(), "true_anomaly": 0.0, "right_ascension_ascending_node": 340.0}
    return [{"orbit": geo_o, "stations": [{"name": f"G{k}", "latitude": 5.0, "longitude": l, "elevation": 0.0, "min_elevation_angle": 10.0} for k, l in enumerate((0.0, 40.0, -10.0, 100.0, -170.0, -120.0))],
             "offset": 0, "duration": 7200, "align": "none", "u": [0.5, 0.5], "single": False}]


def gen(rng, i):
    n = int(rng.choice([1, 1, 2, 3, 5]))
    sts = []
    for k in range(n):
        s = W.gen_place(rng)
        if sts and rng.random() < 0.3:
            q = sts[int(rng.integers(len(sts)))]
            s = {x: q[x] for x in ("latitude", "longitude", "elevation")}
        s["name"] = f"Station {k}"
        s["min_elevation_angle"] = float(rng.choice([0.0, 0.0, 5.0, 10.0, 20.0, W.r(rng.uniform(0, 60), 2)]))
        if rng.random() < 0.5:
            s["min_access_s"] = float(rng.choice([10, 60, 120, 300, 500]))
        sts.append(s)
    if rng.random() < 0.15 and len({(s["latitude"], s["longitude"], s["elevation"]) for s in sts}) == n:
        for s in sts:  # the name does not tell the stations apart
            s["name"] = "Station"
    return {"orbit": W.gen_orbit(rng), "stations": sts, "offset": int(rng.integers(-2 * 86400, 2 * 86400)),
            "duration": int(rng.integers(1200, 86400)) if rng.random() < 0.85 else int(rng.integers(86400, 2 * 86400)),
            "align": str(rng.choice(["none", "none", "start_in", "end_in", "inside"])), "u": [W.r(rng.random()), W.r(rng.random())],
            "single": bool(n == 1 and rng.random() < 0.5), "tz": int(rng.integers(-11, 12)) if rng.random() < 0.2 else 0, "exact": int(rng.choice([0, 0, 1, 2]))}


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_downlinks
    from tatc.schemas import GroundStation
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    s = W.build_satellite("Sat A", case["orbit"], [{"name": "other", "field_of_regard": 20.0}])
    sts = []
    for d in case["stations"]:
        d = dict(d)
        if "min_access_s" in d:
            d["min_access_time"] = timedelta(seconds=d.pop("min_access_s"))
        sts.append(GroundStation(**d))
    start = (W.orbit_epoch(case["orbit"]) + timedelta(seconds=case["offset"])).replace(microsecond=0)
    dur = float(case["duration"])
    if case["align"] != "none":
        tle = s.orbit.to_tle().tle
        q = sts[0]
        vis = [v for v in O.visibility(lambda x: O.elevation_at(tle, start, x, q.latitude, q.longitude, q.elevation), dur, q.min_elevation_angle, 20.0) if v[1] - v[0] > 60]
        if vis:
            v = vis[int(case["u"][0] * len(vis)) % len(vis)]
            L = v[1] - v[0]
            k = v[0] + L * (0.1 + 0.8 * case["u"][1])
            if case["align"] == "start_in":
                start, dur = start + timedelta(seconds=round(k)), dur - round(k)
            elif case["align"] == "end_in":
                dur = float(round(k))
            else:
                start, dur = start + timedelta(seconds=round(v[0] + 0.2 * L)), float(round(0.5 * L))
    dur = max(dur, 10.0)
    if case.get("exact") and case["align"] == "inside":
        sts[0] = sts[0].model_copy(update={"min_access_time": timedelta(seconds=dur + (case["exact"] - 1) * 0.5)})
    end = start + timedelta(seconds=dur)
    if case.get("tz"):
        z = timezone(timedelta(hours=case["tz"]))
        start, end = start.astimezone(z), end.astimezone(z)
    collect_downlinks(sts[0] if case["single"] else sts, s, start, end)

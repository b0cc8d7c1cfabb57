"""C07: latency is measured to the first downlink after each observation."""
from datetime import timedelta

import numpy as np
import pandas as pd

from vp import core, tables as TB, work as W

PROPERTY = "C07"
RULE = "a case counts when a latency table was matched row by row with an independent scan for the first following contact of the same satellite"
CASES = {"quick": 2000, "thorough": 20000}
REQUIRED_EVENTS = ["call:compute_latencies", "call:reduce_latencies", "matched", "unmatched", "tie_start_at_end", "contact_overlaps_observation", "other_satellite_earlier", "no_downlinks", "no_observations", "undefined_mean", "partial_mean", "pipeline"]
ASSUMPTIONS = ["when several contacts of a satellite start at the same earliest instant any of them may be reported"]


def install():
    core.hook("tatc.analysis.latency.compute_latencies", post_lat, pre=lambda c, a: (a["observations"].copy(deep=True), a["downlinks"].copy(deep=True)))
    core.hook("tatc.analysis.latency.reduce_latencies", post_red, pre=lambda c, a: a["latency_observations"].copy(deep=True))


def post_lat(c, a, out, exc, token):
    if exc is not None:
        return
    obs, dl = token
    c.check(TB.snapshot(a["observations"]) == TB.snapshot(obs) and TB.snapshot(a["downlinks"]) == TB.snapshot(dl), "input table modified", sig="mutated")
    if len(obs) == 0 or len(dl) == 0:
        c.event("no_observations" if len(obs) == 0 else "no_downlinks")
        c.check(len(out) == 0 and {"point_id", "geometry", "satellite", "instrument", "observed", "station", "downlinked", "latency"} <= set(out.columns), "result must be empty", sig="empty", got=len(out))
        return
    c.check(len(out) == len(obs), "not one row per observation", sig="rows", expected=len(obs), got=len(out))
    t = list(out["observed"])
    c.check(all(x <= y for x, y in zip(t[:-1], t[1:])), "not ordered by observation epoch", sig="order")
    c.check(list(out.index) == list(range(len(out))), "index is not fresh", sig="index")
    want = []
    dls = [d for d in dl.itertuples(index=False)]
    ident = lambda r, ep: (r.point_id, r.satellite, r.instrument, str(ep), r.geometry.wkt, float(r.sat_alt), float(r.sat_az))
    for o in obs.itertuples(index=False):
        after = [d for d in dls if d.satellite == o.satellite and d.start >= o.end]
        if any(d.satellite == o.satellite and d.start < o.end and d.end > o.start for d in dls):
            c.event("contact_overlaps_observation")
        if after:
            first = min(d.start for d in after)
            cands = [d for d in after if d.start == first]
            c.event("matched")
            if first == o.end:
                c.event("tie_start_at_end")
            if any(d.satellite != o.satellite and o.end <= d.start < first for d in dls):
                c.event("other_satellite_earlier")
            opts = [(d.station, str(d.epoch), str(pd.Timedelta(d.epoch - o.epoch))) for d in cands]
            c.state("m", len(cands) > 1, first == o.end)
        else:
            c.event("unmatched")
            opts = [(None, "NaT", "NaT")]
            c.state("u")
        want.append((ident(o, o.epoch), opts))
    got = []
    for r in out.itertuples(index=False):
        st = None if pd.isna(r.station) else r.station
        got.append((ident(r, r.observed), (st, str(r.downlinked), str(pd.Timedelta(r.latency)) if not pd.isna(r.latency) else "NaT")))
    # match as multisets
    left = list(got)
    for idn, opts in want:
        k = next((i for i, g in enumerate(left) if g[0] == idn and g[1] in opts), None)
        if k is None:
            near = [g[1] for g in left if g[0] == idn]
            c.fail("observation does not carry the first following contact of its satellite" if near else "observation lost or altered",
                   sig="latency" if near else "identity", observation=list(idn), expected=opts, got=near[:3])
        else:
            left.pop(k)
            c.event("oracle_evaluations")


def post_red(c, a, out, exc, lat):
    if exc is not None:
        return
    c.check(TB.snapshot(a["latency_observations"]) == TB.snapshot(lat), "input table modified", sig="red-mutated")
    if len(lat) == 0:
        c.check(len(out) == 0, "empty input must give an empty table", sig="red-empty")
        return
    by = {}
    for r in lat.itertuples(index=False):
        by.setdefault(r.point_id, []).append(r)
    c.check(sorted(out.point_id) == sorted(by), "not one row per point", sig="red-points")
    for r in out.itertuples(index=False):
        rows = by.get(r.point_id, [])
        c.check(r.samples == len(rows), "samples is not the number of observations", sig="red-samples", expected=len(rows), got=r.samples)
        v = [x.latency / timedelta(seconds=1) for x in rows if not pd.isna(x.latency)]
        if not v:
            c.event("undefined_mean")
            c.check(pd.isna(r.latency), "latency invented", sig="red-nan", got=str(r.latency))
        else:
            if len(v) < len(rows):
                c.event("partial_mean")
            c.check(not pd.isna(r.latency) and abs(r.latency / timedelta(seconds=1) - np.mean(v)) < 2e-6 + 1e-9 * abs(np.mean(v)), "latency is not the mean of the defined latencies", sig="red-mean", expected=float(np.mean(v)), got=str(r.latency))
        if rows:
            p = rows[0].geometry
            c.check((r.geometry.x, r.geometry.y) == (p.x, p.y), "geometry is not the point", sig="red-geometry")


def fixed_cases():
    P = [{"id": 7, "lon": 3.0, "lat": 4.0, "z": 5.0}]
    S = [{"name": "A", "lon": 0.0, "lat": 0.0}, {"name": "B", "lon": 9.0, "lat": 9.0}]
    mk = lambda o, d: {"points": P, "stations": S, "obs": [[0, s, "I", a, b, 0.5, 50.0, 9.0] for s, a, b in o], "dl": d, "shuffle": 0}
    return [
        mk([("x", 0, 100)], [[0, "x", 100, 200], [1, "x", 50, 90], [0, "y", 100, 120]]),
        mk([("x", 0, 100)], [[0, "x", 90, 200], [1, "x", 300, 310]]),           # contact in progress at the end of the observation
        mk([("x", 0, 100), ("y", 0, 100)], [[0, "x", 500, 600]]),
        mk([("x", 0, 1000), ("x", 10, 20)], [[0, "x", 30, 60], [1, "x", 1001, 1100]]),  # nested: epoch order differs from end order
        mk([], [[0, "x", 500, 600]]), mk([("x", 0, 1)], []),
    ]


def gen(rng, i):
    n = int(rng.integers(1, 5))
    sats = [f"Sat {k}" for k in range(int(rng.integers(1, 4)))]
    pts = TB.gen_points(rng, n)
    S = [{"name": f"St {k}", "lon": W.r(rng.uniform(-180, 180), 2), "lat": W.r(rng.uniform(-90, 90), 2)} for k in range(3)]
    hz = float(rng.choice([3000, 20000, 200000]))
    obs = [[int(rng.integers(n)), str(rng.choice(sats)), f"I{int(rng.integers(2))}", s, e, float(rng.choice([0.5, 0.5, 0.25])), W.r(rng.uniform(5, 90), 3), W.r(rng.uniform(0, 360), 3)]
           for s, e in TB.gen_spans(rng, int(rng.choice([1, 3, 10, 30])), hz)]
    dl = [[int(rng.integers(3)), str(rng.choice(sats + ["Other"])), s, e] for s, e in TB.gen_spans(rng, int(rng.choice([1, 3, 10, 30])), hz)]
    for d in dl:
        if rng.random() < 0.25:
            o = obs[int(rng.integers(len(obs)))]
            d[1], d[2] = o[1], o[4]
            d[3] = round(d[2] + float(rng.integers(1, 600)), 3)
    return {"points": pts, "stations": S, "obs": obs, "dl": dl, "shuffle": int(rng.integers(0, 3)), "pipe": i % 50 == 0}


def run(case, c):
    from tatc.analysis import compute_latencies, reduce_latencies
    if case.get("pipe"):
        pipeline(case, c)
    o = TB.observations(case["obs"] or [[0, "x", "I", 0, 1, 0.5, 1.0, 1.0]], case["points"])
    d = TB.downlinks(case["dl"] or [[0, "x", 0, 1]], case["stations"])
    o, d = (o if case["obs"] else o.iloc[:0]), (d if case["dl"] else d.iloc[:0])
    if case["shuffle"]:
        o, d = TB.shuffle(o, case["shuffle"], case["shuffle"] == 1), TB.shuffle(d, case["shuffle"] + 9, case["shuffle"] == 1)
    else:
        o, d = o.sort_values("start"), d.sort_values("start")
    lat = compute_latencies(o, d)
    reduce_latencies(lat)
    if len(lat) > 1:
        reduce_latencies(TB.shuffle(lat, 5))


def pipeline(case, c):
    """the real chain: observations and downlinks of two satellites"""
    from tatc import config
    from tatc.analysis import collect_downlinks, collect_observations, compute_latencies, reduce_latencies
    from tatc.schemas import CircularOrbit, GroundStation, Instrument, Point, Satellite
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    p = case["points"][0]
    end = W.EPOCH + timedelta(hours=12)
    sats = [Satellite(name=n, orbit=CircularOrbit(altitude=7e5, inclination=98, true_anomaly=k, epoch=W.EPOCH), instruments=[Instrument(field_of_regard=130)]) for n, k in (("A", 10), ("B", 200))]
    st = [GroundStation(name=s["name"], latitude=s["lat"], longitude=s["lon"], min_elevation_angle=5) for s in case["stations"]]
    obs = pd.concat([collect_observations(Point(id=p["id"], latitude=p["lat"], longitude=p["lon"]), s, W.EPOCH, end) for s in sats])
    dl = pd.concat([collect_downlinks(st, s, W.EPOCH, end) for s in sats])
    c.event("pipeline")
    reduce_latencies(compute_latencies(obs, dl))

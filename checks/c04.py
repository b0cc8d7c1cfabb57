"""C04: aggregated observations merge overlaps and conserve time."""
from datetime import timedelta

import numpy as np
import pandas as pd

from vp import core, tables as TB, work as W

PROPERTY = "C04"
RULE = "a case counts when an aggregated or reduced table was compared with an independent interval sweep of its input rows"
CASES = {"quick": 1600, "thorough": 20000}
REQUIRED_EVENTS = ["call:aggregate_observations", "call:reduce_observations", "merged", "touching", "nested", "first_revisit", "multi_point", "empty", "single_row_point"]
ASSUMPTIONS = ["times are compared to 2 microseconds, means to 1e-9 relative plus 2 microseconds"]
US = pd.Timedelta(microseconds=2)


def install():
    core.hook("tatc.analysis.coverage.aggregate_observations", post_agg, pre=lambda c, a: a["observations"].copy(deep=True))
    core.hook("tatc.analysis.coverage.reduce_observations", post_red, pre=lambda c, a: a["aggregated_observations"].copy(deep=True))


def sweep(rows):
    """merge [(start, end, row)] touching or overlapping; independent of tatc."""
    rows = sorted(rows, key=lambda x: (x[0], x[1]))
    groups = []
    for s, e, r in rows:
        if groups and s <= groups[-1][1]:
            groups[-1][1] = max(groups[-1][1], e)
            groups[-1][2].append(r)
        else:
            groups.append([s, e, [r]])
    return groups


def post_agg(c, a, out, exc, obs):
    if exc is not None:
        return
    if len(obs) == 0:
        c.event("empty")
        c.check(len(out) == 0 and {"point_id", "geometry", "satellite", "instrument", "start", "epoch", "end"} <= set(out.columns), "empty input must give an empty table", sig="agg-empty")
        return
    by = {}
    for r in obs.itertuples(index=False):
        by.setdefault(r.point_id, []).append((r.start, r.end, r))
    if len(by) > 1:
        c.event("multi_point")
    got = {}
    for r in out.itertuples(index=False):
        got.setdefault(r.point_id, []).append(r)
    c.check(set(got) == set(by), "aggregated points differ from observed points", sig="agg-points", expected=sorted(by)[:5], got=sorted(got)[:5])
    c.check(list(out.index) == list(range(len(out))), "index is not fresh", sig="agg-index")
    for pid, rows in by.items():
        if len(rows) == 1:
            c.event("single_row_point")
        want = sweep(rows)
        g = got.get(pid, [])
        if not c.check(len(g) == len(want), "wrong number of merged observations", sig="agg-count", point=pid, expected=len(want), got=len(g),
                       rows=[[str(r[0]), str(r[1])] for r in rows][:12]):
            continue
        prev = None
        for w, r in zip(want, g):
            if len(w[2]) > 1:
                c.event("merged")
                if any(x.start == y.end for x in w[2] for y in w[2]):
                    c.event("touching")
                if any(x.start > y.start and x.end < y.end for x in w[2] for y in w[2]):
                    c.event("nested")
            c.state(min(len(w[2]), 9), len(g) > 1)
            c.check(r.start == w[0] and r.end == w[1], "merged row does not span its observations (or not chronological)", sig="agg-span", expected=[str(w[0]), str(w[1])], got=[str(r.start), str(r.end)])
            c.check(sorted(r.satellite.split(", ")) == sorted(x.satellite for x in w[2]) and sorted(r.instrument.split(", ")) == sorted(x.instrument for x in w[2]),
                    "merged row does not name exactly its satellites and instruments", sig="agg-names", expected=[x.satellite for x in w[2]], got=r.satellite)
            t0 = w[0]
            m = t0 + pd.Timedelta(np.mean([(x.epoch - t0) / pd.Timedelta(microseconds=1) for x in w[2]]), unit="us")
            c.check(abs(r.epoch - m) <= US, "epoch is not the mean of the merged epochs", sig="agg-epoch", expected=str(m), got=str(r.epoch))
            c.check(abs(r.access - (w[1] - w[0])) <= US, "access is not end minus start", sig="agg-access", expected=str(w[1] - w[0]), got=str(r.access))
            if prev is None:
                c.event("first_revisit")
                c.check(pd.isna(r.revisit), "first observation of a point has a revisit", sig="agg-first", got=str(r.revisit))
            else:
                c.check(not pd.isna(r.revisit) and abs(r.revisit - (w[0] - prev)) <= US, "revisit is not the gap since the previous end", sig="agg-revisit", expected=str(w[0] - prev), got=str(r.revisit))
            prev = w[1]
            p = w[2][0].geometry
            c.check(r.geometry.geom_type == "Point" and (r.geometry.x, r.geometry.y) == (p.x, p.y), "geometry is not the point", sig="agg-geometry", got=r.geometry.wkt)
    c.check(TB.snapshot(a["observations"]) == TB.snapshot(obs), "input table modified", sig="agg-mutated")


def mean(xs):
    xs = [x for x in xs if not pd.isna(x)]
    return None if not xs else float(np.mean([x / pd.Timedelta(seconds=1) for x in xs]))


def close(got, want):
    if want is None:
        return pd.isna(got)
    return not pd.isna(got) and abs(got / timedelta(seconds=1) - want) < 2e-6 + 1e-9 * abs(want)


def post_red(c, a, out, exc, agg):
    if exc is not None:
        return
    if len(agg) == 0:
        c.event("empty")
        c.check(len(out) == 0 and {"point_id", "geometry", "access", "revisit", "samples"} <= set(out.columns), "empty input must give an empty table", sig="red-empty")
        return
    by = {}
    for r in agg.itertuples(index=False):
        by.setdefault(r.point_id, []).append(r)
    got = [r.point_id for r in out.itertuples(index=False)]
    c.check(sorted(got) == sorted(by), "reduced table does not have one row per point", sig="red-points", expected=sorted(by)[:6], got=sorted(got)[:6])
    for r in out.itertuples(index=False):
        rows = by.get(r.point_id)
        if rows is None:
            continue
        c.check(r.samples == len(rows), "samples is not the number of aggregated observations", sig="red-samples", expected=len(rows), got=r.samples)
        w = mean([x.access for x in rows])
        c.check(close(r.access, w), "access is not the mean access", sig="red-access", expected=w, got=str(r.access))
        w = mean([x.revisit for x in rows])
        c.check(close(r.revisit, w), "revisit is not the mean of the defined revisits", sig="red-revisit", expected=w, got=str(r.revisit))
        p = rows[0].geometry
        c.check(r.geometry.geom_type == "Point" and (r.geometry.x, r.geometry.y) == (p.x, p.y), "geometry is not the point", sig="red-geometry", got=r.geometry.wkt)
    c.check(TB.snapshot(a["aggregated_observations"]) == TB.snapshot(agg), "input table modified", sig="red-mutated")


def fixed_cases():
    P2 = [{"id": 4, "lon": 1.0, "lat": 2.0, "z": 0.0}, {"id": 1, "lon": -20.0, "lat": 2.0, "z": 10.0}]
    mk = lambda *sp: {"points": P2, "rows": [[p, f"S{k}", f"I{k}", s, e, 0.5, 45.0, 10.0] for k, (p, s, e) in enumerate(sp)], "order": "given", "seed": 0}
    return [
        mk((0, 0, 100), (0, 100, 200), (0, 200, 300)),                       # touching chain
        mk((0, 0, 1000), (0, 10, 20), (0, 30, 40), (0, 900, 1100)),          # nested then overlapping the long one
        mk((0, 0, 10), (1, 5, 15), (0, 11, 20), (1, 16, 30)),                # points interleave
        mk((0, 50, 60), (0, 0, 10), (0, 20, 30), (0, 5, 25)),                # out of order
        mk((0, 0, 10), (0, 0, 10), (0, 0, 10)),
        mk((0, 0, 10)), {"points": P2, "rows": [], "order": "given", "seed": 0},
        mk(*[(0, i * 10, i * 10 + 15) for i in range(40)]),
    ]


def gen(rng, i):
    n = int(rng.integers(1, 7))
    pts = TB.gen_points(rng, n)
    rows = []
    for p in range(n):
        m = int(rng.choice([1, 2, 3, 8, 20])) if rng.random() < 0.8 else int(rng.integers(1, 60))
        for s, e in TB.gen_spans(rng, m, horizon=float(rng.choice([2000, 20000, 2e6]))):
            rows.append([p, f"Sat {int(rng.integers(5))}", f"I{int(rng.integers(3))}", s, e, float(rng.choice([0.5, 0.5, 0.3])), W.r(rng.uniform(5, 90), 3), W.r(rng.uniform(0, 360), 3)])
    return {"points": pts, "rows": rows, "order": str(rng.choice(["given", "shuffle", "shuffle-reset", "start", "reverse"])), "seed": int(rng.integers(1e6)), "real": i % 40 == 0}


def run(case, c):
    from tatc.analysis import aggregate_observations, reduce_observations
    if case.get("real"):
        return run_real(case, c)
    if case["rows"]:
        df = TB.observations(case["rows"], case["points"])
    else:
        df = TB.observations([[0, "a", "b", 0, 1, 0.5, 1, 1]], case["points"]).iloc[:0]
    o = case["order"]
    if o.startswith("shuffle"):
        df = TB.shuffle(df, case["seed"], keep_index=o == "shuffle")
    elif o == "start":
        df = df.sort_values("start").reset_index(drop=True)
    elif o == "reverse":
        df = df.iloc[::-1]
    agg = aggregate_observations(df)
    red = reduce_observations(agg)
    if len(agg) and len(agg) > 1:
        # the aggregated table may itself be handed over in another order
        sh = TB.shuffle(agg, case["seed"] + 1)
        r2 = reduce_observations(sh)
        k = lambda t: sorted((r.point_id, str(r.access), r.samples) for r in t.itertuples(index=False))
        c.check([x[0::2] for x in k(r2)] == [x[0::2] for x in k(red)], "reduction depends on row order", sig="red-order")


def run_real(case, c):
    """end to end: a constellation over two points"""
    from tatc import config
    from tatc.analysis import aggregate_observations, collect_multi_observations, reduce_observations
    from tatc.schemas import CircularOrbit, Instrument, Point, WalkerConstellation
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    g = np.random.default_rng(case["seed"])
    w = WalkerConstellation(name="W", orbit=CircularOrbit(altitude=float(g.uniform(500e3, 2000e3)), inclination=60.0, epoch=W.EPOCH),
                            instruments=[Instrument(name="A", field_of_regard=120), Instrument(name="B", field_of_regard=90)],
                            number_satellites=4, number_planes=2, relative_spacing=1)
    pts = [Point(id=i, **W.gen_place(g)) for i in range(2)]
    obs = pd.concat([collect_multi_observations(p, w, W.EPOCH, W.EPOCH + timedelta(hours=8)) for p in pts])
    reduce_observations(aggregate_observations(obs))

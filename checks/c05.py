"""C05: gridding weights by samples and never mixes cells."""
from datetime import timedelta

import geopandas as gpd
import numpy as np
import pandas as pd
from shapely import geometry as geo

from vp import core, tables as TB, work as W

PROPERTY = "C05"
RULE = "a case counts when a gridded table was compared cell by cell with an independent sample-weighted mean over the points strictly inside each cell"
CASES = {"quick": 900, "thorough": 10000}
REQUIRED_EVENTS = ["call:grid_observations", "call:grid_latencies", "cell_matched", "multi_point_cell", "uneven_samples", "empty_data", "cell_without_points", "overlapping_cells", "nan_revisit", "real_cells", "pipeline"]
ASSUMPTIONS = ["points on a cell boundary are not generated; averages of cells holding a point with undefined value are not judged"]


def install():
    core.hook("tatc.analysis.coverage.grid_observations", lambda c, a, r, e, t: post(c, a["reduced_observations"], a["cells"], r, e, t, ["access", "revisit"]),
              pre=lambda c, a: (a["reduced_observations"].copy(deep=True), a["cells"].copy(deep=True)))
    core.hook("tatc.analysis.latency.grid_latencies", lambda c, a, r, e, t: post(c, a["reduced_latencies"], a["cells"], r, e, t, ["latency"]),
              pre=lambda c, a: (a["reduced_latencies"].copy(deep=True), a["cells"].copy(deep=True)))


def secs(v):
    return v / timedelta(seconds=1)


def post(c, red_now, cells_now, out, exc, token, cols):
    if exc is not None:
        return
    red, cells = token
    c.check(TB.snapshot(red_now) == TB.snapshot(red) and TB.snapshot(cells_now) == TB.snapshot(cells), "input table modified", sig="mutated")
    if len(red) == 0:
        c.event("empty_data")
        c.check(sorted(out.cell_id) == sorted(cells.cell_id) and (out.samples == 0).all() and all(out[k].isna().all() for k in cols),
                "without data all cells must be returned with zero samples", sig="empty")
        geoms(c, out, cells)
        return
    want = {}
    claimed = 0
    for cell in cells.itertuples(index=False):
        inside = [r for r in red.itertuples(index=False) if cell.geometry.contains(r.geometry)]
        if inside:
            want[cell.cell_id] = inside
            claimed += len(inside)
        else:
            c.event("cell_without_points")
    if claimed > len(red):
        c.event("overlapping_cells")
    got = [r.cell_id for r in out.itertuples(index=False)]
    c.check(sorted(got) == sorted(want), "returned cells are not exactly the cells with points", sig="cells", expected=sorted(want)[:10], got=sorted(got)[:10])
    for r in out.itertuples(index=False):
        pts = want.get(r.cell_id)
        if pts is None:
            continue
        c.event("cell_matched")
        if len(pts) > 1:
            c.event("multi_point_cell")
            if len(set(p.samples for p in pts)) > 1:
                c.event("uneven_samples")
        c.state(min(len(pts), 8), cols[0])
        n = sum(p.samples for p in pts)
        c.check(r.samples == n, "cell samples is not the sum over its points", sig="samples", expected=n, got=r.samples)
        for k in cols:
            vals = [getattr(p, k) for p in pts]
            if any(pd.isna(v) for v in vals):
                c.event("nan_revisit")
                if all(pd.isna(v) for v in vals):
                    c.check(pd.isna(getattr(r, k)), "value invented for a cell without defined values", sig="nan-" + k, got=str(getattr(r, k)))
                continue
            w = sum(secs(v) * p.samples for v, p in zip(vals, pts)) / n
            g = getattr(r, k)
            c.check(not pd.isna(g) and abs(secs(g) - w) < 2e-6 + 1e-9 * abs(w), f"{k} is not the sample-weighted mean over the cell's points", sig="mean-" + k,
                    expected=w, got=str(g), points=[[secs(v), int(p.samples)] for v, p in zip(vals, pts)][:8])
    geoms(c, out, cells)


def geoms(c, out, cells):
    byid = {r.cell_id: r.geometry for r in cells.itertuples(index=False)}
    for r in out.itertuples(index=False):
        g = byid.get(r.cell_id)
        if g is not None:
            c.check(g.equals(r.geometry) or g.symmetric_difference(r.geometry).area < 1e-9 * g.area, "cell geometry changed", sig="geometry", cell=r.cell_id)


def fixed_cases():
    return [{"cells": "boxes", "seed": 3, "n": 0, "nan": 0.0, "shuffle": False, "step": 30.0, "data": "obs"},
            {"cells": "boxes", "seed": 3, "n": 0, "nan": 0.0, "shuffle": False, "step": 30.0, "data": "lat"},
            {"cells": "boxes", "seed": 3, "n": 40, "nan": 1.0, "shuffle": True, "step": 30.0, "data": "obs"},
            {"cells": "boxes", "seed": 3, "n": 40, "nan": 1.0, "shuffle": True, "step": 30.0, "data": "lat"}]


def gen(rng, i):
    return {"cells": str(rng.choice(["boxes", "boxes", "overlap", "random", "tatc", "region"])), "seed": int(rng.integers(1e9)),
            "n": int(rng.choice([1, 3, 10, 40, 120])), "nan": float(rng.choice([0.0, 0.0, 0.0, 0.2, 1.0])), "shuffle": bool(rng.random() < 0.7),
            "step": float(rng.choice([10.0, 30.0, 45.0, 90.0])), "data": str(rng.choice(["obs", "lat"])), "pipe": int(rng.choice([0, 0, 1, 2]))}


def make_cells(case, g, c):
    k = case["cells"]
    if k == "tatc":
        from tatc.generation import generate_equally_spaced_cells
        c.event("real_cells")
        return generate_equally_spaced_cells(float(g.choice([2e6, 4e6])))
    if k == "random":
        rec = []
        for j in range(int(g.integers(1, 12))):
            x, y = g.uniform(-180, 150), g.uniform(-90, 60)
            w, h = g.uniform(5, 120), g.uniform(5, 60)
            p = geo.Polygon([(x, y), (x + w, y + 3), (x + w * 0.7, y + h), (x + 1, y + h * 0.6)])
            rec.append(p)
    elif k == "region":
        rec = [geo.MultiPolygon([geo.box(-170, -80, -20, 80), geo.box(20, -80, 170, 80)]), geo.box(-19, -80, 19, 80)]
    else:
        s = case["step"]
        rec = [geo.box(x, y, x + s, y + s) for x in np.arange(-180, 180, s) for y in np.arange(-90, 90, s)]
        if k == "overlap":
            rec += [geo.box(-181, -91, 0.123, 91), geo.box(-40.5, -91, 181, 91)]
    ids = g.permutation(5 * len(rec))[:len(rec)]
    return gpd.GeoDataFrame([{"cell_id": int(a), "geometry": b} for a, b in zip(ids, rec)], crs="EPSG:4326")


def run(case, c):
    from tatc.analysis import coverage, latency
    g = np.random.default_rng(case["seed"])
    with core.suspend():
        cells = make_cells(case, g, c)
    pts = TB.gen_points(g, case["n"])
    # cluster some of the points so that cells hold several
    for p in pts[len(pts) // 2:]:
        p["lon"], p["lat"] = W.r(g.uniform(1, 29), 3) + 0.00037, W.r(g.uniform(1, 29), 3) + 0.00037
    td = lambda v: pd.NaT if g.random() < case["nan"] else pd.Timedelta(microseconds=int(v * 1e6))
    rec = []
    for p in pts:
        base = {"point_id": p["id"], "geometry": geo.Point(p["lon"], p["lat"], p["z"])}
        n = int(g.choice([1, 2, 5, 50, 1000]))
        if case["data"] == "obs":
            base.update(access=pd.Timedelta(microseconds=int(g.uniform(1, 1e9))), revisit=td(g.uniform(1, 1e5)), samples=n)
        else:
            base.update(latency=td(g.uniform(-10, 1e5)), samples=n)
        rec.append(base)
    if rec:
        red = gpd.GeoDataFrame(rec, crs="EPSG:4326")
        for k in ("revisit", "latency"):
            if k in red:
                red[k] = pd.Series([pd.Timedelta(v) if not pd.isna(v) else np.timedelta64("NaT", "us") for v in red[k]], index=red.index, dtype="timedelta64[us]")
    else:
        none = TB.observations([[0, "S", "I", 0.0, 1.0, 0.5, 50.0, 10.0]], [{"id": 1, "lon": 0.0, "lat": 0.0, "z": 0.0}])[:0]
        if case["data"] == "obs":
            red = coverage.reduce_observations(coverage.aggregate_observations(none))
        else:
            red = latency.reduce_latencies(latency.compute_latencies(none, TB.downlinks([[0, "S", 0.0, 1.0]], [{"name": "st", "lon": 0.0, "lat": 0.0}])))
    if case["shuffle"] and len(red):
        red = TB.shuffle(red, case["seed"], keep_index=bool(g.random() < 0.5))
        cells = TB.shuffle(cells, case["seed"] + 1, keep_index=bool(g.random() < 0.5))
    if case.get("pipe"):
        # through the real pipeline: observations -> aggregate -> reduce
        rows = [[j, f"S{j % 2}", "I", s, e, 0.5, 50.0, 10.0] for j in range(len(pts)) for s, e in TB.gen_spans(g, int(g.choice([1, 1, 2, 6])) if case["pipe"] == 2 else 1)]
        if not rows:
            return
        obs = TB.observations(rows, pts)
        if case["data"] == "obs":
            red = coverage.reduce_observations(coverage.aggregate_observations(obs))
        else:
            dl = [[0, f"S{k % 2}", x, x + 300.0] for k, x in enumerate(g.uniform(0, 30000 if case["pipe"] == 2 else 10, 12))]
            red = latency.reduce_latencies(latency.compute_latencies(obs, TB.downlinks(dl, [{"name": "st", "lon": 0.0, "lat": 0.0}])))
        c.event("pipeline")
    f = coverage.grid_observations if case["data"] == "obs" else latency.grid_latencies
    f(red, cells)

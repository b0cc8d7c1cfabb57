"""C16: generated cells tile the region without overlap and match the points."""
import numpy as np
import shapely
from shapely import geometry as geo

from vp import core, geom as G, oracle as O, work as W
from checks.c15 import gen_mask

PROPERTY = "C16"
RULE = "a case counts when a generated cell set was compared cell by cell with the global grid for the typical distance (and the mask)"
CASES = {"quick": 5000, "thorough": 40000}
REQUIRED_EVENTS = ["call:generate_equally_spaced_cells", "global", "masked", "strip_lat", "strip_lon", "cell", "clipped_cell", "whole_cell", "mask_past_180", "empty_mask", "invalid_mask", "point_in_cell", "elevated", "hull_differs"]
ASSUMPTIONS = ["cells whose centre is within 1e-9 steps of the edge of the mask's bounding box, or that overlap the mask by less than 1e-9 of a cell, are not judged"]


def install():
    core.hook("tatc.generation.cells.generate_equally_spaced_cells", post)


def span(lo, hi, org, th):
    """indices whose centre lies between lo and hi, and whether that is unambiguous"""
    a, b = (lo - org) / th, (hi - org) / th
    ok = abs((a % 1) - 0.5) > 1e-9 and abs((b % 1) - 0.5) > 1e-9
    return range(int(np.round(a)), int(np.round(b))), ok


def post(c, a, gdf, exc, token):
    mask, strips = a["mask"], a["strips"]
    if mask is not None and not mask.is_valid:
        c.event("invalid_mask")
        c.check(isinstance(exc, ValueError), "an invalid mask is not rejected", sig="invalid", got=repr(exc))
        return
    if exc is not None:
        return
    th = np.degrees(a["distance"] / O.R_MEAN)
    nx = int(np.round(360 / th))
    x0, y0, x1, y1 = mask.bounds if mask is not None else (-180, -90, 180, 90)
    xs, okx = span(x0, x1, -180, th)
    ys, oky = span(y0, y1, -90, th)
    if not (okx and oky) or abs(360 / th % 1 - 0.5) < 1e-9:
        c.event("ambiguous_grid")
        return
    c.event("global" if mask is None else "masked")
    if strips:
        c.event("strip_" + strips)
    if a["elevation"]:
        c.event("elevated")
    if x1 > 180:
        c.event("mask_past_180")
    c.state(strips, None if mask is None else mask.geom_type, nx)
    want = {}
    for j in (ys if strips != "lon" else [0]):
        for i in (xs if strips != "lat" else [0]):
            w, e = (x0, x1) if strips == "lat" else (-180 + i * th, -180 + (i + 1) * th)
            s, n = (y0, y1) if strips == "lon" else (-90 + j * th, -90 + (j + 1) * th)
            q = j * nx + i % nx
            want.setdefault(q, []).append(geo.box(w, s, e, n))
    ids = [int(x) for x in gdf["cell_id"]] if len(gdf) else []
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")
    if (len(xs) <= nx):
        c.check(len(set(ids)) == len(ids), "identifiers are not unique", sig="ids")
    got = {}
    for q, g in zip(ids, gdf.geometry):
        got.setdefault(q, []).append(g)
    if mask is not None:
        shapely.prepare(mask)
    n = 0
    seen = []
    for q, boxes in want.items():
        for b in boxes:
            if mask is None:
                exp, parts = b, b
            else:
                parts = b.intersection(mask)
                if parts.area < 1e-9 * b.area:
                    if parts.is_empty and b.distance(mask) > 1e-9:
                        c.check(q not in got or len(boxes) > 1, "cell that does not touch the mask is returned", sig="extra", cell=q)
                    else:
                        got.pop(q, None)
                    continue
                exp = parts.convex_hull
                c.event("whole_cell" if parts.area > b.area * (1 - 1e-9) else "clipped_cell")
                if exp.area > parts.area * 1.0001:
                    c.event("hull_differs")
            n += 1
            g = got.get(q, [])
            if not c.check(len(g) >= 1, "cell is missing (or has another identifier)", sig="missing", cell=q, box=list(b.bounds)):
                return
            c.event("cell")
            d = min(shapely.force_2d(k).symmetric_difference(exp).area for k in g)
            if not c.check(d <= 1e-7 * b.area, "cell does not have the shape of its part of the grid", sig="shape", cell=q, expected=list(exp.bounds), got=list(g[0].bounds), diff=d):
                return
            for k in g:
                z = shapely.get_coordinates(k, include_z=True)[:, 2]
                if not c.check(np.allclose(z, a["elevation"], atol=1e-6), "cell is not at the requested elevation", sig="z", got=z[:3]):
                    return
            seen.append(exp if len(boxes) == 1 else None)
    if not n:
        c.event("empty_mask")
    extra = [q for q in got if q not in want]
    c.check(not extra, "unexpected cell", sig="unexpected", ids=extra[:3])
    # identifiers agree with the equally spaced points
    if strips is None and len(xs) <= nx:
        from tatc.generation import generate_equally_spaced_points
        pts = generate_equally_spaced_points(a["distance"], a["elevation"], mask)
        for q, p in list(zip(pts["point_id"], pts.geometry))[:4000]:
            if int(q) in got:
                c.event("point_in_cell")
                if not c.check(any(shapely.force_2d(g).distance(geo.Point(p.x, p.y)) < 1e-9 for g in got[int(q)]), "point is not in the cell with its identifier", sig="point", point=int(q), at=[p.x, p.y]):
                    break
            elif mask is None:
                c.fail("point without a cell of its identifier", sig="point-id", point=int(q))
                break


def fixed_cases():
    out = []
    for d in (1000e3, 2500e3, 5000e3, 1234567.0, np.pi * O.R_MEAN / 9, np.pi * O.R_MEAN / 7):
        for st in (None, "lat", "lon"):
            out.append({"distance": float(d), "elev": 0.0, "mask": None, "strips": st})
            out.append({"distance": float(d), "elev": 12.5, "mask": "POLYGON ((-10.5 -10.5, 40 -10.5, 40 50, -10.5 50, -10.5 -10.5))", "strips": st})
            out.append({"distance": float(d), "elev": 0.0, "mask": "POLYGON ((-180 -90, 180 -90, 180 90, -180 90, -180 -90))", "strips": st})
    return out


def gen(rng, i):
    masked = rng.random() < 0.75
    d = 10 ** rng.uniform(5.2 if masked else 5.75, 6.7)
    th = np.degrees(d / O.R_MEAN)
    return {"distance": W.r(d, 3), "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(-100, 9000), 1), "mask": gen_mask(rng, th * rng.uniform(0.5, 8)) if masked else None, "strips": [None, None, "lat", "lon"][int(rng.integers(4))]}


def run(case, c):
    from tatc import generation as g
    m = shapely.from_wkt(case["mask"]) if case["mask"] else None
    try:
        g.generate_equally_spaced_cells(case["distance"], case["elev"], m, case["strips"])
    except ValueError:
        if m is None or m.is_valid:
            raise

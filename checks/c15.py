"""C15: generated sample points are complete, unique and inside the mask."""
import numpy as np
import shapely
from shapely import geometry as geo
from shapely.ops import unary_union

from vp import core, geom as G, oracle as O, work as W

PROPERTY = "C15"
RULE = "a case counts when a generated point set was compared point by point with the lattice computed from the typical distance (and the mask)"
CASES = {"quick": 6000, "thorough": 40000}
REQUIRED_EVENTS = ["call:generate_fibonacci_lattice_points", "call:generate_equally_spaced_points", "fib_global", "fib_masked", "equal_global", "equal_masked", "mask_hole", "mask_multi", "mask_concave", "mask_past_180", "empty_mask", "invalid_mask", "kept", "dropped", "elevated"]
ASSUMPTIONS = ["points within 1e-7 deg of the mask edge are not judged", "masks reach past 180 deg only from the eastern hemisphere"]

PHI = (1 + 5 ** 0.5) / 2


def install():
    core.hook("tatc.generation.points.generate_fibonacci_lattice_points", lambda c, a, o, e, t: post(c, a, o, e, "fib"))
    core.hook("tatc.generation.points.generate_equally_spaced_points", lambda c, a, o, e, t: post(c, a, o, e, "equal"))


def fib(distance):
    th = distance / O.R_MEAN
    n = 4 * np.pi * O.R_MEAN ** 2 / (2 * np.pi * O.R_MEAN ** 2 * (1 - np.cos(th / 2)))
    near = abs(n - round(n)) < 2e-6 * n  # sphere or ellipsoid area
    n = int(n)
    i = np.arange(n)
    lat = np.degrees(np.arcsin(2 * (i + 1) / (n + 2) - 1))
    lon = G.wrap(360 * i / PHI)
    return n, i, lon, lat, near


def equal(distance):
    th = np.degrees(distance / O.R_MEAN)
    nx, ny = int(np.round(360 / th)), int(np.round(180 / th))
    j, i = np.divmod(np.arange(nx * ny), nx)
    return nx * ny, np.arange(nx * ny), -180 + (i + 0.5) * th, -90 + (j + 0.5) * th, th


def post(c, a, gdf, exc, kind):
    mask = a["mask"]
    if mask is not None and not mask.is_valid:
        c.event("invalid_mask")
        c.check(isinstance(exc, ValueError), "an invalid mask is not rejected", sig="invalid", got=repr(exc))
        return
    if exc is not None:
        return
    c.event(kind + ("_global" if mask is None else "_masked"))
    if a["elevation"]:
        c.event("elevated")
    ids = [int(x) for x in gdf["point_id"]] if len(gdf) else []
    lon, lat, z = (np.array([getattr(g, q) for g in gdf.geometry], float) for q in "xyz") if len(gdf) else (np.zeros(0),) * 3
    c.check(len(set(ids)) == len(ids), "identifiers are not unique", sig=kind + "-ids")
    c.check(np.allclose(z, a["elevation"], atol=1e-9), "points are not at the requested elevation", sig=kind + "-z")
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not 0..n-1", sig="index")
    if kind == "fib":
        n, ei, elon, elat, near = fib(a["distance"])
        if near:
            return
    else:
        n, ei, elon, elat, th = equal(a["distance"])
        if min(abs(360 / th % 1 - 0.5), abs(180 / th % 1 - 0.5)) < 1e-9:
            return
    c.state(kind, mask is None, min(n, 10 ** 6) // 1000, None if mask is None else mask.geom_type)
    if mask is None:
        if not c.check(len(gdf) == n, "number of points", sig=kind + "-count", got=len(gdf), expected=n):
            return
        if not c.check(sorted(ids) == list(range(n)), "identifiers are not 0..n-1", sig=kind + "-id-range"):
            return
        o = np.array(ids)
        bad = (np.abs(lat - elat[o]) > 1e-7) | (O.angdiff(lon, elon[o]) > 1e-6)
        c.check(not bad.any(), "a point is not at its lattice position", sig=kind + "-position", got=[[x, y] for x, y in zip(lon[bad], lat[bad])][:2], expected=[[x, y] for x, y in zip(elon[o][bad], elat[o][bad])][:2])
        if kind == "fib":
            c.check((np.abs(lat) < 90 - 1e-9).all() and (np.abs(lon) <= 180).all(), "point at a pole or off the map", sig="fib-range")
            # evenness, measured: counts in equal-area latitude bands x longitude sectors
            if n >= 2000:
                h, _, _ = np.histogram2d(np.sin(np.radians(lat)), lon, bins=[8, 8], range=[[-1, 1], [-180, 180]])
                c.check(np.abs(h - n / 64).max() <= 6 + 0.06 * n / 64, "points are not spread evenly", sig="fib-even", worst=float(np.abs(h - n / 64).max()), mean=n / 64)
        return
    if mask.bounds[2] > 180:
        c.event("mask_past_180")
        elon = np.where(elon < 0, elon + 360, elon) if kind == "fib" else elon
    if mask.geom_type == "MultiPolygon":
        c.event("mask_multi")
    if any(len(p.interiors) for p in getattr(mask, "geoms", [mask])):
        c.event("mask_hole")
    if mask.convex_hull.area > 1.01 * mask.area:
        c.event("mask_concave")
    ims = [(elon, ei)]
    if kind == "equal" and mask.bounds[2] > 180:
        # columns continue eastwards: column i + 360/step is column i of the grid
        nx = int(np.round(360 / th))
        ims.append((-180 + (ei % nx + nx + 0.5) * th, ei))
    edge = mask.boundary
    shapely.prepare(mask)
    shapely.prepare(edge)
    want = {}
    unsure = set()
    for xs, ii in ims:
        near = shapely.dwithin(shapely.points(xs, elat), edge, 1e-7)
        inside = shapely.contains_xy(mask, xs, elat) & ~near
        unsure |= set(ii[near].tolist())
        for k in np.nonzero(inside)[0]:
            want.setdefault(int(ii[k]), []).append((xs[k], elat[k]))
    got = {}
    for q, x, y in zip(ids, lon, lat):
        got.setdefault(q, []).append((x, y))
    c.event("kept", len(want))
    c.event("dropped", n - len(want))
    if not want:
        c.event("empty_mask")
    miss = [q for q in want if q not in got and q not in unsure]
    extra = [q for q in got if q not in want and q not in unsure]
    c.check(not miss, "point inside the mask is missing (or has another identifier)", sig=kind + "-missing", n=len(miss), example=[[q, want[q]] for q in miss[:2]], mask=list(mask.bounds))
    c.check(not extra, "point outside the mask is returned (or has another identifier)", sig=kind + "-extra", n=len(extra), example=[[q, got[q]] for q in extra[:2]], mask=list(mask.bounds))
    for q in want:
        if q in got and q not in unsure:
            w, g = want[q][0], got[q][0]
            if not c.check(abs(w[0] - g[0]) < 1e-6 and abs(w[1] - g[1]) < 1e-7, "masked point is not at its lattice position", sig=kind + "-masked-position", expected=w, got=g):
                break


def gen_mask(rng, size):
    kind = str(rng.choice(["box", "poly", "concave", "hole", "multi", "past", "tiny", "bad", "wide", "polar"]))
    x, y = rng.uniform(-150, 130), rng.uniform(-70, 60)
    s = float(size)
    if kind == "box":
        m = geo.box(x, y, min(180, x + rng.uniform(.3, 3) * s), min(90, y + rng.uniform(.3, 3) * s))
    elif kind == "poly":
        m = geo.Point(x, y).buffer(min(20, s * rng.uniform(.3, 2)), 3)
    elif kind == "concave":
        m = geo.Polygon([(x, y), (x + 2 * s, y), (x + 2 * s, y + s), (x + .7 * s, y + .6 * s), (x + 2 * s, y + 1.4 * s), (x, y + 1.5 * s)])
        if m.bounds[2] > 180 or m.bounds[3] > 90:
            m = geo.box(x, y, min(180, x + s), min(90, y + s))
    elif kind == "hole":
        o = geo.Point(x, y).buffer(min(20, s * 2), 4)
        m = o.difference(geo.Point(x, y).buffer(min(8, s), 4))
    elif kind == "multi":
        m = unary_union([geo.Point(x, y).buffer(min(10, s), 4), geo.box(x + 22, y, x + 22 + min(20, s), y + min(15, s)), geo.box(-170, -80, -165, -60)])
    elif kind == "past":
        m = geo.box(rng.uniform(150, 179), y, rng.uniform(181, 230), min(90, y + s + 5))
    elif kind == "tiny":
        m = geo.box(x, y, x + s * 0.02, y + s * 0.02)
    elif kind == "wide":
        m = geo.box(-180, max(-90, y - 5), 180, min(90, y + s + 5))
    elif kind == "polar":
        m = geo.box(-180, 60, x, 90) if rng.random() < 0.5 else geo.box(x, -90, 180, -62)
    else:
        m = geo.Polygon([(x, y), (x + 10, y + 10), (x + 10, y), (x, y + 10)])
    return shapely.to_wkt(m, rounding_precision=4)


def fixed_cases():
    out = []
    for d in (500e3, 1000e3, 2500e3, 5000e3, 1234567.0, np.pi * O.R_MEAN / 90, np.pi * O.R_MEAN / 7):
        for k in ("fib", "equal"):
            out.append({"kind": k, "distance": float(d), "elev": 0.0, "mask": None})
            out.append({"kind": k, "distance": float(d), "elev": 12.5, "mask": "POLYGON ((-10 -10, 40 -10, 40 50, -10 50, -10 -10))"})
            out.append({"kind": k, "distance": float(d), "elev": 0.0, "mask": "POLYGON ((-180 -90, 180 -90, 180 90, -180 90, -180 -90))"})
    return out


def gen(rng, i):
    kind = "fib" if rng.random() < 0.5 else "equal"
    masked = rng.random() < 0.75
    d = 10 ** rng.uniform(5.2 if masked else 5.5, 6.7)
    th = np.degrees(d / O.R_MEAN)
    return {"kind": kind, "distance": W.r(d, 3), "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(-100, 9000), 1), "mask": gen_mask(rng, th * rng.uniform(0.5, 8)) if masked else None}


def run(case, c):
    from tatc import generation as g
    f = g.generate_fibonacci_lattice_points if case["kind"] == "fib" else g.generate_equally_spaced_points
    m = shapely.from_wkt(case["mask"]) if case["mask"] else None
    try:
        f(case["distance"], case["elev"], m)
    except ValueError:
        if m is None or m.is_valid:
            raise

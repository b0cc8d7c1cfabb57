"""C30: buffered targets and footprints reach exactly as far as stated."""
import numpy as np
import shapely
from pyproj import Transformer
from shapely import geometry as geo
from shapely.ops import transform

from vp import core, geom as G, oracle as O, work as W

PROPERTY = "C30"
RULE = "a case counts when ground probes around a buffered target or footprint were compared with their planar distance (in the stated system) to the geometry, or a region was projected to an elevation"
CASES = {"quick": 6000, "thorough": 60000}
REQUIRED_EVENTS = ["call:buffer_target", "call:buffer_footprint", "call:project_polygon_to_elevation", "probe_in", "probe_out", "target:Point", "target:Polygon", "target:MultiPolygon", "target:LineString",
                   "over_antimeridian", "over_pole", "scaled", "utm", "ups", "hole", "multi_projected", "stepping", "still", "retrograde", "at_rim", "wide", "wide_over_antimeridian"]
ASSUMPTIONS = ["probes within 1.5 % of the stated distance (the circle is drawn as a polygon), 1e-4 deg of the antimeridian, 0.01 deg of a pole or (in systems other than the cylindrical one) half the distance of a pole are not judged",
               "buffers narrower than 350 deg of longitude (170 deg if they reach over a pole) and reaching less than 80 deg past a pole", "target buffers may deviate by the documented 5 % simplification tolerance"]
MU = 3.986004418e14


def install():
    core.hook("tatc.utils.buffer_target", post_target, pre=lambda c, a: shapely.to_wkb(a["geometry"]))
    core.hook("tatc.utils.buffer_footprint", post_footprint, pre=lambda c, a: shapely.to_wkb(a["geometry"]))
    core.hook("tatc.utils.project_polygon_to_elevation", post_project, pre=lambda c, a: shapely.to_wkb(a["polygon"]))


def fwd(crs):
    return Transformer.from_crs("EPSG:4326", crs, always_xy=True)


def probe(c, what, src, out, D, to, cyl, tol):
    """compare membership of ground probes with planar distance to src"""
    flat = shapely.force_2d(transform(to.transform, src))
    rng = np.random.default_rng(11)
    rep = flat.representative_point()
    edge = shapely.get_coordinates(flat)
    n = 160
    at = edge[rng.integers(0, len(edge), n)]
    th = rng.uniform(0, 2 * np.pi, n)
    rad = D * np.concatenate([rng.uniform(0, 1.6, n // 2), 1 + rng.choice([-1, 1], n - n // 2) * rng.uniform(tol, 4 * tol, n - n // 2)])
    xy = np.concatenate([at + np.stack([rad * np.cos(th), rad * np.sin(th)], 1), np.array([[rep.x, rep.y]])])
    back = Transformer.from_crs(to.target_crs, "EPSG:4326", always_xy=True)
    if cyl:
        # brought back onto the map: half a turn away beyond a pole
        k, yp = to.transform(1.0, 0.0)[0], to.transform(0.0, 90.0)[1]
        x, y = xy[:, 0], xy[:, 1]
        n_, s_ = y > yp, y < -yp
        x = np.where(n_ | s_, x + 180 * k, x)
        y = np.where(n_, 2 * yp - y, np.where(s_, -2 * yp - y, y))
        lon = G.wrap(x / k)
        lat = np.asarray(back.transform(np.zeros(len(y)), y)[1])
        best = np.full(lon.shape, np.inf)
        for m in (-360, 0, 360):
            for lo, yy in ((lon, y), (lon + 180, 2 * yp - y), (lon + 180, -2 * yp - y)):
                best = np.minimum(best, shapely.distance(flat, shapely.points((lo + m) * k, yy)))
        if (np.abs(shapely.get_coordinates(transform(lambda x, y: (x / k, y / k), flat.buffer(D)))[:, 0]) > 180).any():
            c.event("over_antimeridian")
            if flat.bounds[2] - flat.bounds[0] > 180 * k:
                c.event("wide_over_antimeridian")
        if flat.bounds[2] - flat.bounds[0] > 180 * k:
            c.event("wide")
        if np.any(n_ | s_):
            c.event("over_pole")
    else:
        lon, lat = back.transform(xy[:, 0], xy[:, 1])
        best = shapely.distance(flat, shapely.points(xy[:, 0], xy[:, 1]))
    lon, lat = np.asarray(lon, float), np.asarray(lat, float)
    ok = np.isfinite(lon) & np.isfinite(lat)
    lon, lat, best = lon[ok], lat[ok], best[ok]
    ok = (np.abs(best - D) > 0.9 * tol * D) & ~G.seam(lon, lat)
    if not cyl:
        # outlines are straight in longitude and latitude between their points
        ok &= (90 - np.abs(lat)) * 111e3 > 0.5 * D
    got = G.covers(out, lon, lat)
    want = best < D
    c.event("probe_in", int((ok & want).sum()))
    c.event("probe_out", int((ok & ~want).sum()))
    c.event("at_rim", int((ok & (np.abs(best - D) < 4 * tol * D)).sum()))
    bad = ok & (got != want)
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        c.fail(f"{what}: ground at {best[j] / D:.4f} of the distance is {'left out' if want[j] else 'included'}", sig=f"{what}-{'short' if want[j] else 'long'}",
               at=[lon[j], lat[j]], n=int(bad.sum()), of=int(ok.sum()), distance=D, src=src.wkt[:400], out=out.wkt[:600])
    else:
        c.check(True, "")


def post_target(c, a, out, exc, token):
    src = shapely.from_wkb(token)
    c.check(a["geometry"].equals_exact(src, 0), "the target passed in is modified", sig="target-modified")
    if exc is not None:
        return
    h, inc, F, dt = a["altitude"], a["inclination"], a["field_of_regard"], a["time_step"]
    r = O.R_MEAN + h
    v = O.R_MEAN * (np.sqrt(MU / r ** 3) - 2 * np.pi * np.cos(np.radians(inc)) / 86164.090530833)
    D = (v * dt + O.swath(h, F) / 2) * a["distance_scaling"]
    c.event("target:" + src.geom_type)
    c.event("stepping" if dt else "still")
    if a["distance_scaling"] != 1:
        c.event("scaled")
    if inc > 90:
        c.event("retrograde")
    cyl = a["distance_crs"] == "EPSG:4087"
    if not G.on_map(c, out, "target"):
        return
    probe(c, "target", src, out, D, fwd(a["distance_crs"]), cyl, 0.06)
    c.state("target", src.geom_type, cyl, round(np.log10(D)), out.geom_type)


def post_footprint(c, a, out, exc, token):
    src = shapely.from_wkb(token)
    c.check(a["geometry"].equals_exact(src, 0), "the geometry passed in is modified", sig="footprint-modified")
    if exc is not None:
        return
    to = a["to_crs"]
    code = to.target_crs.to_epsg()
    c.event("target:" + src.geom_type)
    c.event("utm" if 32600 < code < 32800 else "ups" if code in (5041, 5042, 32661, 32761) else "cylindrical")
    if not G.on_map(c, out, "footprint", a["elevation"]):
        return
    probe(c, "footprint", src, out, a["swath_width"] / 2, fwd(f"EPSG:{code}"), code == 4087, 0.015)
    c.state("footprint", src.geom_type, code == 4087, round(np.log10(a["swath_width"])), out.geom_type)


def post_project(c, a, out, exc, token):
    src = shapely.from_wkb(token)
    c.check(a["polygon"].equals_exact(src, 0), "the region passed in is modified", sig="project-modified")
    if exc is not None:
        return
    if not c.check(out.geom_type == src.geom_type, "projecting to an elevation changes the kind of region", sig="project-type", got=out.geom_type, want=src.geom_type):
        return
    cs = shapely.get_coordinates(out, include_z=True)
    c.check(out.has_z and bool(np.all(cs[:, 2] == a["elevation"])), "region is not at the requested elevation", sig="project-z", want=a["elevation"], got=sorted(set(map(str, cs[:, 2])))[:4])
    c.check(shapely.force_2d(out).equals_exact(shapely.force_2d(src), 0), "projecting to an elevation moves or drops part of the outline", sig="project-xy", src=src.wkt[:400], out=out.wkt[:400])
    if src.geom_type == "MultiPolygon":
        c.event("multi_projected")
    if any(len(p.interiors) for p in (src.geoms if hasattr(src, "geoms") else [src])):
        c.event("hole")


def fixed_cases():
    return []


def shape(rng, kind, lon, lat, size):
    if kind == "Point":
        return {"type": "Point", "coordinates": [lon, lat]}
    if kind == "LineString":
        n = int(rng.integers(2, 5))
        return geo.mapping(geo.LineString([(lon + W.r(rng.uniform(-1, 1) * size), lat + W.r(rng.uniform(-1, 1) * size)) for _ in range(n)]))
    n = int(rng.integers(3, 9))
    th = np.linspace(0, 2 * np.pi, n, endpoint=False)
    p = geo.Polygon([(W.r(lon + size * np.cos(t)), W.r(lat + size * rng.uniform(0.4, 1) * np.sin(t))) for t in th])
    if kind == "hole":
        return geo.mapping(geo.Polygon(p.exterior.coords, [p.representative_point().buffer(size * 0.1, 2).exterior.coords]))
    if kind == "MultiPolygon":
        q = shapely.transform(p, lambda x: (x - [lon, lat]) * 0.3 + [lon, lat])
        return geo.mapping(geo.MultiPolygon([shapely.transform(q, lambda x: x + [size * 0.8 * s, 0]) for s in (-1, 1)]))
    return geo.mapping(p)


def gen(rng, i):
    u = i % 4
    if u < 2:
        F = W.r(rng.uniform(2, 120), 2) if rng.random() < 0.8 else float(rng.choice([180.0, 1.0]))
        h = float(rng.integers(300, 1500)) * 1000
        dt = 0.0 if rng.random() < 0.2 else W.r(rng.uniform(1, 240), 1)
        inc = W.r(rng.uniform(0, 180), 2)
        reach = np.degrees((7500 * dt + O.swath(h, F) / 2) / 6378137)
        sc = 1.0 if rng.random() < 0.5 else W.r(rng.uniform(0.3, 2.0), 3)
        while reach * sc > 55:
            dt, sc = dt / 2, max(0.3, sc / 1.5)
            F = min(F, 60)
            reach = np.degrees((7500 * dt + O.swath(h, F) / 2) / 6378137)
        reach *= sc
        size = W.r(rng.uniform(0.3, 12), 3)
        lat = W.r(rng.uniform(-1, 1) * (88.5 - size), 4)
        lon = W.r(rng.uniform(-180 + size * 1.9, 180 - size * 1.9), 4)
        if rng.random() < 0.3:
            lon = float(np.sign(lon)) * (180 - 2 * size - W.r(rng.uniform(0, 0.8) * reach, 3))
            lon = W.r(np.clip(lon, -180 + 2 * size, 180 - 2 * size), 4)
        if rng.random() < 0.12:
            # regions wider than half the globe
            if reach > 14:
                h, F, dt, sc = 600e3, 40.0, 10.0, 1.0
                reach = 3.0
            w = rng.uniform(172, 348 - 2 * reach)
            x = rng.uniform(-180, 180 - w) if rng.random() < 0.6 else float(rng.choice([-180.0, 180 - w]))
            y = rng.uniform(-85 + reach, 70 - reach)
            t = rng.uniform(y + 1, 86 - reach)
            q = [(x, y), (x + w, y), (x + w, t)] + ([(x + w / 2, (y + t) / 2)] if rng.random() < 0.4 else []) + [(x, t)]
            return {"what": "target", "geometry": geo.mapping(geo.Polygon([(W.r(a, 4), W.r(b, 4)) for a, b in q])), "h": h, "inc": inc, "F": F, "dt": dt, "sc": sc}
        kind = str(rng.choice(["Point", "Polygon", "hole", "MultiPolygon", "Polygon", "LineString"]))
        return {"what": "target", "geometry": shape(rng, kind, lon, lat, size), "h": h, "inc": inc, "F": F, "dt": dt, "sc": sc}
    if u == 2:
        sys = str(rng.choice(["EPSG:4087", "EPSG:4087", "utm", "ups"]))
        z = 0.0 if rng.random() < 0.4 else W.r(rng.uniform(-100, 9000), 1)
        if sys == "utm":
            zone = int(rng.integers(1, 61))
            lon = W.r(-183 + 6 * zone + rng.uniform(-2.5, 2.5), 4)
            lat = W.r(rng.uniform(-75, 75), 4)
            code = f"EPSG:{32600 + zone if lat >= 0 else 32700 + zone}"
            w = float(10 ** rng.uniform(3, 5.3))
        elif sys == "ups":
            s = int(rng.choice([-1, 1]))
            lat, lon = s * W.r(rng.uniform(84, 89.9), 4), W.r(rng.uniform(-180, 180), 4)
            code = "EPSG:5041" if s > 0 else "EPSG:5042"
            w = float(10 ** rng.uniform(3, 5.5))
        else:
            lat, lon = W.r(rng.uniform(-89, 89), 4), W.r(rng.uniform(-180, 180), 4)
            if rng.random() < 0.4:
                lon = W.r(np.sign(lon) * rng.uniform(170, 180), 4)
            code, w = sys, float(10 ** rng.uniform(3, 6.8))
        kind = "Point" if sys != "EPSG:4087" or rng.random() < 0.6 else "LineString"
        g = shape(rng, kind, lon, lat, 3.0)
        if kind == "LineString":
            g = geo.mapping(geo.LineString([(np.clip(x, -180, 180), np.clip(y, -89, 89)) for x, y in g["coordinates"]]))
        return {"what": "footprint", "geometry": g, "crs": code, "w": W.r(w, 1), "z": z}
    size = W.r(rng.uniform(0.3, 12), 3)
    return {"what": "project", "geometry": shape(rng, str(rng.choice(["Polygon", "hole", "MultiPolygon"])), W.r(rng.uniform(-150, 150), 3), W.r(rng.uniform(-70, 70), 3), size),
            "z": float(rng.choice([0.0, -50.0, 1234.5, 8848.0])), "has_z": bool(rng.random() < 0.3)}


def run(case, c):
    from tatc import utils as U
    g = geo.shape(case["geometry"])
    if case["what"] == "target":
        kw = {} if case["sc"] == 1 else {"distance_scaling": case["sc"]}
        U.buffer_target(g, case["h"], case["inc"], case["F"], case["dt"], **kw)
    elif case["what"] == "footprint":
        to = fwd(case["crs"])
        back = Transformer.from_crs(case["crs"], "EPSG:4326", always_xy=True)
        U.buffer_footprint(g, to, back, case["w"], case["z"])
    else:
        U.project_polygon_to_elevation(shapely.force_3d(g, 77.0) if case["has_z"] else g, case["z"])

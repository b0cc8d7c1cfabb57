"""C24: splitting a polygon keeps its ground coverage and stays on the map."""
import geopandas as gpd
import numpy as np
import shapely
from shapely import geometry as geo

from vp import core, geom as G, oracle as O, work as W

PROPERTY = "C24"
RULE = "a case counts when a polygon, multi-polygon or table was split or normalized and ground probes inside and outside it were compared with the outline read as a continuous curve"
CASES = {"quick": 6000, "thorough": 60000}
REQUIRED_EVENTS = ["call:split_polygon", "call:normalize_geometry", "unchanged", "crosses_antimeridian", "encloses_north", "encloses_south", "past_90", "past_minus_90", "concave", "clockwise", "rotated_start", "holes_kept", "multi",
                   "table", "empty_table", "named_column", "repeated_label", "invalid_rejected", "probe_in", "probe_out", "wide_crossing", "hole_split", "hole_past_90", "hole_split_pole"]
ASSUMPTIONS = ["edges take the short way round (less than 180 deg of longitude)", "pole-enclosing outlines visit longitudes in order",
               "probes within 1e-6 deg of the outline, 1e-4 deg of the antimeridian or 0.01 deg of a pole are not judged"]


def install():
    core.hook("tatc.utils.split_polygon", post_split, pre=lambda c, a: shapely.to_wkb(a["polygon"]))
    core.hook("tatc.utils.normalize_geometry", post_norm, pre=pre_norm)


def unwrap(coords):
    xy = np.array([(p[0], p[1]) for p in coords], float)
    lon = xy[:, 0].copy()
    d = np.diff(lon)
    lon[1:] -= 360 * np.cumsum(np.around(d / 360))
    return lon, xy[:, 1]


class Region:
    """Ground covered by one polygon, its outline read as a continuous curve."""

    def __init__(self, p):
        self.p = p
        lon, lat = unwrap(p.exterior.coords)
        self.net = lon[-1] - lon[0]
        self.jump = bool(np.any(np.abs(np.diff(np.array(p.exterior.coords)[:, 0])) >= 180))
        self.over = bool(np.any(np.abs(lat) > 90))
        self.pole = abs(self.net) > 180
        self.lon, self.lat = lon, lat
        self.holes = []
        for i in p.interiors:
            x, y = unwrap(i.coords)
            self.holes.append(geo.Polygon(list(zip(x, y))))
        if not self.pole:
            shell = geo.Polygon(list(zip(lon, lat)))
            if self.jump and shell.is_valid:
                self.holes = [next((g for k in (0, 1, -1) for g in [shapely.transform(h, lambda q: q + [360 * k, 0])] if shell.contains(g)), h) for h in self.holes]
            self.plane = geo.Polygon(list(zip(lon, lat)), [h.exterior.coords for h in self.holes])
        else:
            s = np.sign(self.net)
            self.mono = bool(np.all(np.diff(lon) * s >= 0))
            self.north = np.mean(np.array(p.exterior.coords)[:-1, 1]) > 0
            o = np.argsort(lon)
            l, a = lon[o], lat[o]
            self.tab = np.concatenate([l - 360, l, l + 360]), np.concatenate([a, a, a])

    def member(self, lon, lat):
        """(inside, near) arrays"""
        lon, lat = np.asarray(lon, float), np.asarray(lat, float)
        if self.pole:
            lo = self.lon.min() + (lon - self.lon.min()) % 360
            b = np.interp(lo, *self.tab)
            inside, near = (lat > b if self.north else lat < b), np.abs(lat - b) < 1e-4
            for h in self.holes:
                for k in (-360, 0, 360):
                    inside &= ~shapely.contains_xy(h, lon + k, lat)
                    near |= shapely.distance(h.exterior, shapely.points(lon + k, lat)) < 1e-6
            return inside, near
        inside, near = np.zeros(lon.shape, bool), np.zeros(lon.shape, bool)
        im = [(lon + 360 * k, lat) for k in (-2, -1, 0, 1, 2)]
        if self.over:
            im += [(lon + 180 + 360 * k, 180 - lat) for k in (-2, -1, 0, 1)] + [(lon + 180 + 360 * k, -180 - lat) for k in (-2, -1, 0, 1)]
        edge = self.plane.boundary
        for x, y in im:
            inside |= shapely.contains_xy(self.plane, x, y)
            near |= shapely.distance(edge, shapely.points(x, y)) < 1e-6
        return inside, near


def parts(g):
    return list(g.geoms) if hasattr(g, "geoms") else [g]


def probes(regs, rng):
    lo, la = [], []

    def hole(r):
        for h in r.holes:
            b = h.bounds
            m = 0.2 * max(b[2] - b[0], b[3] - b[1])
            x, y = rng.uniform(b[0] - m, b[2] + m, 40), rng.uniform(b[1] - m, b[3] + m, 40)
            n, s = y > 90, y < -90
            lo.append(np.where(n | s, x + 180, x)); la.append(np.where(n, 180 - y, np.where(s, -180 - y, y)))
    for r in regs:
        b = (r.lon.min(), r.lat.min(), r.lon.max(), r.lat.max())
        m = 0.15 * max(b[2] - b[0], b[3] - b[1]) + 0.01
        if r.pole:
            lo.append(rng.uniform(-180, 180, 60)); la.append(rng.uniform(-90, 90, 60))
            lo.append(rng.uniform(-180, 180, 60))
            la.append(np.interp(lo[-1], *r.tab) + rng.normal(0, 3, 60))
            hole(r)
            continue
        x, y = rng.uniform(b[0] - m, b[2] + m, 120), rng.uniform(b[1] - m, b[3] + m, 120)
        k = rng.integers(0, len(r.lon), 40)
        x, y = np.append(x, r.lon[k] + rng.normal(0, m / 5, 40)), np.append(y, r.lat[k] + rng.normal(0, m / 5, 40))
        n, s = y > 90, y < -90
        x = np.where(n | s, x + 180, x)
        y = np.where(n, 180 - y, np.where(s, -180 - y, y))
        lo.append(x); la.append(y)
        hole(r)
    f = G.fibonacci(60)
    lo.append(f[0]); la.append(f[1])
    lo, la = G.wrap(np.concatenate(lo)), np.clip(np.concatenate(la), -90, 90)
    return lo, la


def judge(c, src, out, what):
    ps = [p for p in parts(src) if p.geom_type == "Polygon"]
    if not ps or len(ps) != len(parts(src)):
        return
    regs = [Region(p) for p in ps]
    if any(r.pole and not r.mono for r in regs):
        return
    d = {"src": src.wkt[:1500]}
    plain = not any(r.jump or r.over for r in regs)
    for r in regs:
        if r.pole:
            c.event("encloses_north" if r.north else "encloses_south")
        elif r.jump:
            c.event("crosses_antimeridian")
            if np.ptp(r.lon) > 180:
                c.event("wide_crossing")
        if r.lat.max() > 90:
            c.event("past_90")
        if r.lat.min() < -90:
            c.event("past_minus_90")
        c.event("clockwise" if not r.p.exterior.is_ccw else "counterclockwise")
        if not r.pole and r.plane.is_valid and r.plane.area < 0.98 * r.plane.convex_hull.area:
            c.event("concave")
        if len(r.p.interiors):
            c.event("holes_kept", plain)
    if plain and src.is_valid:
        c.event("unchanged")
        c.check(out.geom_type == src.geom_type and out.equals(src) and (src.geom_type != "Polygon" or list(out.exterior.coords) == list(src.exterior.coords)) and
                sum(len(p.interiors) for p in parts(out)) == sum(len(p.interiors) for p in ps),
                f"{what}: a polygon that needs no splitting is changed", sig="unchanged", out=out.wkt[:800], **d)
        return
    if any(not r.pole and not r.plane.is_valid for r in regs):
        return
    if not G.on_map(c, out, what):
        return
    rng = np.random.default_rng(7)
    lo, la = probes(regs, rng)
    ins, near = np.zeros(lo.shape, bool), np.zeros(lo.shape, bool)
    for r in regs:
        if len(r.p.interiors) and (r.jump or r.over):
            c.event("hole_split_pole" if r.pole else "hole_past_90" if r.over else "hole_split")
        a, b = r.member(lo, la)
        ins |= a
        near |= b
    ok = ~near & ~G.seam(lo, la)
    got = G.covers(out, lo, la)
    bad = ok & (got != ins)
    c.event("probe_in", int((ok & ins).sum()))
    c.event("probe_out", int((ok & ~ins).sum()))
    if bad.any():
        j = int(np.nonzero(bad)[0][0])
        c.fail(f"{what}: ground {'lost' if ins[j] else 'gained'}", sig="lost" if ins[j] else "gained", at=[lo[j], la[j]], n=int(bad.sum()), of=int(ok.sum()), out=out.wkt[:1200], **d)
    else:
        c.check(True, "")
    c.state(src.geom_type, len(ps), out.geom_type, len(parts(out)), plain)


def post_split(c, a, out, exc, token):
    src = shapely.from_wkb(token)
    c.check(a["polygon"].equals_exact(src, 0), "the polygon passed in is modified", sig="modified")
    if exc is not None or src.geom_type not in ("Polygon", "MultiPolygon"):
        return
    judge(c, src, out, "split")


def pre_norm(c, a):
    g = a["geometry"]
    if isinstance(g, (geo.Polygon, geo.MultiPolygon)):
        return shapely.to_wkb(g)
    return g.copy()


def post_norm(c, a, out, exc, token):
    g = a["geometry"]
    if isinstance(g, (geo.Polygon, geo.MultiPolygon)):
        src = shapely.from_wkb(token)
        c.check(g.equals_exact(src, 0), "the geometry passed in is modified", sig="norm-modified")
        if not src.is_valid:
            c.event("invalid_rejected")
            c.check(isinstance(exc, ValueError), "an invalid polygon is not rejected", sig="invalid", got=repr(exc), wkt=src.wkt[:500])
            return
        if exc is not None:
            return
        c.check(isinstance(out, gpd.GeoDataFrame) and len(out) == 1 and out.crs is not None and out.crs.to_epsg() == 4326, "not a one-row table in longitude and latitude", sig="norm-form")
        judge(c, src, out.iloc[0].geometry, "normalize")
        return
    if exc is not None:
        return
    c.event("table")
    series = isinstance(token, gpd.GeoSeries)
    sg = token if series else token.geometry
    og = g if series else g.geometry
    c.check(all(x.equals_exact(y, 0) for x, y in zip(og, sg)) and list(g.index) == list(token.index), "the table passed in is modified", sig="norm-table-modified")
    if not len(token):
        c.event("empty_table")
        c.check(isinstance(out, gpd.GeoDataFrame) and out.crs is not None and out.crs.to_epsg() == 4326, "an empty table is not kept in longitude and latitude", sig="norm-empty")
    if not series and token.geometry.name != "geometry":
        c.event("named_column")
        c.check(out.geometry.name == token.geometry.name, "the geometry column is not kept", sig="norm-name", got=str(out.geometry.name))
    if len(set(token.index)) < len(token):
        c.event("repeated_label")
    c.check(len(out) == len(token) and list(out.index) == list(token.index), "rows of the table are not kept", sig="norm-rows")
    if not series:
        for col in token.columns:
            if col != token.geometry.name:
                c.check(col in out.columns and list(out[col]) == list(token[col]), "columns of the table are not kept", sig="norm-cols", col=col)
    for s, o in zip(sg, out.geometry):
        judge(c, s, o, "normalize")


def build(d):
    ps = [geo.Polygon(p["shell"], p.get("holes", [])) for p in d["parts"]]
    return ps[0] if len(ps) == 1 and not d.get("multi") else geo.MultiPolygon(ps)


def run(case, c):
    from tatc import utils as U
    gs = [build(d) for d in case["geoms"]]
    for t in case.get("tags", []):
        c.event(t)
    if any(isinstance(g, geo.MultiPolygon) for g in gs):
        c.event("multi")
    if case["what"] == "split":
        U.split_polygon(gs[0])
    elif case["what"] == "norm":
        try:
            U.normalize_geometry(gs[0])
        except ValueError:
            if gs[0].is_valid:
                raise
    else:
        if case["what"] == "series":
            t = gpd.GeoSeries(gs, crs="EPSG:4326")
        else:
            t = gpd.GeoDataFrame({"name": [f"r{k}" for k in range(len(gs))], "value": list(range(len(gs)))}, geometry=gs, crs="EPSG:4326", index=case.get("index"))
            if case.get("name"):
                t = t.rename_geometry(case["name"])
        U.normalize_geometry(t)


def outline(rng, kind, cx, cy, rx, ry):
    n = int(rng.integers(3, 24))
    th = np.sort(rng.uniform(0, 2 * np.pi, n)) if kind != "box" else np.array([0.25, 0.75, 1.25, 1.75]) * np.pi
    if kind != "box":
        th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(0, 0.8 * 2 * np.pi / n, n)
    rad = np.ones(len(th)) if kind != "star" else rng.uniform(0.35, 1, len(th))
    if kind == "box":
        rad = rad * np.sqrt(2)
    return np.stack([cx + rx * rad * np.cos(th), cy + ry * rad * np.sin(th)], 1)


def one(rng, tags, small=False):
    u = rng.random()
    kind = str(rng.choice(["convex", "star", "box"]))
    if u < 0.2 and not small:  # pole cap
        n = int(rng.integers(5, 30))
        lon = np.sort(rng.uniform(-180, 180, n))
        while np.max(np.diff(np.append(lon, lon[0] + 360))) > 150:
            n += 2
            lon = np.sort(rng.uniform(-180, 180, n))
        base = rng.uniform(20, 85)
        lat = np.clip(base + rng.uniform(-1, 1, n) * min(15, 89 - base), 6, 89.5)
        s = rng.choice([-1, 1])
        p = np.stack([lon, s * lat], 1)
        if rng.random() < 0.5:
            p = p[::-1]
    else:
        cx, cy = rng.uniform(-180, 180), rng.uniform(-70, 70)
        rx, ry = (rng.uniform(0.05, 20), rng.uniform(0.05, 15)) if rng.random() < 0.7 or small else (rng.uniform(20, 80), rng.uniform(5, 40))
        v = rng.random()
        if v < 0.5:
            cx = rng.choice([-180, 180]) + rng.uniform(-1, 1) * rx
        if rng.random() < 0.3:
            cy = rng.choice([-1, 1]) * (90 - rng.uniform(-0.8, 1) * ry)
            if rng.random() < 0.4:  # barely past the pole, both sides of the prime meridian
                cx, cy = rng.uniform(-1, 1) * rx, np.sign(cy) * (90 - ry + 10 ** rng.uniform(-2.0, 1.0))
            if abs(cx) + rx > 180 and rng.random() < 0.6:
                cx = float(np.clip(cx, -175 + rx, 175 - rx)) if rx < 175 else 0.0
        if rng.random() < 0.04 and not small:  # wide band crossing the antimeridian on both sides
            xs = np.linspace(-200 - rng.uniform(-15, 15), 200 - 60 + rng.uniform(-60, 15), 9)
            top, bot = rng.uniform(5, 30, 9), rng.uniform(-30, -5, 9)
            xs = xs if xs[-1] - xs[0] < 355 else np.linspace(xs[0], xs[0] + 350, 9)
            p = np.concatenate([np.stack([xs, bot], 1), np.stack([xs[::-1], top[::-1]], 1)])
        else:
            if not small or True:
                ry = min(ry, 80)
            p = outline(rng, kind, cx, cy, rx, ry)
            if not (abs(cy) > 60 and rng.random() < 0.7):
                p[:, 1] = np.clip(p[:, 1], -89.9, 89.9)
            p[:, 1] = np.clip(p[:, 1], -170, 170)
        if rng.random() < 0.4:
            p = p[::-1]
    k = int(rng.integers(0, len(p)))
    if k:
        tags.append("rotated_start")
    p = np.roll(p, k, axis=0)
    p[:, 0] = np.round(G.wrap(p[:, 0]), 5)
    p[:, 1] = np.round(p[:, 1], 5)
    d = {"shell": [list(map(float, q)) for q in p] + [list(map(float, p[0]))]}
    lon = p[:, 0]
    if np.ptp(lon) < 170 and np.abs(p[:, 1]).max() <= 90 and kind in ("convex", "box") and rng.random() < 0.5:
        ctr = geo.Polygon(d["shell"]).representative_point()
        g = geo.Polygon(d["shell"])
        if g.is_valid and not g.is_empty:
            h = ctr.buffer(0.3 * max(1e-3, g.boundary.distance(ctr)), 2)
            d["holes"] = [[list(q) for q in h.exterior.coords]]
    elif rng.random() < 0.4:
        r = Region(geo.Polygon(d["shell"]))
        if r.pole:
            x = rng.uniform(-180, 180)
            b = float(np.interp(r.lon.min() + (x - r.lon.min()) % 360, *r.tab))
            y = b + rng.uniform(0.3, 0.8) * ((90 if r.north else -90) - b)
            h = geo.Point(x, y).buffer(0.1 * abs((90 if r.north else -90) - b), 3)
            cut = geo.LineString([(-400, b), (400, b)]) if not r.mono else geo.LineString(np.stack(r.tab, 1)[np.argsort(r.tab[0])])
            if not (abs(x) < 150 and r.mono) or cut.intersects(h.buffer(0.05)):
                h = None
        else:
            h = None
            if r.plane.is_valid:
                for _ in range(10):
                    q = geo.Point(rng.uniform(r.lon.min(), r.lon.max()), rng.uniform(r.lat.min(), r.lat.max()))
                    m = r.plane.exterior.distance(q)
                    if r.plane.contains(q) and m > 0.02:
                        h = q.buffer(m * rng.uniform(0.2, 0.8), 2)
                        break
        if h is not None:
            d["holes"] = [[[float(np.round(G.wrap(q[0]), 5)), float(np.round(q[1], 5))] for q in h.exterior.coords]]
    return d


def gen(rng, i):
    tags = []
    what = str(rng.choice(["split", "split", "norm", "table", "series"]))

    def geom():
        if rng.random() < 0.75:
            return {"parts": [one(rng, tags)]}
        out = []
        for _ in range(int(rng.integers(1, 4))):
            for _try in range(20):
                q = one(rng, tags, small=True)
                g = geo.Polygon(q["shell"]).buffer(0)
                r = Region(geo.Polygon(q["shell"]))
                box = geo.box(r.lon.min() - 1, r.lat.min() - 1, r.lon.max() + 1, r.lat.max() + 1)
                if all(not b.intersects(shapely.transform(box, lambda x: x + [360 * k, 0])) for b in [y[1] for y in out] for k in (-1, 0, 1)):
                    out.append((q, box))
                    break
        return {"parts": [q for q, _ in out], "multi": True}
    n = 1 if what in ("split", "norm") else int(rng.integers(1, 6))
    case = {"kind": what, "what": what, "geoms": [geom() for _ in range(n)], "tags": tags}
    if what == "table" and rng.random() < 0.5:
        case["index"] = [int(x) for x in rng.permutation(n) * 3 + 5]
        if rng.random() < 0.3:
            case["index"][-1] = case["index"][0]
    if what in ("table", "series") and rng.random() < 0.1:
        case.update(geoms=[], tags=[], index=None)
    if what == "table" and rng.random() < 0.25:
        case["name"] = str(rng.choice(["geom", "footprint"]))
    if what == "norm" and rng.random() < 0.15:
        case["geoms"] = [{"parts": [{"shell": [[0, 0], [10, 10], [10, 0], [0, 10], [0, 0]]}]}]
    return case


def fixed_cases():
    box = lambda *b: {"parts": [{"shell": [list(x) for x in geo.box(*b).exterior.coords]}]}
    return [{"what": w, "geoms": [g]} for w in ("split", "norm") for g in (
        box(-10, -10, 10, 10), box(-180, -90, 180, 90), {"parts": [{"shell": [[170, -10], [-170, -10], [-170, 10], [170, 10], [170, -10]]}]},
        box(10, 80, 30, 100), box(-30, -100, 40, -80), {"parts": [{"shell": [[0, 80], [120, 80], [-120, 80], [0, 80]]}]},
        box(-20, 80, 25, 90.5), box(-20, -90.5, 25, -80), box(0, -95, 30, -80), box(-30, 80, 0, 95), box(-25, -90.02, 3, -85), box(0, 70, 40, 90),
        {"parts": [{"shell": [[0, -60], [-120, -60], [120, -70], [0, -60]]}]},
        {"parts": [{"shell": [[-90, 60], [-45, 70], [0, 60], [45, 70], [90, 60], [135, 70], [180, 60], [-135, 70], [-90, 60]]}]})]

"""C10: aggregated ground tracks are the union of the valid samples."""
from datetime import timedelta

import geopandas as gpd
import numpy as np
import shapely
from shapely import geometry as geo
from shapely.ops import unary_union

from vp import core, geom as G, oracle as O, work as W
from checks.c09 import make_mask

PROPERTY = "C10"
RULE = "a case counts when an aggregated track was compared with the union of its valid samples (points) or probed against the buffered path (lines)"
CASES = {"quick": 250, "thorough": 4000}
REQUIRED_EVENTS = ["call:compute_ground_track", "point", "line", "merged", "unmerged", "several_orbits", "invalid_samples", "no_valid_samples", "line_antimeridian", "masked", "probe_in", "probe_out", "path_in", "split_validity"]
ASSUMPTIONS = ["single footprints are judged by C09 and validity by C02", "lines use the mean swath of a stretch: probes between the smallest and largest swath of the stretch (3 % margin) are not judged",
               "samples within 0.01 s of an orbit boundary are not judged for the per-orbit split"]


def install():
    core.hook("tatc.analysis.track.compute_ground_track", post)


def post(c, a, out, exc, token):
    if exc is not None:
        return
    c.event(a["method"])
    c.event("merged" if a["dissolve_orbits"] else "unmerged")
    times = list(a["times"])
    sat = a["satellite"]
    tle = sat.orbit.to_tle().tle
    period = 86400.0 / float(tle[1][52:63])
    orb = [int(((t - times[0]).total_seconds()) // period) for t in times]
    frac = [((t - times[0]).total_seconds() / period) % 1 for t in times]
    near = any(k > 0 and min(f, 1 - f) * period < 0.01 for k, f in zip(range(len(frac)), frac))
    if len(set(orb)) > 1:
        c.event("several_orbits")
    (check_point if a["method"] == "point" else check_line)(c, a, out, times, orb, near, tle)


def area_eq(x, y, rel=1e-6, abs_=1e-6):
    return x.symmetric_difference(y).area <= rel * max(x.area, y.area) + abs_


def fix(g):
    g = shapely.force_2d(g)
    return g if g.is_valid else shapely.make_valid(g)


def check_point(c, a, out, times, orb, near, tle):
    from tatc.analysis import collect_ground_track
    full = collect_ground_track(a["satellite"], times, a["instrument_index"], a["elevation"], None, a["crs"])
    valid = [bool(v) for v in full.valid_obs]
    if not all(valid):
        c.event("invalid_samples")
    groups = {}
    for o, v, g in zip(orb, valid, full.geometry):
        if v:
            groups.setdefault(o, []).append(fix(g))
    want = {o: unary_union(g) for o, g in sorted(groups.items())}
    c.state("point", a["crs"], len(want), all(valid), a["mask"] is not None)
    judge(c, a, out, want, near, exact=a["mask"] is None)


def judge(c, a, out, want, near, exact):
    got = [fix(g) for g in out.geometry if g is not None and not g.is_empty]
    if not want:
        c.event("no_valid_samples")
        c.check(not got, "region without any valid sample", sig="no-valid", n=len(got))
        return
    union = unary_union(list(want.values()))
    gu = unary_union(got) if got else geo.Polygon()
    if a["mask"] is not None:
        c.event("masked")
        m = mask_geom(a["mask"])
        e = union.intersection(m)
        c.check(gu.difference(m.buffer(1e-7)).area < 1e-7, "region leaves the mask", sig="mask-out")
        d = gu.symmetric_difference(e).area
        c.check(d <= (0.02 * e.area + 0.1 if a["method"] == "point" else 1e-6 * e.area + 1e-6), "masked region is not the unmasked one restricted to the mask", sig="mask-area", expected=e.area, got=gu.area, diff=d)
        if a["dissolve_orbits"]:
            c.check(len(out) <= 1, "merged result has several rows", sig="merged-rows", got=len(out))
        return
    c.check(area_eq(gu, union), "aggregated region is not the union of the valid footprints", sig="union", expected=union.area, got=gu.area, diff=gu.symmetric_difference(union).area)
    if a["dissolve_orbits"]:
        c.check(len(out) == 1, "merged result does not have a single row", sig="merged-rows", got=len(out))
    elif not near:
        if c.check(len(out) == len(want), "not one region per orbit", sig="orbit-rows", expected=len(want), got=len(out)):
            for g, (o, w) in zip(got, want.items()):
                c.check(area_eq(g, w), "region of an orbit is not the union of that orbit's valid footprints", sig="orbit-union", orbit=o, expected=w.area, got=g.area)


def mask_geom(m):
    return unary_union(list(m.geometry)) if isinstance(m, (gpd.GeoDataFrame, gpd.GeoSeries)) else m


def check_line(c, a, out, times, orb, near, tle):
    from tatc.analysis import collect_orbit_track, compute_ground_track
    track = collect_orbit_track(a["satellite"], times, a["instrument_index"], a["elevation"])
    valid = [bool(v) for v in track.valid_obs]
    if not all(valid):
        c.event("invalid_samples")
    inst = a["satellite"].instruments[a["instrument_index"]]
    ts = O.ts_of(times) if len(times) > 1 else O.ts_at(times[0], np.zeros(1))
    p, _ = O.state_ecef(tle, ts)
    la, lo, h = O.ecef_to_geodetic(p)
    sw = np.array([O.swath(float(x), inst.field_of_regard, a["elevation"]) / 2 / G.DEG_M for x in h])
    # contiguous valid stretches within an orbit
    st, cur = [], []
    for i in range(len(times)):
        if valid[i]:
            if cur and (orb[i] != orb[cur[-1]] or cur[-1] != i - 1):
                st.append(cur)
                cur = []
            cur.append(i)
    if cur:
        st.append(cur)
    if len(st) > len({orb[s[0]] for s in st}):
        c.event("split_validity")
    c.state("line", len(st), all(valid), a["mask"] is not None)
    got = [fix(g) for g in out.geometry if g is not None and not g.is_empty]
    if not st:
        c.event("no_valid_samples")
        c.check(not got, "region without any valid sample", sig="no-valid")
        return
    if a["mask"] is not None:
        full = compute_ground_track(a["satellite"], times, a["instrument_index"], a["elevation"], None, a["crs"], "line", a["dissolve_orbits"])
        judge(c, a, out, {0: unary_union([fix(g) for g in full.geometry])}, True, False)
        return
    for g in out.geometry:
        G.on_map(c, fix(g), "line track")
    if a["dissolve_orbits"]:
        c.check(len(out) == 1, "merged result does not have a single row", sig="merged-rows", got=len(out))
        regions = [(unary_union(got), st)]
    elif near:
        return
    else:
        if not c.check(len(out) == len(st), "not one region per contiguous valid stretch of an orbit", sig="line-rows", expected=len(st), got=len(out)):
            return
        regions = list(zip(got, [[s] for s in st]))
    for g, ss in regions:
        probe_line(c, g, ss, lo, la, sw)


def probe_line(c, g, stretches, lo, la, sw):
    az = np.linspace(0, 2 * np.pi, 12, endpoint=False) + 0.1
    plon, plat = [G.fibonacci(300)[0]], [G.fibonacci(300)[1]]
    segs = []          # (segment in the unwrapped plane, max half swath)
    ins = []
    for s in stretches:
        smin, smax = sw[s].min(), sw[s].max()
        for i in s:
            ins.append((lo[i], la[i], smin, "probe_in"))
            for k in (1.1, 1.5):
                plon.append(lo[i] + k * smax * np.cos(az))
                plat.append(la[i] + k * smax * np.sin(az))
        if len(s) == 1:
            segs.append((geo.Point(lo[s[0]], la[s[0]]), smax))
        for i, j in zip(s[:-1], s[1:]):
            d = (lo[j] - lo[i] + 180) % 360 - 180
            segs.append((geo.LineString([(lo[i], la[i]), (lo[i] + d, la[j])]), smax))
            if abs(lo[j] - lo[i]) > 180:
                c.event("line_antimeridian")
            if abs(abs(d) - 180) < 5:
                d2 = d - 360 * np.sign(d)
                segs.append((geo.LineString([(lo[i], la[i]), (lo[i] + d2, la[j])]), smax))
            else:
                for u in (0.25, 0.5, 0.75):
                    ins.append((lo[i] + u * d, la[i] + u * (la[j] - la[i]), smin, "path_in"))
    # membership of footprints of path positions
    for x, y, r, ev in ins:
        X, Y = np.concatenate([[x], x + 0.5 * r * np.cos(az), x + 0.95 * r * np.cos(az)]), np.concatenate([[y], y + 0.5 * r * np.sin(az), y + 0.95 * r * np.sin(az)])
        X, Y = fold(X, Y)
        ok = ~G.seam(X, Y, 1e-3)
        m = G.covers(g, X[ok], Y[ok])
        c.event(ev, int(ok.sum()))
        if not c.check(m.all(), "footprint along the path is not covered", sig="line-" + ev, missing=[[p, q] for p, q in zip(X[ok][~m], Y[ok][~m])][:3], at=[x, y], half=r):
            return
    X, Y = fold(np.concatenate(plon), np.concatenate(plat))
    keep = ~G.seam(X, Y, 1e-3)
    X, Y = X[keep], Y[keep]
    far = np.full(len(X), np.inf)
    for k in (-360, 0, 360):
        for P, Q in ((X, Y), (X + 180, 180 - Y), (X + 180, -180 - Y)):
            pts = shapely.points(P + k, Q)
            for s, r in segs:
                far = np.minimum(far, shapely.distance(pts, s) / r)
    bad = (far > 1.03) & G.covers(g, X, Y)
    c.event("probe_out", int((far > 1.03).sum()))
    c.check(not bad.any(), "region extends beyond half a swath from the path", sig="line-out", extra=[[p, q, f] for p, q, f in zip(X[bad], Y[bad], far[bad])][:3])


def fold(x, y):
    up, dn = y > 90, y < -90
    x = np.where(up | dn, x + 180, x)
    y = np.where(up, 180 - y, np.where(dn, -180 - y, y))
    return G.wrap(x), y


def fixed_cases():
    out = []
    for inc, raan in ((98.0, 0.0), (51.6, 120.0), (120.0, 300.0), (0.0, 10.0), (179.0, 10.0), (90.0, 40.0)):
        out.append({"orbit": {"type": "circular", "altitude": 8e5, "inclination": inc, "epoch": W.EPOCH.isoformat(), "true_anomaly": 0.0, "right_ascension_ascending_node": raan},
                    "n": 130, "step": 60.0, "base": 0.0, "crs": "EPSG:4087", "method": "line", "merge": inc > 60, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 70.0}, "mask": None, "seed": 0})
    for ta, mg in ((0.0, True), (90.0, False), (180.0, False), (270.0, True)):
        out.append({"orbit": {"type": "circular", "altitude": 6e5, "inclination": 40.0, "epoch": W.EPOCH.isoformat(), "true_anomaly": ta, "right_ascension_ascending_node": 20.0},
                    "n": 90, "step": 60.0, "base": 0.0, "crs": "EPSG:4087", "method": "line", "merge": mg, "elev": 0.0, "instr": {"name": "I", "field_of_regard": 50.0, "req_self_sunlit": True}, "mask": None, "seed": 0})
    return out


def gen(rng, i):
    method = str(rng.choice(["point", "line"]))
    crs = "EPSG:4087" if method == "line" else str(rng.choice(["EPSG:4087", "EPSG:4087", "utm", "spice"]))
    ins = {"name": "I", "field_of_regard": W.r(rng.uniform(5, 60 if crs == "utm" else 110), 2)}
    u = rng.random()
    if u < 0.35:
        ins["req_target_sunlit"] = bool(rng.random() < 0.5)
    elif u < 0.5:
        ins["req_self_sunlit"] = bool(rng.random() < 0.5)
    if crs == "utm":
        alt = (350e3, 1200e3)
    else:
        alt = (350e3, 1800e3)
    st = float(rng.choice([20.0, 60.0, 60.0, 120.0, 241.0]))
    n = int(rng.choice([1, 2, 10, 40, 90]))
    if crs == "spice":
        n = min(n, 40)
    o = W.gen_orbit(rng, alt=alt, max_e=0.005)
    return {"orbit": o, "n": n, "step": st, "base": float(rng.integers(-86400, 86400)), "crs": crs, "method": method,
            "merge": bool(rng.random() < 0.5), "elev": 0.0 if rng.random() < 0.7 else W.r(rng.uniform(0, 3000), 1), "instr": ins,
            "mask": [None, None, None, "polygon", "multi", "frame"][int(rng.integers(6))], "seed": int(rng.integers(1e6)), "holes": bool(rng.random() < 0.2)}


def run(case, c):
    from tatc import config
    from tatc.analysis import compute_ground_track
    config.rc.repeat_cycle_for_orbit_track = False
    s = W.build_satellite("S", case["orbit"], [case["instr"]])
    base = W.orbit_epoch(case["orbit"]).replace(microsecond=0) + timedelta(seconds=case["base"])
    times = [base + timedelta(seconds=case["step"] * k) for k in range(case["n"])]
    with core.suspend():
        mask = make_mask(case, s.orbit.to_tle().tle, times, np.random.default_rng(case["seed"]), c)
    compute_ground_track(s, times, 0, case["elev"], mask, case["crs"], case["method"], case["merge"])

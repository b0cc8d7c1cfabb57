"""C12: projected rays, footprints and limbs match the viewing geometry."""
from datetime import timedelta

import numpy as np
import shapely

from vp import core, geom as G, oracle as O, work as W

PROPERTY = "C12"
RULE = "a case counts when at least one projected ray, footprint, footprint centre or limb was compared with the viewing geometry computed from the satellite state"
CASES = {"quick": 1200, "thorough": 15000}
REQUIRED_EVENTS = ["call:compute_projected_ray_position", "call:compute_footprint", "call:compute_limb", "call:compute_footprint_center", "ray_hit", "ray_limb", "rectangular_ray", "elliptical_ray", "corner",
                   "footprint_vertex", "footprint_limb_vertex", "limb_vertex", "vector", "scalar", "center", "split_footprint", "default_points"]
ASSUMPTIONS = ["footprints of views pointed off nadir that reach over the limb are not judged", "rays that pass within 3 km of the limb are not judged", "rays past the Earth are judged for satellites moving level to within 2 deg relative to the rotating Earth (near-geosynchronous orbits have no such direction)", "the direction in which a missing ray is moved to the limb is judged exactly for nadir-centred circular views and to a quarter turn otherwise",
               "map edges introduce vertices on the antimeridian, the poles and the prime meridian: those are not judged as edge rays (C24 judges splitting)"]


def install():
    core.hook("tatc.utils.compute_projected_ray_position", post_ray)
    core.hook("tatc.utils.compute_footprint", post_footprint)
    core.hook("tatc.utils.compute_limb", post_limb)
    core.hook("tatc.schemas.instrument.Instrument.compute_footprint_center", post_center)
    core.hook("tatc.schemas.instrument.PointedInstrument.compute_footprint_center", post_center)
    core.hook("tatc.schemas.instrument.Instrument.compute_footprint", post_inst)
    core.hook("tatc.schemas.instrument.PointedInstrument.compute_footprint", post_inst)


def states(track):
    from skyfield.framelib import itrs
    p, v = track.frame_xyz_and_velocity(itrs)
    p, v = np.asarray(p.m, float), np.asarray(v.m_per_s, float)
    return (p[:, None], v[:, None]) if p.ndim == 1 else (p, v)


def edge_ray(p, v, c_, a_, roll, pitch, rect, w):
    vu, n, b = O.vnb(p, v)
    tc, ta = np.tan(np.radians(c_ / 2)), np.tan(np.radians(a_ / 2))
    if rect:
        k = min(tc / max(abs(np.cos(w)), 1e-300), ta / max(abs(np.sin(w)), 1e-300))
        x, y = k * np.cos(w), k * np.sin(w)
    else:
        x, y = tc * np.cos(w), ta * np.sin(w)
    return b + vu * (np.tan(np.radians(pitch)) + y) + n * (np.tan(np.radians(roll)) + x)


def normal(g, elev):
    w = np.array([1 / (O.A + elev) ** 2, 1 / (O.A + elev) ** 2, 1 / (O.B + elev) ** 2])
    n = g * w
    return n / np.linalg.norm(n)


def level(g, elev):
    """height (m) above the enlarged ellipsoid (first order)"""
    w = np.array([1 / (O.A + elev), 1 / (O.A + elev), 1 / (O.B + elev)])
    return (np.linalg.norm(g * w) - 1) * np.linalg.norm(g)


def post_ray(c, a, out, exc, token):
    if exc is not None:
        return
    P, V = states(a["orbit_track"])
    la, lo, h = np.ravel(out.latitude.degrees), np.ravel(out.longitude.degrees), np.ravel(out.elevation.m)
    c.event("vector" if P.shape[1] > 1 else "scalar")
    if not c.check(len(la) == P.shape[1], "not one position per sample", sig="size"):
        return
    rect = a["is_rectangular"]
    c.event("rectangular_ray" if rect else "elliptical_ray")
    e = a["elevation"]
    for i in range(len(la)):
        p, v = P[:, i], V[:, i]
        d = edge_ray(p, v, a["cross_track_field_of_view"], a["along_track_field_of_view"], a["roll_angle"], a["pitch_angle"], rect, a["angle"])
        got = np.array(O.geodetic_to_ecef(la[i], lo[i], h[i]))
        if not np.all(np.isfinite(d)):
            continue
        m, m2 = O.ray_miss(p, d, e - 3000)[0], O.ray_miss(p, d, e + 3000)[0]
        c.check(abs(level(got, e)) < 1.0, "projected position is not on the raised ellipsoid", sig="level", height=h[i], elevation=e)
        if m > 0:
            c.event("ray_hit")
            g = O.ray_ellipsoid(p, d, e)
            dist, rng_ = np.linalg.norm(got - g), np.linalg.norm(g - p)
            inc = max(0.02, -(normal(g, e) @ (g - p)) / rng_)
            c.check(dist < 1.0 + 1e-7 * rng_ / inc, "ray does not land at its first intersection with the ground", sig="hit", error_m=dist, got=[lo[i], la[i], h[i]], expected=[float(x) for x in O.ecef_to_geodetic(g)], angle=a["angle"], fov=[a["cross_track_field_of_view"], a["along_track_field_of_view"]], point=[a["roll_angle"], a["pitch_angle"]], rect=rect)
        elif m2 < 0:
            vu, n, b = O.vnb(p, v)
            if abs(vu @ b) > 0.03:
                c.event("not_level")
                continue
            c.event("ray_limb")
            s = (got - p) / np.linalg.norm(got - p)
            c.check(abs(normal(got, e) @ s) < 1e-3, "a ray past the Earth does not land on the limb", sig="limb", sine=float(normal(got, e) @ s))
            nz = lambda x: x - (x @ b) * b
            hd, hs = nz(d), nz(s)
            cosang = (hd @ hs) / np.linalg.norm(hd) / np.linalg.norm(hs)
            sym = a["cross_track_field_of_view"] == a["along_track_field_of_view"] and a["roll_angle"] == 0 and a["pitch_angle"] == 0
            if sym and not rect or sym and abs(np.sin(2 * a["angle"])) < 1e-9:
                c.check(cosang > np.cos(np.radians(12)), "limb position is not in the direction of the ray", sig="limb-dir", cos=float(cosang))
            elif a["roll_angle"] == 0 and a["pitch_angle"] == 0:
                c.check(cosang > -0.05, "limb position is on the far side of the view", sig="limb-side", cos=float(cosang))


def edge_q(p, v, a, lon, lat):
    w = G.View(p, v, a["roll_angle"], a["pitch_angle"], a["cross_track_field_of_view"], a["along_track_field_of_view"], a["is_rectangular"], a["elevation"])
    return w.q(lon, lat)


def vertices(g):
    return [np.array(q.exterior.coords)[:, :2] for q in (g.geoms if hasattr(g, "geoms") else [g])]


def on_seam(x, y):
    return (np.abs(np.abs(x) - 180) < 1e-9) | (np.abs(np.abs(y) - 90) < 1e-9) | (np.abs(x) < 1e-9)


def post_footprint(c, a, out, exc, token):
    if exc is not None:
        return
    from tatc import config
    P, V = states(a["orbit_track"])
    regions = list(out) if isinstance(out, (list, tuple)) else [out]
    if not c.check(len(regions) == P.shape[1], "not one footprint per sample", sig="fp-size", got=len(regions)):
        return
    rect = a["is_rectangular"]
    N = a["number_points"]
    if N is None:
        c.event("default_points")
        N = config.rc.footprint_points_rectangular_side if rect else config.rc.footprint_points_elliptical
    e = a["elevation"]
    for i, g in enumerate(regions):
        p, v = P[:, i], V[:, i]
        bore = O.ray_miss(p, edge_ray(p, v, 0, 0, a["roll_angle"], a["pitch_angle"], False, 0), e - 20e3)
        if bore[0] < 0 or bore[1] < 0:
            c.event("boresight_off_earth")
            continue
        args = (p, v, a["cross_track_field_of_view"], a["along_track_field_of_view"], a["roll_angle"], a["pitch_angle"], rect)
        tc, ta = np.tan(np.radians(args[2] / 2)), np.tan(np.radians(args[3] / 2))
        # expected positions that the outline has to pass through
        if rect:
            th = np.arctan2(ta, tc)
            ws = [th, np.pi - th, np.pi + th, 2 * np.pi - th]
        else:
            ws = [0.0]
        hit = all(O.ray_miss(p, edge_ray(*args, w), e - 20e3)[0] > 0 for w in list(np.linspace(0, 2 * np.pi, 25)) + ws)
        if not np.isfinite(tc * ta) or max(tc, ta) > 1e6:
            hit = False
        if not hit and (a["roll_angle"] or a["pitch_angle"]):
            # views pointed over the limb are only approximated by limb points
            c.event("pointed_over_limb")
            continue
        G.on_map(c, g, "footprint", e)
        if g.geom_type == "MultiPolygon":
            c.event("split_footprint")
        vs = np.concatenate(vertices(g)) if not g.is_empty else np.zeros((0, 2))
        free = ~on_seam(vs[:, 0], vs[:, 1])
        c.state(rect, g.geom_type, hit, N)
        if hit:
            for w in ws:
                gp = O.ray_ellipsoid(p, edge_ray(*args, w), e)
                la, lo, _ = (float(x) for x in O.ecef_to_geodetic(gp))
                if G.seam(lo, la, 1e-3):
                    continue
                c.event("corner" if rect else "edge_start")
                d = np.hypot((vs[:, 0] - lo) * np.cos(np.radians(la)), vs[:, 1] - la).min()
                tol = 1e-5 + 1e-7 * np.degrees(np.linalg.norm(gp - p) / O.A)
                c.check(d < tol, "outline does not pass through a corner of the view" if rect else "outline does not pass through the edge of the view", sig="corner", at=[lo, la], distance_deg=d, fov=[args[2], args[3]], N=N)
            q, el = edge_q(p, v, a, vs[free, 0], vs[free, 1])
            c.event("footprint_vertex", int(free.sum()))
            if g.geom_type == "Polygon":
                bad = np.abs(q - 1) > 2e-3
                c.check(not bad.any(), "outline vertex is not on the edge of the view", sig="vertex", q=q[bad][:3], at=vs[free][bad][:3])
            # enough vertices, spread over the whole edge
            need = 4 * N if rect else N - 1
            uq = len(np.unique(np.round(vs[free], 7), axis=0))
            if g.geom_type == "Polygon" and abs(g.bounds[1]) < 85 and abs(g.bounds[3]) < 85:
                c.check(uq >= need - 1, "fewer outline points than requested", sig="points", got=uq, expected=need)
        else:
            q, el = edge_q(p, v, a, vs[free, 0], vs[free, 1])
            el = np.abs(el)
            c.event("footprint_limb_vertex", int((el < 0.1).sum()))
            if g.geom_type == "Polygon" and a["roll_angle"] == 0 and a["pitch_angle"] == 0:
                bad = (np.abs(q - 1) > 5e-3) & (el > 0.2)
                c.check(not bad.any(), "outline vertex is neither on the edge of the view nor on the limb", sig="vertex-limb", q=q[bad][:3], elevation=el[bad][:3], at=vs[free][bad][:3])


def post_center(c, a, out, exc, token):
    if exc is not None:
        return
    P, V = states(a["orbit_track"])
    s = a["self"]
    la, lo, h = np.ravel(out.latitude.degrees), np.ravel(out.longitude.degrees), np.ravel(out.elevation.m)
    if not c.check(len(la) == P.shape[1], "not one centre per sample", sig="center-size"):
        return
    for i in range(len(la)):
        d = edge_ray(P[:, i], V[:, i], 0, 0, getattr(s, "roll_angle", 0), getattr(s, "pitch_angle", 0), False, 0)
        if O.ray_miss(P[:, i], d, a["elevation"] - 3000)[0] < 0:
            continue
        c.event("center")
        g = O.ray_ellipsoid(P[:, i], d, a["elevation"])
        got = np.array(O.geodetic_to_ecef(la[i], lo[i], h[i]))
        c.check(np.linalg.norm(got - g) < 5.0 + 1e-6 * np.linalg.norm(g - P[:, i]), "footprint centre is not the boresight intersection", sig="center", error_m=np.linalg.norm(got - g), roll=getattr(s, "roll_angle", 0), pitch=getattr(s, "pitch_angle", 0))


def post_inst(c, a, out, exc, token):
    """an instrument's footprint is the footprint of its own field and pointing"""
    if exc is not None:
        return
    s = a["self"]
    pointed = hasattr(s, "roll_angle")
    f = min(s.field_of_regard, 180)
    b = {"orbit_track": a["orbit_track"], "number_points": a["number_points"], "elevation": a["elevation"],
         "cross_track_field_of_view": s.cross_track_field_of_view if pointed else f, "along_track_field_of_view": s.along_track_field_of_view if pointed else f,
         "roll_angle": s.roll_angle if pointed else 0, "pitch_angle": s.pitch_angle if pointed else 0, "is_rectangular": s.is_rectangular if pointed else False}
    post_footprint(c, b, out, None, None)


def post_limb(c, a, out, exc, token):
    if exc is not None:
        return
    P, V = states(a["orbit_track"])
    regions = list(out) if isinstance(out, (list, tuple)) else [out]
    if not c.check(len(regions) == P.shape[1], "not one limb per sample", sig="limb-size", got=len(regions)):
        return
    for i, g in enumerate(regions):
        p = P[:, i]
        if not G.on_map(c, g, "limb", a["elevation"]):
            continue
        vs = np.concatenate(vertices(g))
        vs = vs[~on_seam(vs[:, 0], vs[:, 1])]
        el, az, _ = O.look_angles(np.repeat(p[:, None], len(vs), axis=1), vs[:, 1], vs[:, 0], np.full(len(vs), float(a["elevation"])))
        c.event("limb_vertex", len(vs))
        if g.geom_type == "Polygon":
            c.check(np.all(np.abs(el) < 0.05), "limb vertex where the line of sight is not tangent", sig="limb-tangent", worst=float(np.abs(el).max()))
        la, lo, _ = (float(x) for x in O.ecef_to_geodetic(p))
        if a["number_points"] >= 12 and not G.seam(lo, la, 1e-2):
            c.check(bool(G.covers(g, np.array([lo]), np.array([la]))[0]), "limb does not enclose the sub-satellite point", sig="limb-inside", ssp=[lo, la], bounds=list(g.bounds))
        # vertices all around, as many as requested
        brg = np.radians(vs[:, 0] - lo)
        y = np.sin(brg) * np.cos(np.radians(vs[:, 1]))
        x = np.cos(np.radians(la)) * np.sin(np.radians(vs[:, 1])) - np.sin(np.radians(la)) * np.cos(np.radians(vs[:, 1])) * np.cos(brg)
        b = np.sort(np.degrees(np.arctan2(y, x)) % 360)
        if len(b) > 1 and abs(g.bounds[1]) < 85 and abs(g.bounds[3]) < 85:
            gap = np.diff(np.concatenate([b, [b[0] + 360]])).max()
            c.check(gap < 1.6 * 360 / (a["number_points"] - 1) + 2, "limb vertices do not surround the view evenly", sig="limb-gap", gap=float(gap), n=a["number_points"])


def fixed_cases():
    out = []
    for inc in (0.0, 51.6, 98.0):
        for c_, a_ in ((60.0, 10.0), (10.0, 60.0), (30.0, 30.0), (90.0, 5.0)):
            for rect in (True, False):
                out.append({"orbit": {"type": "circular", "altitude": 6e5, "inclination": inc, "epoch": W.EPOCH.isoformat(), "true_anomaly": 30.0, "right_ascension_ascending_node": 0.0}, "offsets": [0.0, 600.0, 1900.0],
                            "cross": c_, "along": a_, "roll": 0.0, "pitch": 0.0, "rect": rect, "N": None, "elev": 0.0, "angles": [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, float(np.pi), float(2 * np.pi), float(np.pi / 2)], "for": 50.0, "nlimb": 24})
    return out


def gen(rng, i):
    n = int(rng.choice([1, 1, 2, 4]))
    base = float(rng.integers(-86400, 2 * 86400))
    wide = rng.random() < 0.2
    c_, a_ = (float(rng.uniform(0.2, 80)), float(rng.uniform(0.2, 80))) if not wide else (float(rng.choice([120.0, 170.0, 179.0, 180.0])), float(rng.choice([120.0, 170.0, 179.0, 180.0])))
    if rng.random() < 0.3:
        a_ = c_
    zero = rng.random() < 0.3
    return {"orbit": W.gen_orbit(rng, alt=(300e3, 1500e3) if rng.random() < 0.7 else (1500e3, 40000e3)), "offsets": [base + k * float(rng.choice([60.0, 700.0, 1500.0])) for k in range(n)],
            "cross": W.r(c_, 3), "along": W.r(a_, 3), "roll": 0.0 if zero or rng.random() < 0.2 else W.r(rng.uniform(-50, 50), 2), "pitch": 0.0 if zero or rng.random() < 0.2 else W.r(rng.uniform(-50, 50), 2),
            "rect": bool(rng.random() < 0.5), "N": None if rng.random() < 0.5 else int(rng.integers(4, 40)), "elev": 0.0 if rng.random() < 0.6 else W.r(rng.uniform(-400, 8000), 1),
            "angles": [W.r(x, 5) for x in rng.uniform(0, 2 * np.pi, 4)], "for": W.r(rng.uniform(1, 180), 2) if rng.random() < 0.9 else 360.0, "nlimb": int(rng.integers(8, 60))}


def run(case, c):
    from tatc import config, utils
    from tatc.schemas import Instrument, PointedInstrument
    config.rc.repeat_cycle_for_orbit_track = False
    o = W.build_orbit(case["orbit"])
    base = W.orbit_epoch(case["orbit"]).replace(microsecond=0)
    times = [base + timedelta(seconds=x) for x in case["offsets"]]
    with core.suspend():
        track = o.to_tle().get_orbit_track(times) if len(times) > 1 else o.to_tle().get_orbit_track(times[0])
    # views whose boresight misses the Earth have no footprint to speak of
    P, V = states(track)
    miss = [O.ray_miss(P[:, i], edge_ray(P[:, i], V[:, i], 0, 0, case["roll"], case["pitch"], False, 0), case["elev"] - 20e3) for i in range(P.shape[1])]
    off = any(m[0] < 0 or m[1] < 0 for m in miss)
    if off:
        c.event("boresight_off_earth")
    for w in case["angles"]:
        utils.compute_projected_ray_position(track, case["cross"], case["along"], case["roll"], case["pitch"], case["rect"], w, case["elev"])
    if not off:
        utils.compute_footprint(track, case["cross"], case["along"], case["roll"], case["pitch"], case["rect"], case["N"], case["elev"])
    inst = Instrument(name="N", field_of_regard=case["for"])
    inst.compute_footprint(track, case["N"] if not case["rect"] else None, case["elev"])
    inst.compute_footprint_center(track, case["elev"])
    pi = PointedInstrument(name="P", field_of_regard=100.0, cross_track_field_of_view=case["cross"], along_track_field_of_view=case["along"], roll_angle=case["roll"], pitch_angle=case["pitch"], is_rectangular=case["rect"])
    if not off:
        pi.compute_footprint(track, case["N"], case["elev"])
    pi.compute_footprint_center(track, case["elev"])
    utils.compute_limb(track, case["nlimb"], case["elev"])

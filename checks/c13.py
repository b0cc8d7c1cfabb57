"""C13: dilution of precision matches the satellite geometry."""
from datetime import timedelta

import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C13"
RULE = "a case counts when at least one dilution-of-precision value (or its absence) was compared with the one computed from the satellites' look angles"
CASES = {"quick": 2000, "thorough": 20000}
REQUIRED_EVENTS = ["call:compute_dop", "defined", "undefined", "gdop", "pdop", "hdop", "vdop", "tdop", "exactly_minimum", "just_above_minimum", "elevated_point", "some_hidden", "one_time", "shuffled"]
ASSUMPTIONS = ["samples with a satellite within 0.001 deg of the elevation mask, and geometries with condition number above 1e5, are not judged for value"]


def install():
    core.hook("tatc.analysis.dop.compute_dop", post)


def value(H, kind):
    Q = np.linalg.inv(H.T @ H)
    d = np.diag(Q)
    return float(np.sqrt({"gdop": d.sum(), "pdop": d[:3].sum(), "hdop": d[:2].sum(), "vdop": d[2], "tdop": d[3]}[kind]))


def post(c, a, out, exc, token):
    if exc is not None:
        return
    times, pt = list(a["times"]), a["point"]
    kind = getattr(a["dop_method"], "value", a["dop_method"])
    c.event(kind)
    if len(times) == 1:
        c.event("one_time")
    if pt.elevation:
        c.event("elevated_point")
    if not c.check(len(out) == len(times) and list(out.index) == times, "rows are not indexed by the requested times", sig="index", n=len(out)):
        return
    if not c.check("dop" in out.columns, "no value column", sig="column"):
        return
    c.check(all(abs(g.x - pt.longitude) < 1e-9 and abs(g.y - pt.latitude) < 1e-9 for g in out.geometry), "rows are not located at the point", sig="location")
    ts = O.ts_of(times) if len(times) > 1 else O.ts_at(times[0], np.zeros(1))
    look = []
    for s in a["satellites"]:
        tle = s.orbit.to_tle().tle
        if len(tle) != 2:
            return
        p, _ = O.state_ecef(tle, ts)
        look.append(O.look_angles(p, pt.latitude, pt.longitude, pt.elevation)[:2])
    for i, t in enumerate(times):
        el = np.array([float(x[0][i]) for x in look])
        az = np.array([float(x[1][i]) for x in look])
        if np.any(np.abs(el - a["min_elevation"]) < 1e-3):
            c.event("on_mask")
            continue
        up = el >= a["min_elevation"]
        if not up.all():
            c.event("some_hidden")
        got = float(out.dop.iloc[i])
        n, need = int(up.sum()), a["min_count_visible"]
        c.state(kind, min(n, 12), need)
        if n == need:
            c.event("exactly_minimum")
        if n == need + 1:
            c.event("just_above_minimum")
        if n <= need:
            c.event("undefined")
            c.check(np.isnan(got), "value reported although too few satellites are visible", sig="too-few", got=got, visible=n, minimum=need, time=str(t))
            continue
        if n < 4:
            continue
        e, z = np.radians(el[up]), np.radians(az[up])
        H = np.column_stack([np.cos(e) * np.cos(z), np.cos(e) * np.sin(z), np.sin(e), np.ones(n)])
        k = np.linalg.cond(H.T @ H)
        if k > 1e5:
            c.event("ill_conditioned")
            continue
        want = value(H, kind)
        c.event("defined")
        c.check(abs(got - want) <= 1e-3 * want * (1 + k * 1e-4), "value does not follow from the visible satellites", sig="value-" + kind, got=got, expected=want, visible=n, time=str(t))


def fixed_cases():
    return []


def gen(rng, i):
    hi = rng.random() < 0.7
    n = int(rng.integers(1, 28)) if rng.random() < 0.8 else int(rng.integers(28, 40))
    alt = (8000e3, 24000e3) if hi else (500e3, 2000e3)
    ep = W.gen_epoch(rng)
    sats = [W.gen_orbit(rng, alt=alt, epoch=ep) for _ in range(n)]
    nt = int(rng.choice([1, 2, 5, 12]))
    return {"sats": sats, "place": W.gen_place(rng), "offsets": [float(rng.integers(-40000, 40000)) + 0.25 * int(rng.integers(4)) for _ in range(nt)],
            "mask": W.r(rng.uniform(-5, 40), 2) if rng.random() < 0.8 else 0.0, "kind": ["gdop", "pdop", "hdop", "vdop", "tdop"][i % 5], "min": int(rng.choice([3, 3, 3, 4, 5, 0, 7])), "default": bool(rng.random() < 0.3), "str": bool(rng.random() < 0.2)}


def run(case, c):
    from tatc import config
    from tatc.analysis import compute_dop, DopMethod
    from tatc.schemas import Point
    config.rc.repeat_cycle_for_orbit_track = False
    sats = [W.build_satellite(f"S{k}", o, [{"name": "i", "field_of_regard": 40.0}]) for k, o in enumerate(case["sats"])]
    base = W.orbit_epoch(case["sats"][0]).replace(microsecond=0)
    times = [base + timedelta(seconds=x) for x in case["offsets"]]
    kind = case["kind"] if case["str"] else DopMethod(case["kind"])
    kw = {} if case["default"] else {"min_count_visible": case["min"]}
    one = compute_dop(times, Point(id=3, **case["place"]), sats, case["mask"], kind, **kw)
    order = list(np.random.default_rng(7).permutation(len(sats)))
    two = compute_dop(times, Point(id=3, **case["place"]), [sats[k] for k in order], case["mask"], kind, **kw)
    c.event("shuffled")
    x, y = np.array(one.dop, float), np.array(two.dop, float)
    # singular geometries invert to noise
    ok = np.isnan(x) & np.isnan(y) | (np.abs(x - y) <= 1e-6 * np.abs(x)) | (np.nan_to_num(x, nan=1e9) > 1e3) | (np.nan_to_num(y, nan=1e9) > 1e3) & (np.nan_to_num(x, nan=1e9) > 1e2)
    if not case["default"] and case["min"] < 3:
        return
    c.check(ok.all(), "value depends on the order of the satellites", sig="order", one=list(x), two=list(y))

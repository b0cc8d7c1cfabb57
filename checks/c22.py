"""C22: repeat cycles are genuine and repeat the Earth-fixed pattern."""
from datetime import datetime, timedelta

import numpy as np
from sgp4.api import Satrec

from vp import core, oracle as O, work as W
from checks import c21

PROPERTY = "C22"
RULE = "a case counts when a repeat-cycle search, a folded state or a folded event list was compared with plain propagation of the element set"
CASES = {"quick": 200, "thorough": 4000}
REQUIRED_EVENTS = ["call:get_repeat_cycle", "call:get_orbit_track", "call:get_observation_events", "cycle_found", "no_cycle", "complete_judged", "folded_after", "folded_before", "inside_first", "not_folded",
                   "events_folded", "events_plain", "rise_set_matched", "disabled", "too_short_search", "tight_tolerance", "by_setting"]
ASSUMPTIONS = ["culminations located to 0.5 s by the pass search: a candidate return within 5 km / 6 m/s of a tolerance, or 0.3 deg of the search elevation, is not judged for completeness",
               "cycles are measured from the epoch for states and from the start of the period for events", "event times within 1 s + 5 s of the ends of a cycle not judged"]
WE = 7.292115e-5


def install():
    T = "tatc.schemas.orbit.TwoLineElements."
    core.hook(T + "get_repeat_cycle", post_cycle, pre=lambda c, a: a["self"].__dict__.get("repeat_cycle"))
    core.hook(T + "get_orbit_track", post_track)
    core.hook(T + "get_observation_events", post_events)


def search_args(a):
    from tatc import config
    rc = config.rc
    d = lambda v, w: w if v is None else v
    return (d(a["max_delta_position"], rc.repeat_cycle_delta_position_m), d(a["max_delta_velocity"], rc.repeat_cycle_delta_velocity_m_per_s),
            d(a["min_elevation_angle"], rc.repeat_cycle_search_elevation_deg), d(a["max_search_duration"], timedelta(days=rc.repeat_cycle_search_duration_days)).total_seconds(),
            d(a["lazy_load"], rc.repeat_cycle_lazy_load))


_memo = {}


def candidates(tle, dur):
    """Culminations over the initial sub-satellite point: (time, elevation, |dp|, |dv|)."""
    key = (tuple(tle), dur)
    if key in _memo:
        return _memo[key]
    ep = c21.epochs(tle)[0]
    p0, v0 = (np.asarray(x).reshape(3) for x in O.state_ecef(tle, O.ts_at(ep, 0.0)))
    la, lo, _ = (float(x) for x in O.ecef_to_geodetic(p0))
    out = []
    step = 60.0
    s = np.arange(600.0, dur + step, step)
    el = np.concatenate([O.elevation_at(tle, ep, q, la, lo, 0.0) for q in np.array_split(s, max(1, len(s) // 20000))])
    k = np.nonzero((el[1:-1] >= el[:-2]) & (el[1:-1] > el[2:]) & (el[1:-1] > 20))[0] + 1
    for i in k:
        a, b = s[i - 1], s[i + 1]
        g = np.linspace(a, b, 121)
        e = O.elevation_at(tle, ep, g, la, lo, 0.0)
        j = int(np.argmax(e))
        g = np.linspace(g[max(0, j - 1)], g[min(120, j + 1)], 41)
        e = O.elevation_at(tle, ep, g, la, lo, 0.0)
        t = float(g[int(np.argmax(e))])
        p, v = (np.asarray(x).reshape(3) for x in O.state_ecef(tle, O.ts_at(ep, t)))
        out.append((t, float(e.max()), float(np.linalg.norm(p - p0)), float(np.linalg.norm(v - v0))))
    _memo[key] = out
    return out


def true_cycle(tle, args):
    """(verdict, cycle seconds or None); verdict None when too close to call."""
    dp, dv, el, dur, _ = args
    for t, e, p, v in candidates(tle, dur):
        if t > dur - 60 or e < el - 0.3:
            continue
        if p > dp + 5e3 or v > dv + 6:
            continue
        if e < el + 0.3 and e < 89.5 or p > dp - 5e3 or v > dv - 6:
            return None, None
        return True, t
    return True, None


def post_cycle(c, a, r, exc, token):
    if exc is not None:
        return
    args = search_args(a)
    dp, dv, el, dur, lazy = args
    tle = a["self"].tle[:2]
    if lazy and isinstance(token, timedelta):
        c.check(r == (token if token > timedelta(0) else None), "the remembered repeat cycle is not returned", sig="lazy")
        return
    ep = c21.epochs(tle)[0]
    d = {"tle": tle, "args": args}
    if r is not None:
        c.event("cycle_found")
        s = r.total_seconds()
        p0, v0 = O.state_ecef(tle, O.ts_at(ep, 0.0))
        p1, v1 = O.state_ecef(tle, O.ts_at(ep, s))
        gp, gv = np.linalg.norm(np.ravel(p1) - np.ravel(p0)), np.linalg.norm(np.ravel(v1) - np.ravel(v0))
        c.check(gp < dp + 10 and gv < dv + 0.1, "the reported repeat cycle does not return to the initial state", sig="genuine", got=[gp, gv], cycle=s, **d)
        c.check(0 < s <= dur, "the repeat cycle is outside the search", sig="within", cycle=s, **d)
    else:
        c.event("no_cycle")
    ok, want = true_cycle(tle, args)
    if ok:
        c.event("complete_judged")
        if want is None:
            c.check(r is None, "a repeat cycle is reported where there is none", sig="spurious", cycle=str(r), **d)
        elif c.check(r is not None, "an existing repeat cycle is not found", sig="missed", want=want, **d):
            c.check(abs(r.total_seconds() - want) < 3, "the repeat cycle is not the earliest return", sig="earliest", cycle=r.total_seconds(), want=want, **d)
    c.state("cycle", r is not None, ok, int(dur / 86400), int(float(tle[1][52:63])))


def effective_cycle(o, enabled):
    """The repeat cycle that folding uses (the code's own search is judged above)."""
    if not enabled or len(o.tle) > 2:
        return None
    r = o.get_repeat_cycle()
    return None if r is None else r.total_seconds()


def post_track(c, a, g, exc, token):
    from tatc import config
    if exc is not None:
        return
    o = a["self"]
    on = config.rc.repeat_cycle_for_orbit_track if a["try_repeat"] is None else a["try_repeat"]
    if a["try_repeat"] is None:
        c.event("by_setting")
    rc = effective_cycle(o, on)
    ep = c21.epochs(o.tle)[0]
    times = [a["times"]] if isinstance(a["times"], datetime) else list(a["times"])
    if not on:
        c.event("disabled")
    from skyfield.framelib import itrs
    P, V = g.frame_xyz_and_velocity(itrs)
    P, V = np.asarray(P.m).reshape(3, -1), np.asarray(V.m_per_s).reshape(3, -1)
    # the Earth-fixed frame of the result is that of the requested times
    tt = np.ravel(g.t.tt)
    if not c.check(len(tt) == len(times) == P.shape[1] and np.abs(tt - np.ravel(O.ts_of(times).tt)).max(initial=0) * 86400 < 1e-3, "the states do not carry the requested times", sig="track-time", got=tt[:3], want=O.ts_of(times).tt[:3], tle=o.tle[:2]):
        return
    for k, t in enumerate(times):
        off = (t - ep).total_seconds()
        s = off
        if rc is not None:
            n = np.floor(abs(off) / rc)
            s = np.sign(off) * (abs(off) - n * rc)
            if min(abs(s), rc - abs(s)) < 2e-3 and n > 0:
                continue
            c.event("inside_first" if n == 0 else "folded_after" if off > 0 else "folded_before")
        else:
            c.event("not_folded")
        p, v = O.state_ecef(o.tle[:2], O.ts_at(ep, s))
        p, v = np.ravel(p), np.ravel(v)
        c.check(np.linalg.norm(P[:, k] - p) < 30 and np.linalg.norm(V[:, k] - v) < 0.05, "the Earth-fixed state is not that of the first cycle" if rc else "the state is not that of plain propagation",
                sig="fold" if rc else "plain", t=off, rc=rc, got=np.linalg.norm(P[:, k] - p), tle=o.tle[:2])


def post_events(c, a, r, exc, token):
    from tatc import config
    if exc is not None:
        return
    o = a["self"]
    on = config.rc.repeat_cycle_for_observation_events if a["try_repeat"] is None else a["try_repeat"]
    rc = effective_cycle(o, on)
    start, end, pt, thr = a["start"], a["end"], a["point"], a["min_elevation_angle"]
    dur = (end - start).total_seconds()
    times, kinds = r
    ts = [(t.utc_datetime() - start).total_seconds() for t in times] if len(kinds) else []
    kinds = [int(k) for k in kinds]
    fold = rc is not None and rc < dur
    c.event("events_folded" if fold else "events_plain")
    span = rc if fold else dur
    fn = c21.elev(o.tle, 0, start, pt)
    vis = O.visibility(fn, span, thr, c21.step_of(o.tle, 0))
    used = [False] * len(ts)
    soft = []
    n = int(np.ceil(dur / span)) + 1 if fold else 1
    d = {"tle": o.tle[:2], "rc": rc, "start": str(start), "dur": dur}
    c.check(all(x <= y + 1 for x, y in zip(ts, ts[1:])), "events are not in order of time", sig="ev-order", **d)
    c.check(all(-1 <= x <= dur + 1 for x in ts), "events outside the period", sig="ev-range", last=ts[-1:], **d)
    gaps = [(x[1], y[0]) for x, y in zip(vis, vis[1:]) if O.gap_margin(fn, x[1], y[0], thr) < 0.1]
    for x, y, peak, cl, cr in vis:
        for i in range(n):
            if peak < 0.1 or y - x < 5 or any(g[0] == y or g[1] == x for g in gaps):
                soft.append((i * span + x - 20, i * span + y + 20))
                continue
            for t, k, edge in ((x, 0, cl), (y, 2, cr)):
                q = t + i * span
                if edge or t < 3 or t > span - 3 or abs(q - dur) < 3 + i:
                    soft.append((q - 5, q + 5))
                    continue
                if q > dur:
                    continue
                m = [j for j, (u, kk) in enumerate(zip(ts, kinds)) if kk == k and abs(u - q) < 1.0]
                for j in m:
                    used[j] = True
                c.check(len(m) == 1, "a rise or set is not reported exactly once" + (" in every cycle" if fold else ""), sig="ev-missing", at=q, kind=k, cycle=i, reported=[(round(u, 1), kk) for u, kk in zip(ts, kinds)][:40], **d)
                c.event("rise_set_matched", len(m) == 1)
    for j, u in enumerate(used):
        if kinds[j] != 1 and not u:
            c.check(any(x <= ts[j] <= y for x, y in soft), "a rise or set is reported that the first cycle does not have", sig="ev-extra", at=ts[j], kind=kinds[j], **d)
    c.state("events", fold, n, min(len(ts), 30) // 3)


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_observations
    from tatc.schemas import Instrument, Point, Satellite
    rc0 = config.rc
    try:
        config.rc = config.RuntimeConfiguration(**case["config"])
        orb = W.build_orbit(case["orbit"])
        o = orb.to_tle()
        ep = c21.epochs(o.tle)[0]
        for e in case.get("tags", []):
            c.event(e)
        if case.get("search"):
            kw = dict(case["search"])
            if "max_search_duration" in kw:
                kw["max_search_duration"] = timedelta(seconds=kw["max_search_duration"])
            o.get_repeat_cycle(**kw)
            if case.get("search_only"):
                return
            o = W.build_orbit(case["orbit"]).to_tle()
        times = [ep + timedelta(seconds=s) for s in case["times"]]
        for tr in case["try_repeat"]:
            kw = {} if tr is None else {"try_repeat": tr}
            o.get_orbit_track(times, **kw)
            o.get_orbit_track(times[0], **kw)
            start = ep + timedelta(seconds=case["start"])
            pt = Point(id=0, **case["place"])
            o.get_observation_events(pt, start, start + timedelta(seconds=case["duration"]), case["elevation"], **kw)
    finally:
        config.rc = rc0


def resonant(inc, ratio, ecc=0.0):
    """Altitude at which the ground track closes after `ratio` revolutions per nodal day."""
    def f(alt):
        s = Satrec()
        from sgp4.api import WGS72
        s.sgp4init(WGS72, "i", 0, 27000.0, 0, 0, 0, ecc, 0.0, np.radians(inc), 0.0, W.mean_motion(alt) * 2 * np.pi / 1440, 0.0)
        return (s.mdot + s.argpdot) / (2 * np.pi / (86164.0905 / 60) - s.nodedot) - ratio
    lo, hi = 200e3, 30000e3
    if f(lo) * f(hi) > 0:
        return None
    for _ in range(60):
        m = (lo + hi) / 2
        lo, hi = (m, hi) if f(m) > 0 else (lo, m)
    return lo


def gen(rng, i):
    epoch = W.gen_epoch(rng)
    inc = W.r(rng.uniform(25, 110), 2)
    tags = []
    if rng.random() < 0.75:
        q = int(rng.choice([1, 1, 1, 2, 3]))
        p = int(rng.choice({1: [15, 15, 14, 13, 2, 4], 2: [29, 31, 27], 3: [43, 44, 46]}[q]))
        alt = resonant(inc, p / q)
        if alt is None or alt < 300e3:
            alt = resonant(inc, 15)
            if alt is None or alt < 300e3:
                inc, alt = 66.0, resonant(66.0, 15)
        alt += rng.uniform(-150, 150)
        days = q
    else:
        alt, days = rng.uniform(400e3, 1500e3), 0
    o = {"type": "circular", "altitude": W.r(alt, 1), "inclination": inc, "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "true_anomaly": W.r(rng.uniform(0, 359), 2), "epoch": epoch.isoformat()}
    sd = float(rng.choice([1.5, 2.5, 3.5])) if rng.random() < 0.8 else 6.0
    cfg = {"repeat_cycle_search_duration_days": sd, "repeat_cycle_for_orbit_track": bool(rng.random() < 0.6), "repeat_cycle_for_observation_events": bool(rng.random() < 0.6)}
    if rng.random() < 0.4:
        cfg["repeat_cycle_delta_position_m"] = float(rng.choice([20e3, 50e3, 200e3]))
        cfg["repeat_cycle_delta_velocity_m_per_s"] = float(rng.choice([30.0, 100.0, 400.0]))
    if rng.random() < 0.3:
        cfg["repeat_cycle_search_elevation_deg"] = float(rng.choice([45.0, 70.0, 80.0]))
    if rng.random() < 0.2:
        cfg["repeat_cycle_lazy_load"] = False
    case = {"kind": f"res{days}", "orbit": o, "config": cfg}
    u = rng.random()
    if u < 0.5:
        s = {}
        if rng.random() < 0.4:
            s["max_delta_position"] = float(rng.choice([5e3, 30e3, 100e3, 1e6]))
            s["max_delta_velocity"] = float(rng.choice([10.0, 50.0, 1000.0]))
        if rng.random() < 0.3:
            s["max_delta_position"] = float(rng.choice([50.0, 500.0]))
            tags.append("tight_tolerance")
        if rng.random() < 0.3:
            s["min_elevation_angle"] = float(rng.choice([30.0, 60.0, 85.0]))
        if rng.random() < 0.3:
            s["max_search_duration"] = float(rng.choice([43200, 70000, 100000, 200000]))
            if s["max_search_duration"] < 80000:
                tags.append("too_short_search")
        if rng.random() < 0.3:
            s["lazy_load"] = bool(rng.random() < 0.5)
        case["search"] = s
        case["search_only"] = bool(rng.random() < 0.4)
    day = 86000.0
    case["times"] = [W.r(x, 3) for x in rng.uniform(-4 * day, 5 * day, int(rng.integers(1, 7)))]
    if rng.random() < 0.3:
        case["times"][0] = float(rng.choice([0.0, 1.0, -1.0, 300.0]))
    case["try_repeat"] = [None, True] if rng.random() < 0.6 else [False, True]
    case["start"] = W.r(rng.uniform(-0.5 * day, 2 * day), 3)
    case["duration"] = W.r(rng.uniform(0.5, 3.2) * day, 1)
    case["elevation"] = float(rng.choice([0.0, 10.0, 30.0]))
    case["place"] = {"latitude": W.r(rng.uniform(-60, 60), 2), "longitude": W.r(rng.uniform(-180, 180), 2), "elevation": 0.0}
    case["tags"] = tags
    return case


def fixed_cases():
    out = []
    for inc, alt in ((30.0, 483908.0), (51.6, 503095.0), (66.0, 520912.0), (98.0, 570761.0)):
        out.append({"orbit": {"type": "circular", "altitude": alt, "inclination": inc, "true_anomaly": 7.0, "epoch": W.EPOCH.isoformat()},
                    "config": {"repeat_cycle_search_duration_days": 2.5}, "times": [-200000.0, -90000.0, -5.0, 0.0, 5000.0, 86000.0, 90000.0, 300000.5], "try_repeat": [None, True, False],
                    "start": 1000.0, "duration": 260000.0, "elevation": 5.0, "place": {"latitude": 20.0, "longitude": -50.0, "elevation": 0.0}})
    return out

"""C21: with several element sets every time uses the closest one."""
from datetime import datetime, timedelta, timezone

import numpy as np
from sgp4.api import Satrec

from vp import core, oracle as O, work as W

PROPERTY = "C21"
RULE = "a case counts when states, events or passes of an orbit with several element sets were compared with those of the closest set at every time"
CASES = {"quick": 600, "thorough": 8000}
REQUIRED_EVENTS = ["call:get_closest_tle_index", "call:get_orbit_track", "call:get_observation_events", "call:collect_observations", "call:collect_downlinks", "call:collect_orbit_track", "call:collect_ground_track",
                   "scalar_time", "unordered_times", "before_first", "after_last", "between", "equal_epochs", "rise_set_matched", "pass_matched", "period_spans_switch", "period_inside_one", "single_set", "pass_across_switch", "pass_ended_by_switch"]
ASSUMPTIONS = ["times within 2 ms of half-way between epochs may use either set; of sets with equal epochs any may be used",
               "rises and sets within 5 s of a switch between sets are not judged individually", "passes peaking within 0.1 deg of the threshold may be reported or not"]
UTC = timezone.utc


def install():
    from tatc import config
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    T = "tatc.schemas.orbit.TwoLineElements."
    core.hook(T + "get_closest_tle_index", post_index)
    from tatc.schemas.orbit import TwoLineElements
    if hasattr(TwoLineElements, "partition_by_tle_index"):
        core.hook(T + "partition_by_tle_index", post_partition)
    core.hook(T + "get_orbit_track", post_track)
    core.hook(T + "get_observation_events", post_events)
    core.hook("tatc.analysis.coverage.collect_observations", post_obs)
    core.hook("tatc.analysis.latency.collect_downlinks", post_down)
    core.hook("tatc.analysis.track.collect_orbit_track", post_otrack)
    core.hook("tatc.analysis.track.collect_ground_track", post_gtrack)


def epochs(tle):
    out = []
    for j in range(0, len(tle), 2):
        l = tle[j]
        yy = int(l[18:20])
        out.append(datetime(1900 + yy if yy >= 57 else 2000 + yy, 1, 1, tzinfo=UTC) + timedelta(days=float(l[20:32]) - 1))
    return out


def allowed(tle, t):
    """Indices of the sets that may be used at time t."""
    e = epochs(tle)
    d = np.array([abs((t - x).total_seconds()) for x in e])
    return [i for i in range(len(e)) if d[i] <= d.min() + 4e-3]


def pair(tle, i):
    return tle[2 * i:2 * i + 2]


def post_index(c, a, r, exc, token):
    if exc is not None or a["at_times"] is None:
        return
    tle = a["self"].tle
    ts = a["at_times"]
    scalar = isinstance(ts, datetime)
    for t, i in zip([ts], [r]) if scalar else zip(ts, r):
        c.check(i in allowed(tle, t), "not the closest element set", sig="index", t=str(t), got=i, want=allowed(tle, t), epochs=[str(x) for x in epochs(tle)])


def post_partition(c, a, r, exc, token):
    """A period cut at the switches: one label per period and one for its end."""
    if exc is not None:
        return
    tle = a["self"].tle
    ts, ix = r
    d = {"ts": [str(t) for t in ts], "indices": list(ix), "epochs": [str(x) for x in epochs(tle)]}
    if not c.check(len(ts) == len(ix) >= 2 and ts[0] == a["start"] and ts[-1] == a["end"], "the partition does not span the period with one label per time", sig="partition-span", **d):
        return
    if len(epochs(tle)) < 2:
        c.check(list(ix) == [0] * len(ix), "label of a single element set", sig="partition-index", **d)
        return
    for t0, t1, i in zip(ts, ts[1:], ix):
        if t1 - t0 > timedelta(milliseconds=20):
            c.event("partition_period")
            for f in (0.001, 0.5, 0.999):
                t = t0 + (t1 - t0) * f
                c.check(i in allowed(tle, t), "a period of the partition is not labelled with its closest element set", sig="partition-index", t=str(t), got=i, want=allowed(tle, t), **d)
    c.check(all(x <= y for x, y in zip(ts, ts[1:])) or ts[0] > ts[-1], "partition times are not in order", sig="partition-order", **d)
    c.check(ix[-1] in allowed(tle, ts[-1]), "the end of the period is not labelled with its closest element set", sig="partition-end", got=ix[-1], want=allowed(tle, ts[-1]), **d)


def classify(c, tle, t):
    e = epochs(tle)
    c.event("before_first" if t < e[0] else "after_last" if t > e[-1] else "between")


def post_track(c, a, g, exc, token):
    if exc is not None or a["try_repeat"]:
        return
    tle = a["self"].tle
    times = a["times"]
    scalar = isinstance(times, datetime)
    ts = [times] if scalar else list(times)
    p = np.asarray(g.position.m, float).reshape(3, -1)
    v = np.asarray(g.velocity.m_per_s, float).reshape(3, -1)
    if len(tle) == 2:
        c.event("single_set")
    if scalar:
        c.event("scalar_time")
    elif any(x > y for x, y in zip(ts, ts[1:])):
        c.event("unordered_times")
    if not c.check(p.shape[1] == len(ts), "wrong number of states", sig="track-count", got=p.shape[1], want=len(ts)):
        return
    tt = np.ravel(g.t.tt)
    c.check(len(tt) == len(ts) and np.abs(tt - np.ravel(O.ts_of(ts).tt)).max(initial=0) * 86400 < 1e-3, "the states do not carry the requested times", sig="track-time", got=tt[:3], want=O.ts_of(ts).tt[:3], tle=tle)
    for k, t in enumerate(ts):
        classify(c, tle, t)
        ok = False
        for i in allowed(tle, t):
            q, w = O.state_eci(pair(tle, i), O.ts_of([t]))
            if np.linalg.norm(q[:, 0] - p[:, k]) < 0.05 and np.linalg.norm(w[:, 0] - v[:, k]) < 1e-3:
                ok = True
        c.check(ok, "the state is not that of the closest element set", sig="track", t=str(t), k=k, tle=tle)


def switches(tle, start, end):
    e = sorted(epochs(tle))
    return [x + (y - x) / 2 for x, y in zip(e, e[1:]) if start < x + (y - x) / 2 < end]


def segments(tle, start, end):
    """[(a, b, set index)] in seconds, skipping empty ones."""
    cut = [start] + switches(tle, start, end) + [end]
    out = []
    for a, b in zip(cut, cut[1:]):
        if b - a < timedelta(milliseconds=10):
            continue
        out.append(((a - start).total_seconds(), (b - start).total_seconds(), allowed(tle, a + (b - a) / 2)))
    return out


def elev(tle, i, start, pt):
    return lambda s: O.elevation_at(pair(tle, i), start, s, pt.latitude, pt.longitude, pt.elevation)


def step_of(tle, i):
    return min(20.0, 86400 / float(tle[2 * i + 1][52:63]) / 300)


def post_events(c, a, r, exc, token):
    if exc is not None or a["try_repeat"] or len(a["self"].tle) == 2:
        return
    tle = a["self"].tle
    start, end, thr, pt = a["start"], a["end"], a["min_elevation_angle"], a["point"]
    times, kinds = r
    ts = [(t.utc_datetime() - start).total_seconds() for t in times] if len(kinds) else []
    kinds = [int(k) for k in kinds]
    c.check(all(x <= y + 1.0 for x, y in zip(ts, ts[1:])), "events are not in order of time", sig="events-order", ts=ts)
    segs = segments(tle, start, end)
    c.event("period_spans_switch" if len(segs) > 1 else "period_inside_one")
    if any(len(s[2]) > 1 for s in segs):
        # equal epochs: any of the sets
        c.event("equal_epochs")
        return
    used = [False] * len(ts)
    soft = []
    for s0, s1, (i,) in segs:
        fn = elev(tle, i, start, pt)
        vis = O.visibility(lambda s: fn(s + s0), s1 - s0, thr, step_of(tle, i))
        gaps = [(x[1], y[0]) for x, y in zip(vis, vis[1:]) if O.gap_margin(lambda s: fn(s + s0), x[1], y[0], thr) < 0.1]
        for (x, y, peak, cl, cr) in vis:
            if peak < 0.1 or y - x < 5 or any(g[0] == y or g[1] == x for g in gaps):
                soft.append((s0 + x - 20, s0 + y + 20))
                continue
            for t, k, edge in ((x, 0, cl), (y, 2, cr)):
                if edge or t < 3 or t > s1 - s0 - 3:
                    soft.append((s0 + t - 5, s0 + t + 5))
                    continue
                m = [j for j, (q, kk) in enumerate(zip(ts, kinds)) if kk == k and abs(q - s0 - t) < 1.0]
                for j in m:
                    used[j] = True
                c.check(len(m) == 1, "a rise or set with the closest element set is not reported exactly once", sig="events-missing", at=s0 + t, kind=k, reported=[(round(q, 2), kk) for q, kk in zip(ts, kinds)][:30], segs=segs)
                c.event("rise_set_matched", len(m) == 1)
    for j, (q, k) in enumerate(zip(ts, kinds)):
        if k != 1 and not used[j]:
            c.check(any(x <= q <= y for x, y in soft), "a rise or set is reported that the closest element set does not have", sig="events-extra", at=q, kind=k, segs=segs)
        if k == 1:
            i = next((s[2][0] for s in segs if s[0] - 1 <= q <= s[1] + 1), None)
            if i is not None:
                ev = [float(elev(tle, s[2][0], start, pt)(np.array([q]))[0]) for s in segs if s[0] - 1 <= q <= s[1] + 1]
                c.check(max(ev) > thr - 0.2, "a culmination is reported out of view of the closest element set", sig="events-culmination", at=q, el=ev, thr=thr)
    c.state("events", len(segs), min(len(ts), 20))


def passes(c, tle, start, end, pt, thr, rows, what):
    """Compare (start, end) rows with passes over the closest sets."""
    segs = segments(tle, start, end)
    if any(len(s[2]) > 1 for s in segs):
        return
    fns = [(s0, s1, elev(tle, i, start, pt), i) for s0, s1, (i,) in segs]

    def fn(s):
        s = np.atleast_1d(np.asarray(s, float))
        out = np.empty(len(s))
        for k, (s0, s1, f, i) in enumerate(fns):
            m = (s >= s0) & ((s < s1) | (k == len(fns) - 1))
            if m.any():
                out[m] = f(s[m])
        return out

    dur = (end - start).total_seconds()
    vis = O.visibility(fn, dur, thr, min(step_of(tle, f[3]) for f in fns))
    bounds = [s[0] for s in segs[1:]]
    shaky = [(x[0] - 5, y[1] + 5) for x, y in zip(vis, vis[1:]) if O.gap_margin(fn, x[1], y[0], thr) < 0.1]
    shaky += [(x - 5, y + 5) for x, y, p, _, _ in vis if p < 0.1 or y - x < 5]
    used = [False] * len(rows)
    for x, y, p, cl, cr in vis:
        m = [k for k, (ra, rb) in enumerate(rows) if ra < y and rb > x]
        for k in m:
            used[k] = True
        if any(s[0] <= x and y <= s[1] for s in shaky):
            continue
        # switches at the very ends of a pass
        if any(0.01 < d < 5 for b in bounds for d in (abs(b - x), abs(b - y))):
            continue
        if any(x + 1 < b < y - 1 for b in bounds):
            c.event("pass_across_switch")
        if any(min(abs(b - x), abs(b - y)) < 0.01 for b in bounds):
            c.event("pass_ended_by_switch")
        if c.check(len(m) == 1, f"{what}: a pass over the closest element sets is not reported exactly once", sig=what + "-missing", a=x, b=y, rows=rows[:20], bounds=bounds, tle=tle):
            ra, rb = rows[m[0]]
            c.check(abs(ra - x) < 1.5 and abs(rb - y) < 1.5, f"{what}: a pass is reported with the wrong times", sig=what + "-times", got=rows[m[0]], want=(x, y), bounds=bounds, tle=tle)
            c.event("pass_matched")
    for k, u in enumerate(used):
        if not u:
            # what is left of a pass in the second after a switch falls between samples
            if any(abs(b - q) < 2 for b in bounds for q in rows[k]) and rows[k][1] - rows[k][0] < 5:
                c.event("rest_of_pass")
                continue
            c.check(any(s[0] - 5 <= rows[k][0] and rows[k][1] <= s[1] + 5 for s in shaky), f"{what}: a pass is reported that the closest element sets do not have", sig=what + "-extra", row=rows[k], tle=tle)


def post_obs(c, a, gdf, exc, token):
    if exc is not None:
        return
    tle = a["satellite"].orbit.to_tle().tle
    if len(tle) == 2:
        return
    inst = a["satellite"].instruments[a["instrument_index"]]
    i0 = allowed(tle, a["start"])
    if len(i0) > 1:
        return
    p0, _ = O.state_ecef(pair(tle, i0[0]), O.ts_at(a["start"], 0.0))
    thr = O.min_elevation(float(O.ecef_to_geodetic(p0)[2]), inst.field_of_regard)
    rows = [((r.start - a["start"]).total_seconds(), (r.end - a["start"]).total_seconds()) for r in gdf.itertuples(index=False)]
    passes(c, tle, a["start"], a["end"], a["point"], thr, rows, "observation")
    c.state("obs", len(rows))


def post_down(c, a, gdf, exc, token):
    if exc is not None:
        return
    tle = a["satellite"].orbit.to_tle().tle
    st = a["stations"]
    if len(tle) == 2 or len(st) != 1:
        return
    rows = [((r.start - a["start"]).total_seconds(), (r.end - a["start"]).total_seconds()) for r in gdf.itertuples(index=False)]
    passes(c, tle, a["start"], a["end"], st[0], st[0].min_elevation_angle, rows, "downlink")


def state_at(tle, t):
    return [O.state_ecef(pair(tle, i), O.ts_of([t]))[0][:, 0] for i in allowed(tle, t)]


def post_otrack(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    tle = a["satellite"].orbit.to_tle().tle
    for r in list(gdf.itertuples(index=False))[:12]:
        t = r.time if isinstance(r.time, datetime) else r.time.to_pydatetime()
        want = [O.ecef_to_geodetic(p) for p in state_at(tle, t)]
        g = r.geometry
        d = min(O.central_angle(g.x, g.y, w[1], w[0]) if False else np.degrees(np.arccos(np.clip(O.unit(g.x, g.y) @ O.unit(w[1], w[0]), -1, 1))) for w in want)
        c.check(d < 1e-3, "orbit track: position is not that of the closest element set", sig="otrack", t=str(t), d=d)


def post_gtrack(c, a, gdf, exc, token):
    if exc is not None or len(gdf) == 0:
        return
    tle = a["satellite"].orbit.to_tle().tle
    for r in list(gdf.itertuples(index=False))[:12]:
        t = r.time if isinstance(r.time, datetime) else r.time.to_pydatetime()
        want = [O.ecef_to_geodetic(p) for p in state_at(tle, t)]
        b = r.geometry
        if b.is_empty:
            continue
        # small nadir footprints contain the sub-satellite point of the right set
        ok = any(b.distance(__import__("shapely").geometry.Point(float(w[1]), float(w[0]))) < 0.3 or abs(w[0]) > 75 or abs(abs(w[1]) - 180) < 5 for w in want)
        c.check(ok, "ground track: footprint is not that of the closest element set", sig="gtrack", t=str(t))


def run(case, c):
    from tatc.analysis import collect_downlinks, collect_ground_track, collect_observations, collect_orbit_track
    from tatc.schemas import GroundStation, Instrument, Point, Satellite, TwoLineElements
    o = TwoLineElements(tle=case["tle"])
    e0 = W.orbit_epoch({"type": "tle", "tle": case["tle"]})
    times = [e0 + timedelta(seconds=s) for s in case["times"]]
    if case["what"] == "track":
        o.get_orbit_track(times)
        o.get_orbit_track(times[0])
        o.get_closest_tle_index(times)
        for t in times[:4]:
            o.get_closest_tle_index(t)
        # half-way exactly
        e = epochs(case["tle"])
        for a, b in zip(e, e[1:]):
            for d in (-0.01, 0.01):
                o.get_closest_tle_index(a + (b - a) / 2 + timedelta(seconds=d))
        sat = Satellite(name="S", orbit=o, instruments=[Instrument(name="I", field_of_regard=10.0)])
        collect_orbit_track(sat, times)
        collect_ground_track(sat, times[:4])
        return
    start = e0 + timedelta(seconds=case["start"])
    end = start + timedelta(seconds=case["duration"])
    pl = case["place"]
    sat = Satellite(name="S", orbit=o, instruments=[Instrument(name="I", field_of_regard=case["for"])])
    pt = Point(id=0, **pl)
    o.get_observation_events(pt, start, end, case["elevation"])
    collect_observations(pt, sat, start, end)
    collect_downlinks([GroundStation(name="G", min_elevation_angle=case["elevation"], **pl)], sat, start, end)


def gen(rng, i):
    k = 1 if rng.random() < 0.06 else int(rng.integers(2, 6))
    ep = W.gen_epoch(rng)
    alt = W.r(rng.uniform(400e3, 1400e3), 1)
    mm = W.mean_motion(alt)
    inc = W.r(rng.uniform(20, 120), 4)
    node, ma, argp, e = rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(0, 0.005)
    gap = 10 ** rng.uniform(3, 5)
    style = str(rng.choice(["similar", "similar", "manoeuvred", "different"]))
    lines, t = [], 0.0
    for j in range(k):
        if j:
            dt = 0.0 if rng.random() < 0.12 else gap * rng.uniform(0.2, 2)
        else:
            dt = 0.0
        t += dt
        # first-order secular motion keeps similar sets similar
        a = O.R_MEAN + alt
        f = 1.5 * 1.08263e-3 * (6378137.0 / a) ** 2 * mm * 360 / 86400
        ci = np.cos(np.radians(inc))
        node += -f * ci * dt
        argp += f * (2 - 2.5 * np.sin(np.radians(inc)) ** 2) * dt
        ma += mm * 360 / 86400 * dt
        if style == "manoeuvred":
            ma += rng.uniform(-3, 3)
            node += rng.uniform(-0.5, 0.5)
        elif style == "different":
            ma, node = rng.uniform(0, 360), rng.uniform(0, 360)
        lines += W.tle_text(ep + timedelta(seconds=t), inc, W.r(node % 360, 4) % 360, e, W.r(argp % 360, 4) % 360, W.r(ma % 360, 4) % 360, mm)
    what = "track" if rng.random() < 0.5 else "events"
    case = {"kind": style, "what": what, "tle": lines}
    n = int(rng.integers(1, 12))
    case["times"] = [W.r(x, 3) for x in rng.uniform(-0.5 * gap, t + 0.5 * gap, n)]
    if rng.random() < 0.4:
        case["times"] = sorted(case["times"])
    if what == "events":
        case["start"] = W.r(rng.uniform(-0.4 * gap, t + 0.2 * gap), 3)
        case["duration"] = W.r(min(2 * 86400, rng.uniform(0.3, 1.5) * max(t, 20000)), 1)
        case["for"] = float(rng.choice([60.0, 100.0, 140.0, 180.0]))
        case["elevation"] = float(rng.choice([0.0, 5.0, 15.0, 30.0]))
        case["place"] = W.gen_place(rng)
        if style == "similar" and rng.random() < 0.7 and k > 1 and t > 3000:
            # a place in view at one of the switches
            e = epochs(lines)
            q = int(rng.integers(0, k - 1))
            mid = e[q] + (e[q + 1] - e[q]) / 2
            p, _ = O.state_ecef(lines[2 * q:2 * q + 2], O.ts_at(mid, 0.0))
            la, lo, _h = O.ecef_to_geodetic(np.asarray(p).reshape(3))
            case["place"] = {"latitude": W.r(np.clip(float(la) + rng.uniform(-4, 4), -90, 90), 3), "longitude": W.r((float(lo) + rng.uniform(-4, 4) + 180) % 360 - 180, 3), "elevation": 0.0}
            d = (mid - e[0]).total_seconds()
            case["start"] = W.r(d - rng.uniform(1000, 8000), 3)
            case["duration"] = W.r(rng.uniform(9000, 20000), 1)
    return case


def fixed_cases():
    return []

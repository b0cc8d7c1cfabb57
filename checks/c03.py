"""C03: multi-satellite observations are the sorted union."""
from datetime import timedelta

import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C03"
RULE = "a case counts when a collected multi-satellite table was compared with the per-member, per-instrument observations and with the independently computed visibility"
CASES = {"quick": 200, "thorough": 1500}
REQUIRED_EVENTS = ["call:collect_multi_observations", "call:collect_observations", "rows", "single", "constellation", "multi_instrument", "empty_member", "empty_total", "solar", "same_name", "same_instrument_name"]
ASSUMPTIONS = ["the single-satellite result is judged by C01; here it is taken as the meaning of 'what the member observes', cross-checked against the visibility oracle for each instrument"]
COLS = ["point_id", "satellite", "instrument", "start", "epoch", "end", "sat_alt", "sat_az"]
SOLAR = ["sat_sunlit", "solar_alt", "solar_az", "solar_time"]


def install():
    core.hook("tatc.analysis.coverage.collect_observations", lambda c, a, r, e, t: None)
    core.hook("tatc.analysis.coverage.collect_multi_observations", post)


def key(df, cols):
    return [tuple(x) for x in df[cols].itertuples(index=False)]


def post(c, a, gdf, exc, token):
    if exc is not None:
        return
    from tatc.analysis import collect_observations
    sats = a["satellites"] if isinstance(a["satellites"], (list, tuple)) else [a["satellites"]]
    if not isinstance(a["satellites"], list):
        c.event("single")
    cols = COLS + ([] if a["omit_solar"] else SOLAR)
    if not a["omit_solar"]:
        c.event("solar")
    c.check(set(COLS + ["geometry"]) <= set(gdf.columns), "missing columns", sig="columns", got=list(gdf.columns))
    c.check(all((s in gdf.columns) == (not a["omit_solar"]) for s in SOLAR), "solar option does not apply to every member", sig="solar-option", got=list(gdf.columns))
    want = []
    expected_members = 0
    names = [(m.name, ins.name) for con in sats for m in con.generate_members() for ins in m.instruments]
    for con in sats:
        members = expected(con)
        got = con.generate_members()
        expected_members += members
        c.check(len(got) == members, "wrong number of members", sig="members", expected=members, got=len(got))
        if members > 1:
            c.event("constellation")
        for m in got:
            if len(m.instruments) > 1:
                c.event("multi_instrument")
            for k, ins in enumerate(m.instruments):
                df = collect_observations(a["point"], m, a["start"], a["end"], k, a["omit_solar"])
                if len(df) == 0:
                    c.event("empty_member")
                want += key(df, cols)
                if names.count((m.name, ins.name)) == 1:
                    count(c, a, m, ins, gdf)
                elif [x.name for x in m.instruments].count(ins.name) > 1:
                    c.event("same_instrument_name", len(df))
                else:
                    c.event("same_name", len(df))
    have = key(gdf, cols) if len(gdf) else []
    if not want:
        c.event("empty_total")
    c.event("rows", len(have))
    c.state(expected_members, min(len(have), 50))
    c.check(sorted(map(str, want)) == sorted(map(str, have)), "table is not the union of member observations", sig="union",
            n_expected=len(want), n_got=len(have), lost=[str(w) for w in want if w not in have][:2], extra=[str(h) for h in have if h not in want][:2])
    s = list(gdf["start"])
    c.check(all(x <= y for x, y in zip(s[:-1], s[1:])), "not ordered by start", sig="order")
    c.check(list(gdf.index) == list(range(len(gdf))), "index is not fresh", sig="index", index=list(gdf.index)[:10])
    if len(gdf):
        c.check(all((g.x, g.y, g.z) == (a["point"].longitude, a["point"].latitude, a["point"].elevation) for g in gdf.geometry), "geometry is not the point", sig="geometry")


def count(c, a, m, ins, gdf):
    """independent visibility count for plain instruments, only clear passes"""
    if hasattr(ins, "roll_angle") or ins.req_self_sunlit is not None or ins.req_target_sunlit is not None or ins.min_access_time.total_seconds() > 0:
        return
    tle = m.orbit.to_tle().tle
    if len(tle) != 2:
        return
    pt, start, end = a["point"], a["start"], a["end"]
    dur = (end - start).total_seconds()
    p0, _ = O.state_ecef(tle, O.ts_at(start, 0.0))
    thr = O.min_elevation(float(O.ecef_to_geodetic(p0)[2]), ins.field_of_regard)
    fn = lambda s: O.elevation_at(tle, start, s, pt.latitude, pt.longitude, pt.elevation)
    vis = O.visibility(fn, dur, thr, 20.0)
    if any(v[2] < 0.3 or v[1] - v[0] < 10 for v in vis):
        vis = None
    else:
        # near misses
        m_ = fn(np.linspace(0, dur, int(dur / 10) + 2)) - thr
        pk = m_[1:-1][(m_[1:-1] > m_[:-2]) & (m_[1:-1] >= m_[2:])]
        if np.any((pk < 0) & (pk > -0.3)):
            vis = None
        lo = m_[1:-1][(m_[1:-1] < m_[:-2]) & (m_[1:-1] <= m_[2:])]
        if np.any((lo < 0.3) & (lo > -0.3)):
            vis = None
    if vis is None:
        c.event("marginal")
        return
    rows = gdf[(gdf.satellite == m.name) & (gdf.instrument == ins.name)]
    mids = sorted((r - start).total_seconds() for r in rows.epoch)
    want = sorted((v[0] + v[1]) / 2 for v in vis)
    c.check(len(mids) == len(want) and all(abs(x - y) < 4 for x, y in zip(mids, want)),
            "member passes differ from its visibility", sig="member-visibility", member=m.name, instrument=ins.name, expected=want[:6], got=mids[:6])


def expected(con):
    from tatc.schemas import MOGConstellation, SOCConstellation
    t = con.type
    if t in ("train", "walker"):
        return con.number_satellites
    if t == "mog":
        return con.number_satellites
    if t == "satellite":
        return 1
    return len(con.generate_members())


def fixed_cases():
    return []


def gen_system(rng, j, ep):
    n = int(rng.choice([1, 1, 2, 3]))
    ins = []
    for k in range(n):
        d = W.gen_instrument(rng, pointed=rng.random() < 0.1, solar=0.15)
        d["name"] = f"I{j}{k}"
        if rng.random() < 0.2:
            d["min_access_s"] = float(rng.choice([60, 300]))
            d["access_time_fixed"] = bool(rng.random() < 0.5)
        ins.append(d)
    t = str(rng.choice(["satellite", "satellite", "satellite", "walker", "train", "mog"]))
    d = {"kind": t, "name": f"Sys {j}", "instr": ins,
         "orbit": W.gen_orbit(rng, epoch=ep, kinds=("circular",) if t == "mog" else ("circular", "keplerian", "sso", "tle"))}
    d["orbit"].pop("x", None)
    if t == "walker":
        p = int(rng.integers(1, 4))
        d["args"] = {"number_satellites": p * int(rng.integers(1, 3)), "number_planes": p, "relative_spacing": int(rng.integers(0, p)),
                     "configuration": str(rng.choice(["delta", "star"]))}
    if t == "train":
        d["args"] = {"number_satellites": int(rng.integers(1, 5)), "interval": int(rng.integers(60, 1800)), "repeat_ground_track": bool(rng.random() < 0.5)}
    if t == "mog":
        d["args"] = {"number_satellites": int(rng.integers(2, 4)), "parallel_axis": 2000.0, "transverse_axis": 1000.0}
    return d


def gen(rng, i):
    ep = W.gen_epoch(rng)
    k = int(rng.choice([1, 2, 2, 3]))
    systems = [gen_system(rng, j, ep) for j in range(k)]
    if rng.random() < 0.3:
        # simultaneous observations: same orbit and views under other names
        s = systems[int(rng.integers(k))]
        if len(s["instr"]) > 1:
            s["instr"][1] = dict(s["instr"][0], name=s["instr"][1]["name"])
        else:
            systems.insert(int(rng.integers(k + 1)), dict(s, name="Twin"))
            k += 1
    if rng.random() < 0.15:
        # names tell neither satellites nor instruments apart
        u = rng.random()
        for s in systems:
            if u < 0.7:
                s["name"] = "Sys"
            if u > 0.4:
                s["instr"] = [dict(x, name="Instrument") for x in s["instr"]]
            if u > 0.8 and len(s["instr"]) == 1:
                s["instr"].append(dict(s["instr"][0], field_of_regard=W.r(rng.uniform(20, 150), 2)))
    return {"systems": systems, "place": W.gen_place(rng), "offset": int(rng.integers(0, 86400)),
            "duration": int(rng.integers(1800, 43200)) if rng.random() < 0.85 else 120, "omit": bool(rng.random() < 0.7),
            "single": bool(k == 1 and rng.random() < 0.6)}


def build(d):
    from tatc.schemas import MOGConstellation, Satellite, TrainConstellation, WalkerConstellation
    cls = {"satellite": Satellite, "walker": WalkerConstellation, "train": TrainConstellation, "mog": MOGConstellation}[d["kind"]]
    a = dict(d.get("args", {}))
    if "interval" in a:
        a["interval"] = timedelta(seconds=a["interval"])
    return cls(name=d["name"], orbit=W.build_orbit(d["orbit"]), instruments=[W.build_instrument(x) for x in d["instr"]], **a)


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_multi_observations
    from tatc.schemas import Point
    config.rc.repeat_cycle_for_orbit_track = False
    config.rc.repeat_cycle_for_observation_events = False
    sats = [build(d) for d in case["systems"]]
    start = W.orbit_epoch(case["systems"][0]["orbit"]).replace(microsecond=0) + timedelta(seconds=case["offset"])
    pt = Point(id=5, **case["place"])
    arg = sats[0] if case["single"] else sats
    collect_multi_observations(pt, arg, start, start + timedelta(seconds=case["duration"]), omit_solar=case["omit"])

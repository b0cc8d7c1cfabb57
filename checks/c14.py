"""C14: radio occultation events are exactly the grazing arcs in range."""
from datetime import timedelta

import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C14"
RULE = "a case counts when the reported arcs of at least one receiver/transmitter pair were compared with the runs of samples computed from both satellites' positions"
CASES = {"quick": 1000, "thorough": 10000}
REQUIRED_EVENTS = ["same_name", "call:collect_ro_observations", "arc", "rising", "setting", "single_sample_arc", "open_at_start", "open_at_end", "ends_by_height", "ends_by_yaw", "several_arcs_of_pair", "no_arcs", "single_transmitter", "behind_rejected", "interior_sample", "uneven_times"]
ASSUMPTIONS = ["pairs with a sample within 30 m of the height range, 0.01 deg of the yaw limit or 1 km of an end of the line of sight are not judged for that pair"]


def install():
    core.hook("tatc.analysis.ro_coverage.collect_ro_observations", post)


def history(rx, tx, times):
    ts = O.ts_of(times) if len(times) > 1 else O.ts_at(times[0], np.zeros(1))
    pr, vr = O.state_eci(rx, ts)
    pt, _ = O.state_eci(tx, ts)
    d = pt - pr
    k = -(pr * d).sum(0) / (d * d).sum(0)        # fraction of the way to the transmitter
    tp = pr + k * d
    f = O.to_itrs(tp, ts)
    la, lo, h = O.ecef_to_geodetic(f)
    v = vr / np.linalg.norm(vr, axis=0)
    n = np.cross(pr.T, vr.T).T
    n = n / np.linalg.norm(n, axis=0)
    b = pr / np.linalg.norm(pr, axis=0)
    dv, dn, db = (d * v).sum(0), (d * n).sum(0), (d * b).sum(0)
    # angles in the planes of the receiver frame (v and b need not be orthogonal)
    vb = (v * b).sum(0)
    pitch = np.degrees(np.arctan2(db, dv))
    yaw = np.degrees(np.arctan2(dn, dv - db * vb))
    ptf = O.to_itrs(pt, ts)
    az = np.array([float(O.look_angles(ptf[:, i], la[i], lo[i], h[i])[1]) for i in range(len(times))])
    L = np.linalg.norm(d, axis=0)
    return {"k": k, "h": h, "lat": la, "lon": lo, "pitch": pitch, "yaw": yaw, "az": az, "end": np.minimum(np.abs(k), np.abs(1 - k)) * L}


def post(c, a, out, exc, token):
    if exc is not None:
        return
    times = list(a["times"])
    txs = a["transmitters"] if isinstance(a["transmitters"], list) else [a["transmitters"]]
    if not isinstance(a["transmitters"], list):
        c.event("single_transmitter")
    rx = a["receiver"]
    lo_, hi_ = a["range_elevation"]
    rows = list(out.itertuples(index=False))
    c.check(list(out.index) == list(range(len(rows))), "index is not 0..n-1", sig="index")
    ts = [r.time for r in rows]
    c.check(all(x <= y for x, y in zip(ts[:-1], ts[1:])), "events are not in order of their time", sig="order")
    c.check({r.transmitter for r in rows} <= {t.name for t in txs} and all(r.receiver == rx.name for r in rows), "event names", sig="names")
    if not rows:
        c.event("no_arcs")
    names = [t.name for t in txs]
    together = {}
    for tx in txs:
        H = history(rx.orbit.to_tle().tle, tx.orbit.to_tle().tle, times)
        yb = np.minimum(np.abs(H["yaw"]), 180 - np.abs(H["yaw"]))
        between = (H["k"] > 0) & (H["k"] < 1)
        inh = (H["h"] > lo_) & (H["h"] < hi_)
        iny = yb < a["max_yaw"]
        near = (between & inh & (np.abs(yb - a["max_yaw"]) < 0.01)) | (between & iny & ((np.abs(H["h"] - lo_) < 30) | (np.abs(H["h"] - hi_) < 30))) | (iny & inh & (H["end"] < 1000))
        if near.any():
            c.event("ambiguous")
            together.setdefault(tx.name, []).append(None)
            continue
        ok = between & inh & iny
        if (~between & inh & iny).any():
            c.event("behind_rejected")
        runs, cur = [], []
        for i in range(len(times)):
            if ok[i]:
                cur.append(i)
            elif cur:
                runs.append(cur)
                cur = []
        if cur:
            runs.append(cur)
        if names.count(tx.name) > 1:
            # transmitters that the name does not tell apart are judged together
            together.setdefault(tx.name, []).extend((times[r[0]], times[r[-1]]) for r in runs)
            continue
        mine = sorted([r for r in rows if r.transmitter == tx.name], key=lambda r: r.start)
        if len(runs) > 1:
            c.event("several_arcs_of_pair")
        if not c.check(len(mine) == len(runs), "number of occultation events of a pair", sig="count", transmitter=tx.name, expected=[[str(times[r[0]]), str(times[r[-1]])] for r in runs][:4], got=[[str(r.start), str(r.end)] for r in mine][:4]):
            continue
        for r, run in zip(mine, runs):
            c.event("arc")
            i, j = run[0], run[-1]
            if len(run) == 1:
                c.event("single_sample_arc")
            if i == 0:
                c.event("open_at_start")
            if j == len(times) - 1:
                c.event("open_at_end")
            for q in ([j + 1] if j + 1 < len(times) else []) + ([i - 1] if i else []):
                c.event("ends_by_height" if not inh[q] else "ends_by_yaw")
            if not c.check(abs((r.start - times[i]).total_seconds()) < 1e-3 and abs((r.end - times[j]).total_seconds()) < 1e-3, "event does not span its maximal run", sig="span", expected=[str(times[i]), str(times[j])], got=[str(r.start), str(r.end)]):
                continue
            ahead = abs(H["pitch"][i]) < 90
            c.event("rising" if ahead else "setting")
            if abs(abs(H["pitch"][i]) - 90) > 0.01:
                c.check(bool(r.is_rising) == bool(ahead), "rising flag", sig="rising", pitch=H["pitch"][i], got=bool(r.is_rising))
            pts = list(r.geometry.geoms)
            if not c.check(len(pts) == len(run), "event does not list one tangent point per sample", sig="points", expected=len(run), got=len(pts)):
                continue
            for q, p in zip(run, pts):
                ww = np.array(O.geodetic_to_ecef(H["lat"][q], H["lon"][q], H["h"][q]))
                gg = np.array(O.geodetic_to_ecef(p.y, p.x, p.z))
                if not c.check(np.linalg.norm(ww - gg) < 30, "tangent point", sig="tangent", time=str(times[q]), expected=[H["lon"][q], H["lat"][q], H["h"][q]], got=[p.x, p.y, p.z]):
                    break
            dist = np.abs(H["h"][run] - a["sample_elevation"])
            best = run[int(np.argmin(dist))]
            srt = np.sort(dist)
            if len(srt) > 1 and srt[1] - srt[0] < 60:
                c.event("sample_tie")
                continue
            if best not in (i, j):
                c.event("interior_sample")
            c.check(abs((r.time - times[best]).total_seconds()) < 1e-3, "sampled time is not the one closest to the requested height", sig="sample-time", expected=str(times[best]), got=str(r.time))
            p = r.position
            ww = np.array(O.geodetic_to_ecef(H["lat"][best], H["lon"][best], H["h"][best]))
            c.check(np.linalg.norm(np.array(O.geodetic_to_ecef(p.y, p.x, p.z)) - ww) < 30, "sampled position", sig="sample-position")
            c.check(O.angdiff(r.rx_tx_pitch, H["pitch"][best]) < 0.01, "sampled pitch", sig="pitch", expected=H["pitch"][best], got=r.rx_tx_pitch)
            c.check(O.angdiff(r.rx_tx_yaw, H["yaw"][best]) < 0.05, "sampled yaw", sig="yaw", expected=H["yaw"][best], got=r.rx_tx_yaw)
            c.check(O.angdiff(r.tp_tx_azimuth, H["az"][best]) < 0.05 + 0.02 / max(0.02, np.cos(np.radians(H["lat"][best]))), "sampled azimuth", sig="azimuth", expected=H["az"][best], got=r.tp_tx_azimuth)
        c.state(len(runs), isinstance(a["transmitters"], list), len(times) > 1)
    for name, spans in together.items():
        if names.count(name) > 1 and None not in spans:
            c.event("same_name", len(spans))
            want = sorted((x.timestamp(), y.timestamp()) for x, y in spans)
            got = sorted((r.start.timestamp(), r.end.timestamp()) for r in rows if r.transmitter == name)
            c.check(len(want) == len(got) and np.allclose(want, got, rtol=0, atol=1e-3), "events of transmitters of one name", sig="same-name", expected=len(want), got=len(got))


def fixed_cases():
    return []


def gen(rng, i):
    ep = W.gen_epoch(rng)
    n = int(rng.choice([1, 3, 8]))
    st = float(rng.choice([2.0, 10.0, 30.0, 60.0, 60.0]))
    nt = int(rng.choice([1, 60, 150, 240]))
    tx = [W.gen_orbit(rng, alt=(15000e3, 25000e3) if rng.random() < 0.8 else (500e3, 3000e3), epoch=ep, kinds=("circular", "keplerian", "tle")) for _ in range(n)]
    lo = float(rng.choice([-200e3, -300e3, -100e3, 0.0]))
    return {"rx": W.gen_orbit(rng, alt=(380e3, 1200e3), epoch=ep, kinds=("circular", "keplerian", "sso", "tle")), "tx": tx, "n": nt, "step": st, "base": float(rng.integers(-40000, 40000)),
            "sample": float(rng.choice([0.0, 0.0, 20e3, -50e3])), "yaw": W.r(rng.uniform(5, 85), 2) if rng.random() < 0.7 else 65.0, "range": [lo, float(rng.choice([60e3, 60e3, 300e3, 150e3]))],
            "default": bool(rng.random() < 0.2), "same": bool(n > 1 and rng.random() < 0.15), "list": bool(n > 1 or rng.random() < 0.5), "uneven": int(rng.integers(1, 1 << 30)) if rng.random() < 0.3 else 0}


def run(case, c):
    from tatc import config
    from tatc.analysis import collect_ro_observations
    config.rc.repeat_cycle_for_orbit_track = False
    ins = [{"name": "i", "field_of_regard": 40.0}]
    rx = W.build_satellite("RX", case["rx"], ins)
    tx = [W.build_satellite("TX" if case.get("same") else f"TX{k}", o, ins) for k, o in enumerate(case["tx"])]
    base = W.orbit_epoch(case["rx"]).replace(microsecond=0) + timedelta(seconds=case["base"])
    times = [base + timedelta(seconds=case["step"] * k) for k in range(case["n"])]
    if case.get("uneven"):
        c.event("uneven_times")
        g = np.random.default_rng(case["uneven"]).choice([0.25, 0.5, 1.0, 2.0, 7.5], case["n"])
        times = [base + timedelta(seconds=float(x)) for x in np.cumsum(g * case["step"])]
    kw = {} if case["default"] else {"sample_elevation": case["sample"], "max_yaw": case["yaw"], "range_elevation": tuple(case["range"])}
    collect_ro_observations(rx, tx if case["list"] else tx[0], times, **kw)

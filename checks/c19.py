"""C19: Walker and train constellations have the prescribed phasing."""
from datetime import datetime, timedelta, timezone
from functools import lru_cache

import numpy as np
from pydantic import ValidationError
from sgp4.api import Satrec

from checks.c18 import mean_from_true, series_tol, MU
from vp import core, oracle as O, work as W

PROPERTY = "C19"
RULE = "a case counts when the members of a constellation, or a derived orbit, were compared element by element with the lead orbit"
CASES = {"quick": 4000, "thorough": 30000}
REQUIRED_EVENTS = ["call:generate_members", "call:get_derived_orbit", "walker_delta", "walker_star", "train_repeat", "train_fixed_plane", "derived_negative", "derived_multi_turn",
                   "lead:circular", "lead:keplerian", "lead:sso", "lead:tle", "lead:molniya", "lead:tundra", "multi_tle", "uneven_planes", "rejected", "followed", "dragging"]
ASSUMPTIONS = ["mean-anomaly changes of eccentric (non-TLE) orbits judged up to the truncation of the anomaly series and for eccentricity below 0.3",
               "element sets compared at the resolution of their columns",
               "drag and mean-motion derivatives of element sets with magnitudes the export format can hold"]
UTC = timezone.utc


def install():
    for k in ("TwoLineElements", "CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit", "MolniyaOrbit", "TundraOrbit"):
        core.hook(f"tatc.schemas.orbit.{k}.get_derived_orbit", post_derived, pre=lambda c, a: a["self"].model_dump_json())
    core.hook("tatc.schemas.satellite.WalkerConstellation.generate_members", post_walker, pre=snap)
    core.hook("tatc.schemas.satellite.TrainConstellation.generate_members", post_train, pre=snap)


def snap(c, a):
    return a["self"].model_dump_json()


@lru_cache(None)
def _inv_tol(e):
    m = np.radians(np.linspace(0, 360, 721))
    s = m + (2 * e - e ** 3 / 4) * np.sin(m) + 1.25 * e ** 2 * np.sin(2 * m) + 13 / 12 * e ** 3 * np.sin(3 * m)
    E = m.copy()
    for _ in range(300):
        E = m + e * np.sin(E)
    ex = 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))
    return float(1.1 * np.max(np.abs(np.degrees(np.angle(np.exp(1j * (s - ex)))))) * (1 - e * e) ** 1.5 / (1 - e) ** 2)


def mtol(e):
    return series_tol(e) + _inv_tol(round(float(e) + 5e-4, 3)) + 1e-6


def elements(o, node=True):
    """Per element set: kind, i, node, argp, e, M, n (rev/day), epoch, extra."""
    k = o.type
    if k == "tle":
        out = []
        for j in range(0, len(o.tle), 2):
            s = Satrec.twoline2rv(o.tle[j], o.tle[j + 1])
            t = datetime(2000, 1, 1, tzinfo=UTC) + timedelta(days=s.jdsatepoch - 2451544.5) + timedelta(days=s.jdsatepochF)
            out.append(dict(i=np.degrees(s.inclo), node=np.degrees(s.nodeo), argp=np.degrees(s.argpo), e=s.ecco, M=np.degrees(s.mo), n=s.no_kozai * 720 / np.pi, t=t,
                            bstar=s.bstar, ndot=s.ndot, nddot=s.nddot))
        return out
    if k in ("circular", "keplerian", "sso"):
        n = 86400 / (2 * np.pi * np.sqrt((O.R_MEAN + o.altitude) ** 3 / MU))
        e = getattr(o, "eccentricity", 0.0)
    else:
        n = 86400 / o.orbital_period
        a = (6.6743e-11 * 5.9736e24 * (o.orbital_period / (2 * np.pi)) ** 2) ** (1 / 3)
        e = o.eccentricity if k == "tundra" else 1 - (o.altitude + O.A) / a
    i = np.degrees(np.arccos(-((O.R_MEAN + o.altitude) / 12352000) ** 3.5)) if k == "sso" else o.inclination
    nd = o.get_right_ascension_ascending_node() if k == "sso" else o.right_ascension_ascending_node
    M = mean_from_true(o.true_anomaly, e) if e < 1 else np.nan
    return [dict(i=i, node=nd, argp=getattr(o, "perigee_argument", 0.0), e=e, M=M, n=n, t=o.epoch, bstar=0.0, ndot=0.0, nddot=0.0)]


def compare(c, lead, member, dm, dn, what):
    kl, km = lead.type, member.type
    c.check(km == ("circular" if kl == "sso" else kl), f"{what}: orbit type changed", sig="type", lead=kl, member=km)
    L, M = elements(lead), elements(member)
    d = {"lead": lead.model_dump(mode="json"), "member": member.model_dump(mode="json"), "dM": dm, "dnode": dn}
    if not c.check(len(L) == len(M), f"{what}: number of element sets changed", sig="sets", **d):
        return
    tle = kl == "tle"
    for a, b in zip(L, M):
        ang = 1.1e-4 if tle else 1e-6
        c.check(abs(a["i"] - b["i"]) < (1.1e-4 if tle else 1e-9 if kl != "sso" else 1e-6), f"{what}: inclination changed", sig="inclination", **d)
        c.check(abs(a["e"] - b["e"]) < 1.1e-7, f"{what}: eccentricity changed", sig="eccentricity", **d)
        c.check(abs(a["n"] - b["n"]) < 2.1e-8, f"{what}: period changed", sig="period", **d)
        c.check(abs(O.angdiff(a["argp"], b["argp"])) < ang, f"{what}: perigee changed", sig="perigee", **d)
        c.check(abs((a["t"] - b["t"]).total_seconds()) < 1.5e-3 if tle else a["t"] == b["t"], f"{what}: epoch changed", sig="epoch", **d)
        c.check(abs(O.angdiff(b["node"], a["node"] + dn)) < (2e-4 if tle else 1e-6), f"{what}: node not moved as prescribed", sig="node", got=O.angdiff(b["node"], a["node"]), **d)
        if tle or a["e"] < 0.3:
            c.check(abs(O.angdiff(b["M"], a["M"] + dm)) < (2e-4 if tle else 1e-6 if a["e"] == 0 else mtol(a["e"])) + 5e-10 * abs(dm), f"{what}: mean anomaly not moved as prescribed",
                    sig="anomaly", got=O.angdiff(b["M"], a["M"]), **d)
        if tle:
            for q in ("bstar", "ndot", "nddot"):
                res = {"bstar": 1e-4 * abs(a[q]) + 1e-9, "ndot": 2.1e-8 * 2 * np.pi / 1440 ** 2, "nddot": 1e-4 * abs(a[q]) + 1e-9 * 2 * np.pi / 1440 ** 3}[q]
                c.check(abs(a[q] - b[q]) <= res, f"{what}: {q} changed", sig=q, got=b[q], want=a[q], **d)
                if a[q]:
                    c.event("dragging")


def post_derived(c, a, o, exc, token):
    if exc is not None:
        return
    lead = a["self"]
    c.event("lead:" + lead.type)
    if lead.type == "tle" and lead.get_tle_count() > 1:
        c.event("multi_tle")
    dm, dn = a["delta_mean_anomaly"], a["delta_raan"]
    if dm < 0 or dn < 0:
        c.event("derived_negative")
    if max(abs(dm), abs(dn)) > 360:
        c.event("derived_multi_turn")
    c.check(lead.model_dump_json() == token, "deriving an orbit changed its source", sig="source")
    compare(c, lead, o, dm, dn, "derived orbit")


def members(c, con, sats, token, T):
    c.check(con.model_dump_json() == token, "generating members changed the constellation", sig="source")
    c.check(len(sats) == T, "wrong number of members", sig="count", got=len(sats), want=T)
    names = [s.name for s in sats]
    w = len(str(T))
    c.check(len(set(names)) == len(names), "member names are not unique", sig="names", names=names[:10])
    for i, s in enumerate(sats):
        c.check(s.name.startswith(con.name) and s.name[len(con.name):].strip() == str(i + 1).zfill(w), "member name is not the zero-padded number", sig="name", name=s.name, n=T)
        c.check(type(s).__name__ == "Satellite" and s.type == "satellite", "member is not a satellite", sig="membertype")
        c.check([x.model_dump_json() for x in s.instruments] == [x.model_dump_json() for x in con.instruments] and [type(x) for x in s.instruments] == [type(x) for x in con.instruments],
                "member instruments differ from the constellation's", sig="instruments")
        others = list(con.instruments) + [x for q in sats[:i][:3] for x in q.instruments]
        c.check(not any(x is y for x in s.instruments for y in others) and s.instruments is not con.instruments, "member shares an instrument object", sig="shared")


def post_walker(c, a, sats, exc, token):
    con = a["self"]
    if exc is not None:
        return
    T, P, F = con.number_satellites, con.number_planes, con.relative_spacing
    star = str(getattr(con.configuration, "value", con.configuration)) == "star"
    c.event("walker_star" if star else "walker_delta")
    S = -(-T // P)
    if T % P:
        c.event("uneven_planes")
    members(c, con, sats, token, T)
    for i, s in enumerate(sats):
        plane, slot = divmod(i, S)
        compare(c, con.orbit, s.orbit, slot * 360 / S + plane * 360 * F / T, plane * (180 if star else 360) / P, "walker member")
    c.state(T, P, F, star)


def post_train(c, a, sats, exc, token):
    con = a["self"]
    if exc is not None:
        return
    T = con.number_satellites
    c.event("train_repeat" if con.repeat_ground_track else "train_fixed_plane")
    members(c, con, sats, token, T)
    day = con.interval.total_seconds() / 86400
    n = elements(con.orbit)[0]["n"]
    for i, s in enumerate(sats):
        compare(c, con.orbit, s.orbit, -360 * n * day * i, (360 * day * i if con.repeat_ground_track else 0.0), "train member")
    # the members really follow the lead
    if con.orbit.type != "tle" or con.orbit.get_tle_count() == 1:
        el = elements(con.orbit)[0]
        if el["e"] > 0.05 or el["n"] < 3:
            return
        lead = con.orbit.to_tle().tle
        for i in sorted({1, T - 1} & set(range(T))):
            lag = con.interval.total_seconds() * i
            if abs(lag) > 6 * 3600:
                continue
            t0 = O.ts_at(el["t"], np.array([0.0, 700.0, 1500.0]))
            t1 = O.ts_at(el["t"], np.array([0.0, 700.0, 1500.0]) + lag)
            f = O.state_ecef if con.repeat_ground_track else O.state_eci
            p0, p1 = f(lead, t0)[0], f(sats[i].orbit.to_tle().tle, t1)[0]
            u0, u1 = p0 / np.linalg.norm(p0, axis=0), p1 / np.linalg.norm(p1, axis=0)
            ang = np.degrees(np.arccos(np.clip((u0 * u1).sum(axis=0), -1, 1))).max()
            c.event("followed")
            c.check(ang < 0.3 + abs(lag) / 86400 * 20 + 20 * el["e"] * 0.1, "a train member does not follow the lead" + (" over its ground track" if con.repeat_ground_track else ""),
                    sig="follow", ang=ang, lag=lag, orbit=con.orbit.model_dump(mode="json"))
    c.state("train", T, con.repeat_ground_track, con.orbit.type)


def run(case, c):
    from tatc.schemas import TrainConstellation, WalkerConstellation
    d = case
    if d["what"] == "derive":
        W.build_orbit(d["orbit"]).get_derived_orbit(d["dm"], d["dn"])
        return
    kw = {k: v for k, v in d["con"].items()}
    kw["orbit"] = W.build_orbit(d["orbit"])
    kw["instruments"] = [W.build_instrument(x) for x in d["instruments"]]
    cls = WalkerConstellation
    if d["what"] == "train":
        cls = TrainConstellation
        kw["interval"] = timedelta(seconds=kw["interval"])
    if d.get("reject"):
        try:
            cls(**kw)
        except ValidationError:
            c.event("rejected")
            c.check(True, "")
            return
        c.fail("an impossible constellation is accepted", sig="accepted", con=d["con"])
        return
    con = cls(**kw)
    con.generate_members()
    if d.get("twice"):
        con.generate_members()
        if d["what"] == "walker" and con.number_satellites < 20:
            con.number_satellites = con.number_satellites + 1
            con.generate_members()


def gen_lead(rng):
    u = rng.random()
    if u < 0.75:
        o = W.gen_orbit(rng, max_e=0.02 if rng.random() < 0.6 else 0.25)
        if o["type"] == "keplerian" and o["altitude"] < 400e3:
            o["altitude"] = 800e3
        return o
    # element sets with drag terms, several sets
    k = int(rng.integers(1, 4))
    ep = W.gen_epoch(rng)
    lines = []
    for j in range(k):
        s = lambda: str(rng.choice([" ", "-"]))
        lines += W.tle_text(ep + timedelta(hours=7 * j), W.r(rng.uniform(0, 179), 4), W.r(rng.uniform(0, 359.9), 4), W.r(rng.uniform(0, 0.3), 7), W.r(rng.uniform(0, 359.9), 4),
                            W.r(rng.uniform(0, 359.9), 4), W.r(rng.uniform(2, 14), 8), bstar=f"{s()}{int(rng.integers(10000, 99999))}-{int(rng.integers(3, 7))}",
                            ndot=f"{s()}.000{int(rng.integers(0, 10**5)):05d}", nddot=" 00000-0" if rng.random() < 0.5 else f"{s()}{int(rng.integers(10000, 99999))}-{int(rng.integers(5, 8))}",
                            intl="98067A  ")
    return {"type": "tle", "tle": lines}


def offset(rng):
    u = rng.random()
    if u < 0.3:
        return float(rng.choice([0.0, 90.0, -90.0, 180.0, 359.9999, 360.0, -360.0, 720.0, -1e-9, 1e-9, -1e-14]))
    return W.r(rng.uniform(-360, 360), 4) if u < 0.7 else W.r(rng.uniform(-5000, 5000), 4)


def gen(rng, i):
    u = rng.random()
    if u < 0.3:
        v = rng.random()
        if v < 0.75:
            o = gen_lead(rng)
        else:
            k = str(rng.choice(["molniya", "tundra"]))
            o = {"type": k, "altitude": W.r(rng.uniform(300e3, 3e6) if rng.random() < 0.5 else rng.uniform(1.5e7, 2e7), 1), "epoch": W.gen_epoch(rng).isoformat(), "inclination": W.r(rng.uniform(0, 179), 3),
                 "right_ascension_ascending_node": W.r(rng.uniform(0, 359.9), 3), "perigee_argument": W.r(rng.uniform(0, 359.9), 3), "true_anomaly": W.r(rng.uniform(0, 359.9), 3)}
            o["orbital_period"] = W.r(rng.uniform(43000, 44000) if k == "molniya" else rng.uniform(80000, 90000), 2)
            if k == "tundra":
                o["eccentricity"] = W.r(rng.uniform(0, 0.4), 4)
        if o.get("true_anomaly") is not None and rng.random() < 0.1:
            o["true_anomaly"] = 0.0
        return {"kind": "derive", "what": "derive", "orbit": o, "dm": offset(rng), "dn": offset(rng)}
    ins = [W.gen_instrument(rng, pointed=bool(rng.random() < 0.4)) for _ in range(int(rng.integers(1, 3)))]
    name = str(rng.choice(["A", "Con 1", "Séntinel-9", "x" * 20]))
    if u < 0.65:
        T = int(rng.integers(1, 25)) if rng.random() < 0.85 else int(rng.choice([9, 10, 11, 99, 100, 101]))
        P = int(rng.integers(1, T + 1)) if rng.random() < 0.5 else int(rng.choice([p for p in range(1, T + 1) if T % p == 0]))
        F = int(rng.integers(0, P))
        con = {"name": name, "configuration": str(rng.choice(["delta", "star"])), "number_satellites": T, "number_planes": P, "relative_spacing": F}
        case = {"kind": "walker", "what": "walker", "con": con, "orbit": gen_lead(rng), "instruments": ins, "twice": bool(rng.random() < 0.2)}
        if rng.random() < 0.15:
            f, v = [("number_planes", T + 1), ("relative_spacing", P), ("relative_spacing", P + 3), ("relative_spacing", -1), ("number_planes", 0), ("number_satellites", 0),
                    ("number_satellites", P - 1), ("configuration", "ring"), ("number_planes", 1.5)][int(rng.integers(0, 9))]
            con[f] = v
            case["reject"] = True
        return case
    T = int(rng.integers(1, 8)) if rng.random() < 0.85 else int(rng.choice([9, 10, 12, 100]))
    con = {"name": name, "number_satellites": T, "interval": W.r(rng.uniform(-1800, 5400) if rng.random() < 0.7 else rng.choice([0.0, 60.0, 900.0, 86400.0, 40000.5]), 3), "repeat_ground_track": bool(rng.random() < 0.6)}
    case = {"kind": "train", "what": "train", "con": con, "orbit": gen_lead(rng), "instruments": ins, "twice": bool(rng.random() < 0.2)}
    if rng.random() < 0.08:
        con["number_satellites"] = int(rng.choice([0, -1]))
        case["reject"] = True
    return case


def fixed_cases():
    e = W.EPOCH.isoformat()
    o = {"type": "circular", "altitude": 600e3, "inclination": 51.6, "epoch": e}
    return [{"what": "walker", "con": {"name": "W", "number_satellites": t, "number_planes": p, "relative_spacing": f, "configuration": k}, "orbit": o, "instruments": [{"name": "I", "field_of_regard": 60.0}]}
            for t, p, f, k in ((24, 3, 2, "delta"), (66, 6, 2, "star"), (5, 4, 3, "delta"), (7, 7, 6, "star"), (1, 1, 0, "delta"))]

"""Workload ingredients shared by the checks: JSON descriptions of orbits,
instruments, points and periods, and the tatc objects built from them."""
from datetime import datetime, timedelta, timezone

import numpy as np

UTC = timezone.utc
EPOCH = datetime(2024, 3, 1, 12, tzinfo=UTC)

ISS = [
    "1 25544U 98067A   21156.30527927  .00003432  00000-0  70541-4 0  9993",
    "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754",
]


def r(x, n=6):
    return round(float(x), n)


def gen_epoch(rng, wide=True):
    if wide and rng.random() < 0.3:
        base = datetime(int(rng.integers(2001, 2040)), 1, 1, tzinfo=UTC)
        return base + timedelta(seconds=int(rng.integers(0, 365 * 86400)))
    return EPOCH + timedelta(seconds=int(rng.integers(0, 200 * 86400)))


def checksum(line):
    return str(sum(int(c) if c.isdigit() else (c == "-") for c in line[:68]) % 10)


def tle_text(epoch, inc, raan, ecc, argp, ma, mm, bstar=" 00000+0", ndot=" .00000000", nddot=" 00000+0",
             sat="25544", cls="U", intl="98067A  ", elset=" 999", rev="12345", etype="0"):
    """Formats a TLE line pair directly (column layout), independently of tatc/sgp4."""
    day = (epoch - datetime(epoch.year, 1, 1, tzinfo=UTC)) / timedelta(days=1) + 1
    l1 = (f"1 {sat:>5}{cls} {intl:<8} {epoch.year % 100:02d}{day:012.8f} {ndot} {nddot} {bstar} {etype} {elset}")
    l2 = (f"2 {sat:>5} {inc:8.4f} {raan:8.4f} {int(round(ecc * 1e7)):07d} {argp:8.4f} {ma:8.4f} {mm:11.8f}{rev}")
    l1 = l1[:68] + checksum(l1)
    l2 = l2[:68] + checksum(l2)
    return [l1, l2]


def mean_motion(alt):
    a = 6371008.7714 + alt
    return 86400 / (2 * np.pi * np.sqrt(a ** 3 / 3.986004418e14))


def gen_orbit(rng, kinds=("circular", "circular", "keplerian", "sso", "tle"), alt=None, epoch=None, max_e=0.02):
    k = str(rng.choice(list(kinds)))
    epoch = epoch or gen_epoch(rng)
    if alt is None:
        u = rng.random()
        if u < 0.8:
            a = rng.uniform(350e3, 1600e3)
        elif u < 0.95:
            a = rng.uniform(1600e3, 8000e3)
        else:
            a = rng.uniform(8000e3, 20200e3)
    else:
        a = rng.uniform(*alt)
    u = rng.random()
    inc = (rng.uniform(0, 179.5) if u < 0.5 else rng.uniform(80, 100) if u < 0.8 else
           float(rng.choice([0.0, 0.5, 28.5, 51.6, 90.0, 97.9, 120.0, 179.0])))
    o = {"type": k, "altitude": r(a, 1), "epoch": epoch.isoformat(), "true_anomaly": r(rng.uniform(0, 359.99), 3)}
    if k == "sso":
        o["altitude"] = r(rng.uniform(350e3, 1600e3), 1)
        o["equator_crossing_time"] = f"{int(rng.integers(0, 24)):02d}:{int(rng.integers(0, 60)):02d}:{int(rng.integers(0, 60)):02d}"
        o["equator_crossing_ascending"] = bool(rng.random() < 0.5)
        return o
    o["inclination"] = r(inc, 3)
    o["right_ascension_ascending_node"] = r(rng.uniform(0, 359.99), 3)
    if k == "keplerian":
        o["eccentricity"] = r(rng.uniform(0, max_e), 4)
        o["perigee_argument"] = r(rng.uniform(0, 359.99), 3)
        # keep perigee above 300 km
        amin = (6371e3 + 300e3) / (1 - o["eccentricity"]) - 6371e3
        o["altitude"] = r(max(o["altitude"], amin), 1)
    if k == "tle":
        e = rng.uniform(0, min(max_e, 0.01))
        a = max(o["altitude"], (6371e3 + 300e3) / (1 - e) - 6371e3)
        return {"type": "tle", "tle": tle_text(
            epoch, inc, o["right_ascension_ascending_node"], e, r(rng.uniform(0, 359.9), 4),
            r(rng.uniform(0, 359.9), 4), mean_motion(a),
            bstar=" 12345-4" if (rng.random() < 0.3 and a < 1500e3) else " 00000+0")}
    return o


def build_orbit(d):
    from tatc.schemas import CircularOrbit, KeplerianOrbit, MolniyaOrbit, SunSynchronousOrbit, TundraOrbit, TwoLineElements
    cls = {"circular": CircularOrbit, "keplerian": KeplerianOrbit, "sso": SunSynchronousOrbit,
           "tle": TwoLineElements, "molniya": MolniyaOrbit, "tundra": TundraOrbit}[d["type"]]
    return cls(**d)


def orbit_epoch(d):
    if d["type"] == "tle":
        from sgp4.api import Satrec
        from sgp4.conveniences import sat_epoch_datetime
        return sat_epoch_datetime(Satrec.twoline2rv(d["tle"][0], d["tle"][1]))
    return datetime.fromisoformat(d["epoch"])


def gen_instrument(rng, pointed=False, solar=0.25, fors=None):
    f = float(rng.choice(fors)) if fors else (
        r(rng.uniform(2, 175), 2) if rng.random() < 0.75 else float(rng.choice([180.0, 180.0, 200.0, 360.0, 5.0])))
    d = {"name": f"Instr {int(rng.integers(0, 1000))}", "field_of_regard": f}
    if rng.random() < solar:
        d["req_self_sunlit"] = [None, True, False][int(rng.integers(0, 3))]
        d["req_target_sunlit"] = [None, True, False][int(rng.integers(0, 3))]
    if pointed:
        roll = r(rng.uniform(-35, 35), 2) if rng.random() < 0.7 else 0.0
        pitch = r(rng.uniform(-35, 35), 2) if rng.random() < 0.5 else 0.0
        d.update(
            cross_track_field_of_view=r(rng.uniform(1, 60), 2),
            along_track_field_of_view=r(rng.uniform(1, 60), 2),
            roll_angle=roll, pitch_angle=pitch, is_rectangular=bool(rng.random() < 0.5),
        )
        d["field_of_regard"] = r(min(180.0, 2 * (np.hypot(roll, pitch) + max(d["cross_track_field_of_view"], d["along_track_field_of_view"]))), 2)
    return d


def build_instrument(d):
    from tatc.schemas import Instrument, PointedInstrument
    d = dict(d)
    if "min_access_s" in d:
        d["min_access_time"] = timedelta(seconds=d.pop("min_access_s"))
    if "cross_track_field_of_view" in d:
        return PointedInstrument(**d)
    return Instrument(**d)


def gen_place(rng):
    u = rng.random()
    lat = (np.degrees(np.arcsin(rng.uniform(-1, 1))) if u < 0.7 else
           rng.uniform(60, 90) * rng.choice([-1, 1]) if u < 0.85 else float(rng.choice([0.0, 90.0, -90.0, 45.0, -33.3])))
    lon = rng.uniform(-180, 180) if rng.random() < 0.8 else float(rng.choice([180.0, -180.0, 0.0, 179.99, -179.99]))
    h = 0.0 if rng.random() < 0.5 else r(rng.uniform(-400, 5000), 1)
    return {"latitude": r(lat, 4), "longitude": r(lon, 4), "elevation": h}


def build_satellite(name, orbit, instruments):
    from tatc.schemas import Satellite
    return Satellite(name=name, orbit=build_orbit(orbit), instruments=[build_instrument(i) for i in instruments])

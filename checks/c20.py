"""C20: mutual orbiting groups and streets of coverage have the designed geometry."""
import numpy as np
from pydantic import ValidationError

from checks.c18 import mean_from_true
from checks import c19
from vp import core, oracle as O, work as W

PROPERTY = "C20"
RULE = "a case counts when the relative motion of every member over one revolution, or the plane and satellite counts, were compared with the design"
CASES = {"quick": 4000, "thorough": 40000}
REQUIRED_EVENTS = ["call:generate_members", "call:generate_walker", "mog_clockwise", "mog_counterclockwise", "mog_members", "soc", "soc_members", "rejected", "equatorial", "retrograde", "offset_reference"]
ASSUMPTIONS = ["relative motion from two-body orbits through the members' elements", "axes up to 300 km (first-order theory)", "street counts within 1e-6 of a whole number are not judged"]


def install():
    core.hook("tatc.schemas.satellite.MOGConstellation.generate_members", post_mog, pre=c19.snap)
    core.hook("tatc.schemas.satellite.SOCConstellation.generate_walker", post_soc, pre=c19.snap)
    core.hook("tatc.schemas.satellite.SOCConstellation.generate_members", post_soc_members)


def kepler_state(o, dM):
    """Two-body positions after mean motion through the angles dM (deg)."""
    e = getattr(o, "eccentricity", 0.0)
    a = O.R_MEAN + o.altitude
    M = np.radians(mean_from_true(o.true_anomaly, e) + dM)
    E = M.copy()
    for _ in range(60):
        E = M + e * np.sin(E)
    nu = 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))
    th = nu + np.radians(getattr(o, "perigee_argument", 0.0))
    r = a * (1 - e * np.cos(E))
    N, i = np.radians(o.right_ascension_ascending_node), np.radians(o.inclination)
    return r * np.array([np.cos(N) * np.cos(th) - np.sin(N) * np.sin(th) * np.cos(i), np.sin(N) * np.cos(th) + np.cos(N) * np.sin(th) * np.cos(i), np.sin(th) * np.sin(i)])


def post_mog(c, args, sats, exc, token):
    con = args["self"]
    if exc is not None:
        return
    n = con.number_satellites
    c19.members(c, con, sats, token, n)
    ref = con.orbit
    c.event("mog_clockwise" if con.clockwise else "mog_counterclockwise")
    if ref.inclination == 0:
        c.event("equatorial")
    if ref.inclination > 90:
        c.event("retrograde")
    if ref.true_anomaly:
        c.event("offset_reference")
    dM = np.arange(0, 360, 5.0)
    p = kepler_state(ref, dM)
    R = p / np.linalg.norm(p, axis=0)
    q = kepler_state(ref, dM + 0.01)
    h = np.cross(p.T, q.T).T
    H = h / np.linalg.norm(h, axis=0)  # orbit normal
    V = np.cross(H.T, R.T).T           # direction of motion
    a = O.R_MEAN + ref.altitude
    par, tra = con.parallel_axis, con.transverse_axis
    big = max(par, tra)
    tol = 0.01 * big + 2 * big * big / a + 0.5
    phases = []
    d = {"con": con.model_dump(mode="json", exclude={"instruments"})}
    for k, s in enumerate(sats):
        c.event("mog_members")
        o = s.orbit
        c.check(abs(o.altitude - ref.altitude) < 1e-6 and o.epoch == ref.epoch, "member not at the reference altitude and epoch", sig="mog-altitude", **d)
        rel = kepler_state(o, dM) - p
        x, y, z = ((rel * u).sum(axis=0) for u in (V, H, R))
        # right-hand side of the track seen from above is -normal
        c.check(abs((x.max() - x.min()) - par) < tol, "along-track extent is not the parallel axis", sig="mog-parallel", got=x.max() - x.min(), k=k, **d)
        c.check(abs((y.max() - y.min()) - tra) < tol, "cross-track extent is not the transverse axis", sig="mog-transverse", got=y.max() - y.min(), k=k, **d)
        c.check(abs(x.max() + x.min()) < 2 * tol and abs(y.max() + y.min()) < 2 * tol and abs(z.max() + z.min()) < 2 * tol, "mutual orbit is not centred on the reference satellite", sig="mog-centre", k=k, **d)
        c.check(abs((z.max() - z.min()) - par / 2) < tol, "radial extent is not half the parallel axis", sig="mog-radial", got=z.max() - z.min(), k=k, **d)
        if tol > 0.2 * min(par, tra):
            phases.append(None)
            continue
        ph = np.unwrap(np.arctan2(-y / tra, x / par))  # clockwise-positive from straight ahead, seen from above
        turn = np.degrees(ph[-1] - ph[0]) * 72 / 71
        want = 360 if con.clockwise else -360
        c.check(abs(turn - want) < 15, "mutual orbit not traversed once per revolution in the requested sense", sig="mog-sense", turn=turn, **d)
        phases.append(np.degrees(ph))
    if phases and all(q is not None for q in phases):
        lim = np.degrees(2.5 * tol / min(par, tra)) + 0.1
        base = phases[0]
        step = [O.angdiff(q, base).mean() if False else np.degrees(np.angle(np.exp(1j * np.radians(q - base)).mean())) for q in phases]
        want = 360 / n * np.arange(n)
        fwd = max(abs(O.angdiff(s_, w_)) for s_, w_ in zip(step, want))
        back = max(abs(O.angdiff(s_, -w_)) for s_, w_ in zip(step, want))
        c.check(min(fwd, back) < lim, "members are not equally spaced in phase", sig="mog-spacing", steps=step, **d)
    c.state("mog", n, con.clockwise, int(ref.inclination // 30), int(np.log10(par)), int(np.log10(tra)))


def counts(con):
    g = con.swath_width / (2 * O.R_MEAN)
    s = con.packing_distance * np.sin(g)
    return 2 * np.pi / (2 * np.arcsin(s)), 2 * np.pi / (2 * np.arcsin(np.sqrt(3) / 2 * s))


def post_soc(c, args, w, exc, token):
    con = args["self"]
    if exc is not None:
        return
    c.event("soc")
    S, P = counts(con)
    d = {"con": con.model_dump(mode="json", exclude={"instruments"}), "S": S, "P": P}
    c.check(con.model_dump_json() == token, "constellation changed", sig="source")
    if min(abs(S - round(S)), abs(P - round(P))) > 1e-6 * max(S, P):
        c.check(w.number_planes == int(np.ceil(P)), "not the fewest planes that close the ring", sig="soc-planes", got=w.number_planes, **d)
        c.check(w.number_satellites == int(np.ceil(P)) * int(np.ceil(S)), "not the fewest satellites per plane that close the ring", sig="soc-sats", got=w.number_satellites, **d)
    c.check(w.get_satellites_per_plane() * w.number_planes == w.number_satellites, "planes are not equally filled", sig="soc-equal", **d)
    c.check(w.type == "walker" and str(getattr(w.configuration, "value", w.configuration)) == "delta" and w.relative_spacing == 0, "not a Walker delta pattern without phasing", sig="soc-pattern", **d)
    c.check(w.orbit.model_dump_json() == con.orbit.model_dump_json() and type(w.orbit) is type(con.orbit) and w.name == con.name, "orbit or name not kept", sig="soc-orbit", **d)
    c.check([x.model_dump_json() for x in w.instruments] == [x.model_dump_json() for x in con.instruments] and [type(x) for x in w.instruments] == [type(x) for x in con.instruments], "instruments not kept", sig="soc-instruments", **d)
    c.state("soc", int(np.ceil(S)) // 10, int(np.ceil(P)) // 10)


def post_soc_members(c, args, sats, exc, token):
    con = args["self"]
    if exc is not None:
        return
    S, P = counts(con)
    if min(abs(S - round(S)), abs(P - round(P))) < 1e-6 * max(S, P):
        return
    c.event("soc_members")
    S, P = int(np.ceil(S)), int(np.ceil(P))
    c19.members(c, con, sats, con.model_dump_json(), S * P)
    for i, s in enumerate(sats):
        pl, sl = divmod(i, S)
        c19.compare(c, con.orbit, s.orbit, sl * 360 / S, pl * 360 / P, "street member")


def run(case, c):
    from tatc.schemas import MOGConstellation, SOCConstellation
    kw = dict(case["con"])
    kw["orbit"] = W.build_orbit(case["orbit"])
    kw["instruments"] = [W.build_instrument(x) for x in case["instruments"]]
    cls = MOGConstellation if case["what"] == "mog" else SOCConstellation
    if case.get("reject"):
        try:
            cls(**kw)
        except ValidationError:
            c.event("rejected")
            c.check(True, "")
            return
        c.fail("an impossible constellation is accepted", sig="accepted", con=case["con"])
        return
    con = cls(**kw)
    if case["what"] == "mog":
        con.generate_members()
    else:
        S, P = counts(con)
        if np.ceil(S) * np.ceil(P) < 400:
            con.generate_members()
        else:
            con.generate_walker()


def gen(rng, i):
    o = W.gen_orbit(rng, kinds=("circular",))
    ins = [W.gen_instrument(rng, pointed=bool(rng.random() < 0.4)) for _ in range(int(rng.integers(1, 3)))]
    if rng.random() < 0.15:
        o["inclination"] = 0.0
    if rng.random() < 0.15:
        o["true_anomaly"] = 0.0
    if rng.random() < 0.6:
        par = W.r(10 ** rng.uniform(2.5, 5.45), 1)
        tra = W.r(par * 10 ** rng.uniform(-0.5, 0.5), 1) if rng.random() < 0.8 else W.r(10 ** rng.uniform(2.5, 5.45), 1)
        tra = min(tra, 3e5)
        con = {"name": "Mog", "parallel_axis": par, "transverse_axis": tra, "clockwise": bool(rng.random() < 0.5), "number_satellites": int(rng.integers(1, 12))}
        case = {"kind": "mog", "what": "mog", "orbit": o, "instruments": ins, "con": con}
        if rng.random() < 0.1:
            f, v = [("parallel_axis", 0), ("transverse_axis", -5.0), ("number_satellites", 0), ("transverse_axis", 0.0), ("parallel_axis", -1)][int(rng.integers(0, 5))]
            con[f] = v
            case["reject"] = True
        return case
    a = O.R_MEAN + o["altitude"]
    lim = 2 * O.R_MEAN * np.arccos(O.R_MEAN / a)
    con = {"name": "Soc", "swath_width": W.r(rng.uniform(0.02, 0.98) * lim, 1), "packing_distance": W.r(rng.uniform(0.05, 1), 3) if rng.random() < 0.8 else 1.0}
    case = {"kind": "soc", "what": "soc", "orbit": o, "instruments": ins, "con": con}
    if rng.random() < 0.1:
        f, v = [("swath_width", 0), ("swath_width", -1e5), ("packing_distance", 0), ("packing_distance", 1.01), ("packing_distance", -0.5)][int(rng.integers(0, 5))]
        con[f] = v
        case["reject"] = True
    return case


def fixed_cases():
    return []

"""C23: sensor-geometry conversions are exact on the sphere and mutually inverse."""
import numpy as np

from vp import core, oracle as O, work as W

PROPERTY = "C23"
RULE = "a case counts when all conversions at one altitude, target elevation and set of angles and widths were compared with the viewing triangle and with each other"
CASES = {"quick": 16000, "thorough": 400000}
REQUIRED_EVENTS = ["inside_disc", "beyond_disc", "beyond_180", "at_horizon", "raised_target", "off_nadir", "instrument", "pointed_instrument", "wide", "narrow"]
ASSUMPTIONS = ["swaths reaching past the horizon are not judged", "angles within 1e-6 of the horizon compared at the square-root precision of the geometry there"]


def install():
    pass


def run(case, c):
    from tatc import utils as U
    from tatc.schemas import Instrument, PointedInstrument
    h, z = case["altitude"], case["elevation"]
    Rs, Re = O.R_MEAN + h, O.R_MEAN + z
    rho = np.arcsin(Re / Rs)
    lmax = np.pi / 2 - rho
    if z:
        c.event("raised_target")
    kw = {"elevation": z} if z else {}

    def near(name, got, want, tol, **d):
        c.check(np.isfinite(got) and abs(got - want) <= tol, f"{name} differs from the viewing triangle", sig=name, got=got, want=want, case=case, **d)

    def lam_of_eta(eta):
        if eta >= rho:
            return lmax
        return np.arcsin(min(1.0, Rs * np.sin(eta) / Re)) - eta

    def eta_of_lam(lam):
        return np.arctan2(Re * np.sin(lam), Rs - Re * np.cos(lam))

    prev_s = prev_e = None
    for F in sorted(case["fors"]):
        eta = min(np.radians(F) / 2, np.pi / 2)
        lam = lam_of_eta(eta)
        edge = abs(eta - rho)
        tol = 1e-9 if edge > 1e-3 else 1e-7
        tol = tol + (1e-7 if edge < 1e-6 else 0)
        near("swath width", U.field_of_regard_to_swath_width(h, F, **kw), 2 * Re * lam, 2 * Re * (tol + 1e-10) + (2 * Re * 2e-7 if edge < 1e-6 else 0), F=F)
        c.event("inside_disc" if eta < rho else "beyond_disc")
        if F > 180:
            c.event("beyond_180")
        eps = np.pi / 2 - eta - lam if eta < rho else 0.0
        near("minimum elevation", U.compute_min_elevation_angle(h, F, **kw), np.degrees(eps), np.degrees(tol) + (2e-5 if edge < 1e-6 else 1e-9), F=F)
        s, e = U.field_of_regard_to_swath_width(h, F, **kw), U.compute_min_elevation_angle(h, F, **kw)
        if prev_s is not None:
            c.check(s >= prev_s - 1e-6 and e <= prev_e + 1e-9, "wider fields of regard do not see more", sig="monotone", F=F, case=case)
        prev_s, prev_e = s, e
        # and back
        back = U.swath_width_to_field_of_regard(h, s, **kw)
        near("field of regard (from swath)", back, np.degrees(2 * min(eta, rho)), 1e-6 if edge > 1e-3 else 1e-3, F=F)
        back = U.compute_field_of_regard(h, e, **kw)
        near("field of regard (from elevation)", back, np.degrees(2 * min(eta, rho)), 1e-6, F=F)
        if z == 0:
            c.event("instrument")
            i = Instrument(name="I", field_of_regard=F)
            c.check(abs(i.get_swath_width(h) - s) < 1e-6 and abs(i.get_min_elevation_angle(h) - e) < 1e-9, "instrument helpers differ", sig="instrument", F=F, case=case)
            p = case["pointed"]
            q = PointedInstrument(name="P", field_of_regard=F, **p)
            c.event("pointed_instrument")
            c.check(abs(q.get_swath_width(h) - s) < 1e-6 and abs(q.get_min_elevation_angle(h) - e) < 1e-9, "pointed instrument helpers differ", sig="pointed", F=F, case=case)
            for k in ("cross", "along"):
                want = p[f"{k}_track_field_of_view"] / p[f"{k}_track_pixels"] / (1 - p[f"{k}_track_oversampling"])
                got = getattr(q, f"get_{k}_track_instantaneous_field_of_view")()
                c.check(abs(got - want) < 1e-9 * want, "pixel field of view", sig="ifov", got=got, want=want, case=case)
    for el in case["elevs"]:
        near("field of regard", U.compute_field_of_regard(h, el, **kw), np.degrees(2 * np.arcsin(Re / Rs * np.cos(np.radians(el)))), 1e-9, el=el)
        if el == 0:
            c.event("at_horizon")
        near("elevation (round trip)", U.compute_min_elevation_angle(h, U.compute_field_of_regard(h, el, **kw), **kw), el, 1e-6 if el > 0.01 else 2e-5, el=el)
    prev = None
    for f in sorted(case["widths"]):
        lam = f * lmax
        F = U.swath_width_to_field_of_regard(h, 2 * Re * lam, **kw)
        near("field of regard of a swath", F, np.degrees(2 * eta_of_lam(lam)), 1e-9, f=f)
        c.event("wide" if f > 0.8 else "narrow" if f < 0.05 else "mid")
        near("swath (round trip)", U.field_of_regard_to_swath_width(h, F, **kw), 2 * Re * lam, Re * (1e-8 if f < 0.999 else 1e-5), f=f)
        if prev is not None:
            c.check(F >= prev - 1e-12, "wider swaths do not need wider fields of regard", sig="monotone2", case=case)
        prev = F
        v0 = U.swath_width_to_field_of_view(h, 2 * Re * lam, 0.0, z) if z else U.swath_width_to_field_of_view(h, 2 * Re * lam)
        near("field of view at nadir", v0, F, 1e-8, f=f)
        for g in case["looks"]:
            lc = g * lmax
            look = eta_of_lam(lc)
            half = lam * (1 - abs(g)) * 0.999
            want = np.degrees(eta_of_lam(lc + half) - eta_of_lam(lc - half))
            got = U.swath_width_to_field_of_view(h, 2 * Re * half, np.degrees(look), z)
            near("field of view off nadir", got, want, 1e-6 if abs(g) < 0.999 else 1e-3, f=f, g=g)
            if abs(g) > 0.01:
                c.event("off_nadir")
    c.state(int(np.log10(h) * 4), z > 0, z < 0)


def gen(rng, i):
    h = W.r(10 ** rng.uniform(5.2, 7.7), 1) if rng.random() < 0.9 else float(rng.choice([150e3, 35786e3, 50000e3]))
    z = 0.0 if rng.random() < 0.5 else W.r(rng.uniform(-400, 9000), 1) if rng.random() < 0.8 else W.r(rng.uniform(9000, 100e3), 1)
    rho2 = np.degrees(2 * np.arcsin((O.R_MEAN + z) / (O.R_MEAN + h)))
    fors = [W.r(rng.uniform(0.01, 360), 4) for _ in range(3)] + [W.r(rng.uniform(0.01, rho2), 4) for _ in range(3)] + [float(rng.choice([180.0, 360.0, 179.999, 200.0, 0.001]))]
    if rng.random() < 0.2:
        fors.append(float(min(360, rho2 + rng.choice([-1e-3, 1e-3, -0.1, 0.1]))))
    return {"kind": "random", "altitude": h, "elevation": z, "fors": fors, "elevs": [W.r(rng.uniform(0, 90), 4), float(rng.choice([0.0, 90.0, 89.9, 0.5])), W.r(rng.uniform(0, 20), 4)],
            "widths": [W.r(x, 6) for x in rng.uniform(1e-4, 0.9999, 3)], "looks": [W.r(rng.uniform(-0.98, 0.98), 4), W.r(rng.uniform(0, 0.98), 4)],
            "pointed": {"cross_track_field_of_view": W.r(rng.uniform(0.1, 180), 3), "along_track_field_of_view": W.r(rng.uniform(0.1, 180), 3), "roll_angle": W.r(rng.uniform(-60, 60), 2), "pitch_angle": W.r(rng.uniform(-60, 60), 2),
                        "cross_track_pixels": int(rng.integers(1, 100)), "along_track_pixels": int(rng.integers(1, 100)),
                        "cross_track_oversampling": W.r(rng.uniform(0, 0.9), 3), "along_track_oversampling": W.r(rng.uniform(0, 0.9), 3)}}


def fixed_cases():
    return []


def warmup():
    from tatc import utils as U
    U.field_of_regard_to_swath_width(5e5, 60.0); U.compute_min_elevation_angle(5e5, 60.0); U.swath_width_to_field_of_regard(5e5, 1e5)
    U.compute_field_of_regard(5e5, 10.0); U.swath_width_to_field_of_view(5e5, 1e5, 10.0, 0.0)

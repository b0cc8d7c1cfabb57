"""C26: mission descriptions survive saving and loading, and bad ones are rejected."""
import copy
import json
import pickle
from datetime import datetime, time, timedelta, timezone

import numpy as np

from vp import core, work as W

PROPERTY = "C26"
RULE = "a case counts when one description was built, saved and reloaded in every form and compared with what it was built from, or one invalid description was submitted and its rejection observed"
CASES = {"quick": 5000, "thorough": 200000}
MODELS = ["Point", "GroundStation", "Instrument", "PointedInstrument", "TwoLineElements", "CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit", "MolniyaOrbit", "TundraOrbit",
          "Satellite", "TrainConstellation", "WalkerConstellation", "MOGConstellation", "SOCConstellation", "Architecture"]
REQUIRED_EVENTS = ["round_trip:" + m for m in MODELS] + ["invalid:" + m for m in MODELS] + ["cached", "members", "boundary_accepted", "out_of_range", "missing", "wrong_kind", "nested_invalid", "from_json_text", "cross_field", "defaults"]
ASSUMPTIONS = ["orbits of constellations are of the documented kinds (mutual orbiting groups and streets of coverage take plain circular orbits)", "values given as the documented kinds or their JSON forms"]

UTC = timezone.utc
R = (2 * 6378137.0 + 6356752.314245179) / 3
REQ = object()
# field: (default or REQ, kind, low, low inclusive, high, high inclusive)
ANG = lambda d: (d, "float", 0, True, 360, False)
ORB = {"altitude": (REQ, "float", None, None, None, None), "true_anomaly": ANG(0), "epoch": ("epoch", "datetime", None, None, None, None)}
INC = lambda d: (d, "float", 0, True, 180, False)
GEO = {"latitude": (REQ, "float", -90, True, 90, True), "longitude": (REQ, "float", -180, True, 180, True), "elevation": (0, "float", None, None, None, None)}
INS = {"name": ("Default", "str", None, None, None, None), "field_of_regard": (180, "float", 0, False, 360, True), "min_access_time": (timedelta(0), "timedelta", None, None, None, None),
       "req_self_sunlit": (None, "optbool", None, None, None, None), "req_target_sunlit": (None, "optbool", None, None, None, None), "access_time_fixed": (False, "bool", None, None, None, None)}
SYS = {"name": (REQ, "str", None, None, None, None), "orbit": (REQ, "orbit", None, None, None, None), "instruments": ("instruments", "instruments", None, None, None, None)}
MOL = dict(ORB, inclination=INC(0), right_ascension_ascending_node=ANG(0), orbital_period=(43080, "float", 0, False, None, None), perigee_argument=ANG(0))
SPEC = {
    "Point": dict(GEO, id=(REQ, "int", 0, True, None, None)),
    "GroundStation": dict(GEO, name=(REQ, "str", None, None, None, None), min_elevation_angle=(0, "float", 0, True, 90, True), min_access_time=(timedelta(0), "timedelta", None, None, None, None)),
    "Instrument": INS,
    "PointedInstrument": dict(INS, cross_track_field_of_view=(REQ, "float", 0, False, 180, True), along_track_field_of_view=(REQ, "float", 0, False, 180, True),
                              roll_angle=(0, "float", -180, True, 180, True), pitch_angle=(0, "float", -180, True, 180, True), is_rectangular=(False, "bool", None, None, None, None),
                              cross_track_pixels=(1, "int", 1, True, None, None), along_track_pixels=(1, "int", 1, True, None, None),
                              cross_track_oversampling=(0, "float", 0, True, 1, False), along_track_oversampling=(0, "float", 0, True, 1, False)),
    "TwoLineElements": {"tle": (REQ, "tle", None, None, None, None)},
    "CircularOrbit": dict(ORB, inclination=INC(0), right_ascension_ascending_node=ANG(0)),
    "SunSynchronousOrbit": dict(ORB, altitude=(REQ, "float", 0, True, 12352000 - R, False), equator_crossing_time=(REQ, "time", None, None, None, None), equator_crossing_ascending=(True, "bool", None, None, None, None)),
    "KeplerianOrbit": dict(ORB, inclination=INC(0), right_ascension_ascending_node=ANG(0), eccentricity=(0, "float", 0, True, None, None), perigee_argument=ANG(0)),
    "MolniyaOrbit": MOL,
    "TundraOrbit": dict(MOL, inclination=INC(63.4), orbital_period=(86400, "float", 0, False, None, None), perigee_argument=ANG(270), eccentricity=(0.2, "float", 0, True, None, None)),
    "Satellite": SYS,
    "TrainConstellation": dict(SYS, number_satellites=(1, "int", 1, True, None, None), interval=(REQ, "timedelta", None, None, None, None), repeat_ground_track=(True, "bool", None, None, None, None)),
    "WalkerConstellation": dict(SYS, configuration=("delta", "walker", None, None, None, None), number_satellites=(1, "int", 1, True, None, None), number_planes=(1, "int", 1, True, None, None), relative_spacing=(0, "int", 0, True, None, None)),
    "MOGConstellation": dict(SYS, parallel_axis=(REQ, "float", 0, False, None, None), transverse_axis=(REQ, "float", 0, False, None, None), clockwise=(True, "bool", None, None, None, None), number_satellites=(2, "int", 0, False, None, None)),
    "SOCConstellation": dict(SYS, swath_width=(REQ, "float", 0, False, None, None), packing_distance=(REQ, "float", 0, False, 1, True)),
    "Architecture": {"name": (REQ, "str", None, None, None, None), "satellites": ([], "satellites", None, None, None, None), "stations": ([], "stations", None, None, None, None)},
}
TYPES = {"TwoLineElements": "tle", "CircularOrbit": "circular", "SunSynchronousOrbit": "sso", "KeplerianOrbit": "keplerian", "MolniyaOrbit": "molniya", "TundraOrbit": "tundra",
         "Satellite": "satellite", "TrainConstellation": "train", "WalkerConstellation": "walker", "MOGConstellation": "mog", "SOCConstellation": "soc"}


def install():
    pass


def cls_of(m):
    import tatc.schemas as S
    from tatc.schemas.architecture import Architecture
    return Architecture if m == "Architecture" else getattr(S, m)


# a description is {"_": model, field: JSON value}; native() makes keyword arguments of it
def native(v, kind):
    if kind == "timedelta":
        return timedelta(seconds=v)
    if kind == "datetime":
        return None if v is None else datetime.fromisoformat(v)
    if kind == "time":
        return time.fromisoformat(v)
    if kind == "orbit":
        return build(v)
    if kind in ("instruments", "satellites", "stations"):
        return [build(x) for x in v]
    if kind == "walker":
        from tatc.schemas.satellite import WalkerConfiguration
        return WalkerConfiguration(v)
    return v


def build(d):
    m = d["_"]
    return cls_of(m)(**{k: native(v, SPEC[m][k][1]) for k, v in d.items() if k != "_"})


def as_json(d):
    """The description in its JSON form."""
    m = d["_"]
    out = {}
    for k, v in d.items():
        if k == "_":
            continue
        kind = SPEC[m][k][1]
        if kind == "orbit":
            v = as_json(v)
        elif kind in ("instruments", "satellites", "stations"):
            v = [as_json(x) for x in v]
        out[k] = v
    if m in TYPES:
        out["type"] = TYPES[m]
    return out


def compare(c, obj, d, path, strict=True):
    """Object against the description it was built from, field by field."""
    m = d["_"]
    ok = c.check(type(obj) is cls_of(m), "a member has another type than its description", sig="type", path=path, got=type(obj).__name__, want=m)
    if not ok:
        return False
    if m in TYPES:
        ok &= c.check(obj.type == TYPES[m], "the type discriminator is wrong", sig="discriminator", path=path, got=obj.type)
    for k, (default, kind, *_) in SPEC[m].items():
        got = getattr(obj, k)
        p = path + "." + k
        if k not in d:
            c.event("defaults")
            if kind == "instruments":
                ok &= c.check(len(got) == 1 and got[0] == cls_of("Instrument")(), "the default instrument is not the documented one", sig="default", path=p)
            elif default != "epoch":
                ok &= c.check(got == default, "a default is not the documented one", sig="default", path=p, got=str(got), want=str(default))
            continue
        v = d[k]
        if kind == "orbit":
            ok &= compare(c, got, v, p)
        elif kind in ("instruments", "satellites", "stations"):
            if c.check(len(got) == len(v), "members are lost or added", sig="count", path=p, got=len(got), want=len(v)):
                for i, (x, y) in enumerate(zip(got, v)):
                    ok &= compare(c, x, y, f"{p}[{i}]")
            else:
                ok = False
        else:
            w = native(v, kind)
            same = got == w and (kind != "datetime" or (got is None) == (w is None) and (w is None or got.utcoffset() == w.utcoffset()))
            if kind in ("bool", "optbool"):
                same = got is w
            ok &= c.check(same, "a value is not the one described", sig="value", path=p, got=str(got), want=str(w))
    return ok


def fill_caches(o):
    for s in ([o] if not hasattr(o, "satellites") else o.satellites):
        orb = getattr(s, "orbit", s)
        if hasattr(orb, "to_tle"):
            try:
                t = orb.to_tle()
                t.get_closest_tle_index(t.get_epoch())
            except Exception:  # noqa: BLE001  not representable as an element set (C18)
                pass


def members(o):
    out = []
    for s in (o.satellites if hasattr(o, "satellites") else [o]):
        out.append([x.model_dump() for x in s.generate_members()])
    return out


def fields_of(dump, m):
    want = set(SPEC[m]) | ({"type"} if m in TYPES else set())
    return set(dump) == want


def run_valid(case, c):
    d = case["desc"]
    m = d["_"]
    c.event("round_trip:" + m)
    cls = cls_of(m)
    obj = build(d)
    ref = build(d)
    compare(c, obj, d, m)
    if case["boundary"]:
        c.event("boundary_accepted")
    if case["cache"]:
        c.event("cached")
        fill_caches(obj)
    c.check(obj == ref, "an object is not equal to another of the same description" + (" once its caches are filled" if case["cache"] else ""), sig="equal-cache", case=case)
    dump, js = obj.model_dump(), obj.model_dump_json()
    c.check(dump == ref.model_dump() and js == ref.model_dump_json(), "the saved form depends on caches", sig="dump-cache", case=case)
    c.check(fields_of(dump, m), "the saved form does not have the documented fields", sig="dump-fields", got=sorted(dump), case=case)
    forms = {"dict": cls.model_validate(dump), "json": cls.model_validate_json(js), "jsondict": cls.model_validate(json.loads(js)), "mode": cls.model_validate(obj.model_dump(mode="json")),
             "kwargs": cls(**dump), "text": cls.model_validate_json(json.dumps(as_json(d))), "copy": copy.deepcopy(obj), "pickle": pickle.loads(pickle.dumps(obj)), "model_copy": obj.model_copy(deep=True)}
    c.event("from_json_text")
    for f, o in forms.items():
        ok = c.check(o == ref and ref == o, "a description read back is not equal to the original", sig="reload-equal", form=f, case=case)
        ok &= compare(c, o, d, m)
        c.check(o.model_dump_json() == js, "saving again gives another text", sig="resave", form=f, case=case)
    if "orbit" in SPEC[m] or m == "Architecture":
        if case["members"] and '"epoch": null' not in json.dumps(as_json(d)):
            c.event("members")
            want = members(ref)
            for f in ("dict", "json", "text"):
                c.check(members(forms[f]) == want, "reloaded systems have other members", sig="members", form=f, case=case)
    # reloaded as part of a larger description
    from tatc.schemas.architecture import Architecture
    if m in ("Satellite", "TrainConstellation", "WalkerConstellation", "MOGConstellation", "SOCConstellation"):
        a = Architecture.model_validate_json(Architecture(name="a", satellites=[obj]).model_dump_json())
        compare(c, a.satellites[0], d, "Architecture." + m)
    if m in ("PointedInstrument", "Instrument", "TwoLineElements", "CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit"):
        S = cls_of("Satellite")
        if "Instrument" in m:
            s = S(name="s", orbit=cls_of("CircularOrbit")(altitude=5e5), instruments=[obj])
            part = lambda x: x.instruments[0]
        else:
            s = S(name="s", orbit=obj)
            part = lambda x: x.orbit
        for o in (s, S.model_validate_json(s.model_dump_json()), S.model_validate(s.model_dump())):
            compare(c, part(o), d, "Satellite." + m)
    c.state("valid", m, case["cache"], case["boundary"], *sorted(x["_"] for x in d.get("satellites", [])), *sorted(x["_"] for x in d.get("instruments", [])), d.get("orbit", {}).get("_"))


def run_invalid(case, c):
    from pydantic import ValidationError
    m, d = case["desc"]["_"], case["desc"]
    c.event("invalid:" + m)
    c.event(case["why"])
    if case["path"]:
        c.event("nested_invalid")
    good = as_json(d)
    bad = copy.deepcopy(good)
    node = bad
    for p in case["path"]:
        node = node[p]
    for k, v in case["set"].items():
        if v == "__missing__":
            node.pop(k, None)
        elif isinstance(v, str) and v in ("nan", "inf"):
            node[k] = float(v)
        else:
            node[k] = v
    cls = cls_of(m)
    cls.model_validate(good)
    for form, f in (("dict", lambda: cls.model_validate(bad)), ("kwargs", lambda: cls(**bad)), ("json", lambda: cls.model_validate_json(json.dumps(bad)))):
        try:
            o = f()
            c.fail("an invalid description is accepted", sig=case["why"], form=form, case=case, got=str(o)[:300])
        except ValidationError:
            c.check(True, "")
        except Exception as e:  # noqa: BLE001
            c.fail("an invalid description raises something other than a validation error", sig="error:" + type(e).__name__, form=form, got=repr(e)[:200], case=case)
    c.state("invalid", m, case["why"], *case["path"], *case["set"])


def run(case, c):
    (run_valid if case["kind"] == "valid" else run_invalid)(case, c)


# ---- workload

def num(rng, lo, loi, hi, hii, kind, edge):
    if kind == "int":
        v = int(lo if loi else lo + 1)
        return v if edge else v + int(rng.integers(0, 50))
    if edge and (lo is not None or hi is not None):
        opts = ([lo if loi else np.nextafter(lo, np.inf)] if lo is not None else []) + ([hi if hii else np.nextafter(hi, -np.inf)] if hi is not None else [])
        return float(opts[int(rng.integers(0, len(opts)))])
    if lo is None:
        return float(rng.uniform(-1e6, 3e7))
    if hi is None:
        return float(lo + np.exp(rng.uniform(-8, 12)))
    x = float(rng.uniform(lo, hi))
    return W.r(x, 3) if rng.random() < 0.5 and lo < W.r(x, 3) < hi else x


def strings(rng):
    return str(rng.choice(["A", "", "Sat 1", "Ünïcode ☃", "with \"quotes\" \\ and\nnewline", "satellite", "null", "x" * 200, "1"]))


def gen_field(rng, m, k, edge):
    default, kind, lo, loi, hi, hii = SPEC[m][k]
    if kind in ("int", "float"):
        if k == "altitude" and m != "SunSynchronousOrbit":
            return W.r(rng.uniform(2e5, 3e7), 3)
        if k == "eccentricity":
            return 0.0 if edge else W.r(rng.uniform(0, 0.8), 5)
        if k == "elevation":
            return W.r(rng.uniform(-500, 9000), 3)
        return num(rng, lo, loi, hi, hii, kind, edge)
    if kind == "bool":
        return bool(rng.random() < 0.5)
    if kind == "optbool":
        return [None, True, False][int(rng.integers(0, 3))]
    if kind == "str":
        return strings(rng)
    if kind == "timedelta":
        return float(rng.choice([0.0, 1.0, 10.5, 0.000001, 86400.0, 90061.123456, 1234567.0, -600.0, 59.999999]))
    if kind == "datetime":
        if rng.random() < 0.05:
            return None
        tz = [UTC, timezone(timedelta(hours=5, minutes=30)), timezone(timedelta(hours=-8)), UTC][int(rng.integers(0, 4))]
        t = W.gen_epoch(rng).astimezone(tz) + timedelta(microseconds=int(rng.integers(0, 1000000)) if rng.random() < 0.5 else 0)
        return t.isoformat()
    if kind == "time":
        return time(int(rng.integers(0, 24)), int(rng.integers(0, 60)), int(rng.integers(0, 60)), int(rng.integers(0, 1000000)) if rng.random() < 0.3 else 0).isoformat()
    if kind == "walker":
        return str(rng.choice(["delta", "star"]))
    if kind == "tle":
        out = []
        t = W.gen_epoch(rng)
        for _ in range(int(rng.choice([1, 1, 2, 3]))):
            out += W.tle_text(t, rng.uniform(0, 179), rng.uniform(0, 359.9), rng.uniform(0, 0.1), rng.uniform(0, 359.9), rng.uniform(0, 359.9), W.mean_motion(rng.uniform(4e5, 2e6)),
                              bstar=" 12345-4" if rng.random() < 0.3 else " 00000+0", sat=str(rng.choice(["25544", "00005", "A0001"])))
            t += timedelta(days=float(rng.uniform(0.1, 5)))
        return out
    if kind == "instruments":
        return [gen_desc(rng, "PointedInstrument" if rng.random() < 0.5 else "Instrument", edge and rng.random() < 0.3) for _ in range(int(rng.integers(1, 4)))]
    if kind == "orbit":
        o = gen_desc(rng, "CircularOrbit" if m in ("MOGConstellation", "SOCConstellation") else str(rng.choice(["TwoLineElements", "CircularOrbit", "SunSynchronousOrbit", "KeplerianOrbit"])), False)
        return o
    if kind == "satellites":
        return [gen_desc(rng, str(rng.choice(["Satellite", "TrainConstellation", "WalkerConstellation", "MOGConstellation", "SOCConstellation"])), False) for _ in range(int(rng.integers(0, 4)))]
    return [gen_desc(rng, "GroundStation", False) for _ in range(int(rng.integers(0, 3)))]


def gen_desc(rng, m, edge):
    d = {"_": m}
    for k, (default, *_) in SPEC[m].items():
        if default is REQ or rng.random() < 0.65 or k == "epoch":
            d[k] = gen_field(rng, m, k, edge and rng.random() < 0.6)
    if m == "WalkerConstellation":
        n = int(rng.integers(1, 30))
        p = int(rng.integers(1, n + 1))
        d.update(number_satellites=n, number_planes=p, relative_spacing=int(rng.integers(0, p)))
        if edge:
            d.update(number_planes=n, relative_spacing=n - 1)
    if m == "TrainConstellation":
        d["number_satellites"] = int(rng.integers(1, 8))
        if d["orbit"]["_"] == "TwoLineElements":
            d["orbit"]["tle"] = d["orbit"]["tle"][:2]
    if m == "MOGConstellation":
        d.update(parallel_axis=W.r(rng.uniform(1e4, 3e6), 1), transverse_axis=W.r(rng.uniform(1e4, 3e6), 1), number_satellites=int(rng.integers(1, 10)))
        d["orbit"]["altitude"] = W.r(rng.uniform(4e5, 1.5e6), 1)
        d["orbit"]["inclination"] = W.r(rng.uniform(20, 100), 2)
    if m == "SOCConstellation":
        d.update(swath_width=W.r(rng.uniform(5e5, 3e6), 1), packing_distance=W.r(rng.uniform(0.3, 1), 3))
        d["orbit"]["altitude"] = W.r(rng.uniform(4e5, 1.5e6), 1)
    return d


BADKIND = {"float": ["abc", None, [], {}, "__obj__"], "int": ["abc", None, [1], 2.5], "bool": ["maybe", None, 7, []], "optbool": ["maybe", 7, []], "str": [None, 12, [], {}], "timedelta": ["abc", None, []],
           "datetime": ["abc", [], {}], "time": ["abc", None, "25:61", []], "walker": ["gamma", None, 3], "tle": ["abc", None, [], ["x"], [1, 2]], "orbit": [None, "iss", {}, [], {"type": "circular"}, {"type": "unknown", "altitude": 5e5}],
           "instruments": [None, [], "camera", [1], {}], "satellites": [None, "x", [1], [{}]], "stations": [None, "x", [1], [{}]]}


def break_desc(rng, m, d, path):
    """One violated field of the model at `path`: (why, {field: value})."""
    choices = violations(rng, m, d)
    why, k, vs = choices[int(rng.integers(0, len(choices)))]
    if vs is None:
        return why, k
    return why, {k: vs[int(rng.integers(0, len(vs)))]}


def violations(rng, m, d):
    """All ways to violate one field of a model: (why, field, values)."""
    choices = []
    for k, (default, kind, lo, loi, hi, hii) in SPEC[m].items():
        if lo is not None:
            if kind == "int":
                choices.append(("out_of_range", k, [int(lo - 1 if loi else lo), -7, -(10 ** 9)]))
            else:
                choices.append(("out_of_range", k, [float(np.nextafter(lo, -np.inf) if loi else lo), float(lo - abs(rng.normal()) * 10 - 1e-6), "nan", -1e30]))
        if hi is not None:
            choices.append(("out_of_range", k, [float(hi if not hii else np.nextafter(hi, np.inf)), float(hi + abs(rng.normal()) * 10 + 1e-6), "nan", 1e30]))
        if default is REQ:
            choices.append(("missing", k, ["__missing__"]))
        bad = [x for x in BADKIND[kind] if x != "__obj__"]
        choices.append(("wrong_kind", k, bad))
    if m == "WalkerConstellation":
        n, p = d.get("number_satellites", 1), d.get("number_planes", 1)
        choices += [("cross_field", {"number_planes": n + 1}, None), ("cross_field", {"relative_spacing": p}, None), ("cross_field", {"number_satellites": n, "number_planes": n + 5}, None)] * 2
    if m == "PointedInstrument":
        # pointed entries alone do not make a view: both fields of view are required
        choices.append(("missing", {"cross_track_field_of_view": "__missing__", "along_track_field_of_view": "__missing__", "roll_angle": 12.5}, None))
        choices.append(("missing", {"cross_track_field_of_view": "__missing__", "along_track_field_of_view": "__missing__", "cross_track_pixels": 4}, None))
    if m in TYPES:
        choices.append(("wrong_kind", "type", ["unknown", 1, "SATELLITE"]))
    return choices


def gen(rng, i):
    m = MODELS[i % len(MODELS)]
    edge = bool(rng.random() < 0.3)
    d = gen_desc(rng, m, edge)
    if (i // len(MODELS)) % 2:
        path, mm, dd = [], m, d
        while rng.random() < 0.5:
            nxt = []
            for k, v in dd.items():
                kind = SPEC[mm].get(k, (None, ""))[1] if k != "_" else ""
                if kind == "orbit":
                    nxt.append(([k], v))
                elif kind in ("instruments", "satellites", "stations") and v:
                    q = int(rng.integers(0, len(v)))
                    nxt.append(([k, q], v[q]))
            if not nxt:
                break
            p, dd = nxt[int(rng.integers(0, len(nxt)))]
            mm = dd["_"]
            path += p
        why, bad = break_desc(rng, mm, dd, path)
        return {"kind": "invalid", "desc": d, "path": path, "why": why, "set": bad}
    return {"kind": "valid", "desc": d, "boundary": edge, "cache": bool(rng.random() < 0.5), "members": bool(rng.random() < 0.5)}


def fixed_cases():
    """Every violation of every field, and every bound from its valid side."""
    out = []
    for m in MODELS:
        rng = np.random.default_rng(26)
        d = gen_desc(rng, m, False)
        for why, k, vs in violations(rng, m, d):
            for s in ([k] if vs is None else [{k: v} for v in vs]):
                out.append({"kind": "invalid", "desc": d, "path": [], "why": why, "set": s})
        for k, (default, kind, lo, loi, hi, hii) in SPEC[m].items():
            if kind not in ("int", "float") or m == "WalkerConstellation":
                continue
            step = (lambda x, s: int(x + s)) if kind == "int" else (lambda x, s: float(np.nextafter(x, s * np.inf)))
            for v in ([lo if loi else step(lo, 1)] if lo is not None else []) + ([hi if hii else step(hi, -1)] if hi is not None else []):
                out.append({"kind": "valid", "desc": dict(d, **{k: v}), "boundary": True, "cache": False, "members": False})
    # every violation of an instrument or orbit that is part of a satellite
    for m, key in (("PointedInstrument", "instruments"), ("Instrument", "instruments"), ("CircularOrbit", "orbit"), ("SunSynchronousOrbit", "orbit"), ("KeplerianOrbit", "orbit"), ("TwoLineElements", "orbit")):
        rng = np.random.default_rng(126)
        part = gen_desc(rng, m, False)
        d = gen_desc(rng, "Satellite", False)
        d[key] = [part] if key == "instruments" else part
        for why, k, vs in violations(rng, m, part):
            for s in ([k] if vs is None else [{k: v} for v in vs]):
                out.append({"kind": "invalid", "desc": d, "path": [key, 0] if key == "instruments" else [key], "why": why, "set": s})
    return out

"""C27: configuration files load completely or are refused, and settings take effect."""
import math
import os
import shutil
import tempfile
from datetime import datetime, timedelta

import numpy as np

from vp import core, work as W
from checks import c22

PROPERTY = "C27"
RULE = "a case counts when one configuration file (or path) was loaded and judged, or one set of active settings was compared with the same values given explicitly"
CASES = {"quick": 3000, "thorough": 60000}
REQUIRED_EVENTS = ["loaded", "refused", "subset", "unknown_keys", "wrong_type", "out_of_range", "malformed", "binary", "missing", "directory", "fuzzed", "boundary", "empty", "module_defaults",
                   "footprint_ellipse", "footprint_rectangle", "explicit_points", "cycle_setting", "explicit_cycle", "track_setting", "events_setting", "tle_lazy_on", "tle_lazy_off", "cycle_lazy_on", "cycle_lazy_off"]
ASSUMPTIONS = ["scratch files in a directory made and removed by the case", "unknown entries of a configuration file are ignored", "values convertible without loss (8.0, 'yes') may be accepted or refused"]

# documented settings: default, kind, lower bound (value, inclusive)
FIELDS = {
    "footprint_points_elliptical": (32, int, (4, True)),
    "footprint_points_rectangular_side": (8, int, (1, True)),
    "repeat_cycle_delta_position_m": (10000, float, (0, False)),
    "repeat_cycle_delta_velocity_m_per_s": (10, float, (0, False)),
    "repeat_cycle_search_elevation_deg": (88, float, (0, False)),
    "repeat_cycle_search_duration_days": (30, float, None),
    "repeat_cycle_lazy_load": (True, bool, None),
    "repeat_cycle_for_orbit_track": (True, bool, None),
    "repeat_cycle_for_observation_events": (True, bool, None),
    "orbit_tle_lazy_load": (True, bool, None),
}
DEFAULT_TEXT = "\n".join(f"{k}: {v[0]}" for k, v in FIELDS.items()) + "\n"


def install():
    core.hook("tatc.config.load_yaml_config", post_load)


def ok_value(k, v):
    d, kind, lo = FIELDS[k]
    if kind is bool:
        return isinstance(v, bool)
    if kind is int and (not isinstance(v, int) or isinstance(v, bool)):
        return False
    if kind is float and (not isinstance(v, (int, float)) or isinstance(v, bool)):
        return False
    return lo is None or (v >= lo[0] if lo[1] else v > lo[0])


def post_load(c, a, r, exc, token):
    """Whatever the file: a complete, valid configuration or the configuration error."""
    from tatc.config import ConfigError, RuntimeConfiguration
    if exc is not None:
        c.event("refused")
        c.check(type(exc) is ConfigError or isinstance(exc, ConfigError), "loading raises something other than the configuration error", sig=f"error:{type(exc).__name__}", got=repr(exc)[:200])
        return
    c.event("loaded")
    if not c.check(isinstance(r, RuntimeConfiguration), "loading returns something other than a configuration", sig="type", got=str(type(r))):
        return
    for k in FIELDS:
        v = getattr(r, k)
        c.check(ok_value(k, v), "a loaded setting is outside its documented range or kind", sig="invalid-setting", field=k, value=repr(v))


def load(c, content, directory):
    from tatc import config
    p = os.path.join(directory, "config.yml")
    with open(p, "wb") as f:
        f.write(content)
    try:
        return config.load_yaml_config(p), None
    except Exception as e:  # noqa: BLE001
        return None, e


def expect(c, case, r, given):
    want = {k: v[0] for k, v in FIELDS.items()}
    want.update(given)
    if c.check(r is not None, "a valid configuration file is refused", sig="refused-valid", case=case):
        got = {k: getattr(r, k) for k in FIELDS}
        c.check(got == want and all(type(got[k]) is type(want[k]) or FIELDS[k][1] is float for k in FIELDS), "loaded settings are not those of the file with defaults for the rest", sig="settings", got=got, want=want)


def run_file(case, c):
    from tatc import config
    d = tempfile.mkdtemp(prefix="vpcfg")
    kind = case["kind"]
    rc0 = config.rc
    try:
        c.event(kind)
        c.state("file", kind, case.get("field"), str(case.get("value"))[:12])
        if kind == "missing":
            try:
                config.load_yaml_config(os.path.join(d, case["name"]))
                c.fail("a missing file is loaded", sig="missing")
            except Exception:  # noqa: BLE001  (judged by the monitor)
                pass
        elif kind == "directory":
            try:
                config.load_yaml_config(d)
                c.fail("a directory is loaded", sig="directory")
            except Exception:  # noqa: BLE001
                pass
        elif kind in ("subset", "unknown_keys", "boundary", "empty"):
            r, e = load(c, case["text"].encode(), d)
            expect(c, case, r, case["given"])
        elif kind in ("wrong_type", "out_of_range"):
            r, e = load(c, case["text"].encode(), d)
            c.check(e is not None, "a wrongly typed or out-of-range setting is accepted", sig=kind, case=case)
        elif kind == "malformed":
            r, e = load(c, case["text"].encode(), d)
            if case.get("must_refuse"):
                c.check(e is not None, "a malformed file is accepted", sig="malformed", case=case)
        else:
            load(c, bytes(case["bytes"]), d)
        c.check(config.rc is rc0 and rc0 == config.RuntimeConfiguration(**{k: v[0] for k, v in FIELDS.items()}), "loading a file changes the active settings", sig="active-changed")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def same_geom(a, b):
    return a.geom_type == b.geom_type and a.equals_exact(b, 1e-9)


def run_settings(case, c):
    from tatc import config
    from tatc.schemas import Point, PointedInstrument
    from tatc.utils import compute_footprint
    rc0 = config.rc
    try:
        cfg = {k: v for k, v in case["config"].items()}
        orbit = W.build_orbit(case["orbit"])
        ep = W.orbit_epoch(case["orbit"])
        track = orbit.to_tle(lazy_load=False).get_orbit_track(ep + timedelta(seconds=case["t"]), try_repeat=False)
        args = case["view"]
        for rect in (False, True):
            n = cfg["footprint_points_rectangular_side" if rect else "footprint_points_elliptical"]
            explicit = compute_footprint(track, args[0], args[1], args[2], 0, rect, number_points=n)
            other = compute_footprint(track, args[0], args[1], args[2], 0, rect, number_points=n + 3)
            config.rc = config.RuntimeConfiguration(**cfg)
            default = compute_footprint(track, args[0], args[1], args[2], 0, rect)
            ins = PointedInstrument(name="p", cross_track_field_of_view=args[0], along_track_field_of_view=args[1], roll_angle=args[2], is_rectangular=rect, field_of_regard=180)
            idef = ins.compute_footprint(track)
            over = compute_footprint(track, args[0], args[1], args[2], 0, rect, number_points=n + 3)
            iover = ins.compute_footprint(track, number_points=n + 3)
            config.rc = rc0
            c.check(same_geom(default, explicit) and same_geom(idef, explicit), "the default footprint is not that of the configured number of points", sig="points-default", n=n, rect=rect, case=case)
            c.check(same_geom(over, other) and same_geom(iover, other), "an explicit number of points does not override the setting", sig="points-override", n=n, rect=rect, case=case)
            c.event("footprint_rectangle" if rect else "footprint_ellipse")
            c.event("explicit_points")
            if explicit.geom_type == "Polygon" and case["orbit"]["altitude"] < 2e6 and abs(track.subpoint().longitude.degrees) < 140 and abs(track.subpoint().latitude.degrees) < 55:
                m = len(set(np.round(np.array(explicit.exterior.coords)[:, :2], 7).view(np.complex128).ravel().tolist()))
                c.check(m in ((4 * n,) if rect else (n, n - 1)), "a footprint does not have the configured number of points", sig="points-count", n=n, got=m, rect=rect, case=case)
        # repeat-cycle search settings against explicit arguments
        new = lambda: W.build_orbit(case["orbit"]).to_tle(lazy_load=False)
        s = {"max_delta_position": cfg["repeat_cycle_delta_position_m"], "max_delta_velocity": cfg["repeat_cycle_delta_velocity_m_per_s"],
             "min_elevation_angle": cfg["repeat_cycle_search_elevation_deg"], "max_search_duration": timedelta(days=cfg["repeat_cycle_search_duration_days"])}
        want = new().get_repeat_cycle(**s)
        config.rc = config.RuntimeConfiguration(**cfg)
        got = new().get_repeat_cycle()
        c.event("cycle_setting")
        c.check(got == want, "the repeat-cycle search does not follow the settings", sig="cycle-settings", got=str(got), want=str(want), case=case)
        if case["override"]:
            k = case["override"]
            alt = dict(s)
            alt[k] = {"max_delta_position": 1e7, "max_delta_velocity": 1e5, "min_elevation_angle": 20.0, "max_search_duration": timedelta(hours=3)}[k]
            over = new().get_repeat_cycle(**{k: alt[k]})
            config.rc = rc0
            w2 = new().get_repeat_cycle(**alt)
            config.rc = config.RuntimeConfiguration(**cfg)
            c.event("explicit_cycle")
            c.check(over == w2, "an explicit search argument does not override the setting", sig="cycle-override", arg=k, got=str(over), want=str(w2), case=case)
        # lazy loading of the repeat cycle
        tle = new()
        first = tle.get_repeat_cycle()
        config.rc = config.RuntimeConfiguration(**dict(cfg, repeat_cycle_delta_position_m=1e-3))
        again = tle.get_repeat_cycle()
        fresh = new().get_repeat_cycle(lazy_load=False)
        lazy = cfg["repeat_cycle_lazy_load"]
        if first is not None:
            c.event("cycle_lazy_on" if lazy else "cycle_lazy_off")
            c.check(again == (first if lazy else fresh), "the lazy-load setting of the repeat cycle has no effect", sig="cycle-lazy", lazy=lazy, got=str(again), first=str(first), case=case)
            t2 = new()
            config.rc = config.RuntimeConfiguration(**cfg)
            t2.get_repeat_cycle()
            config.rc = config.RuntimeConfiguration(**dict(cfg, repeat_cycle_delta_position_m=1e-3))
            ex = t2.get_repeat_cycle(lazy_load=not lazy)
            c.check(ex == (fresh if lazy else first), "explicit lazy loading of the repeat cycle does not override the setting", sig="cycle-lazy-override", lazy=lazy, got=str(ex), case=case)
        config.rc = config.RuntimeConfiguration(**cfg)
        # use of the cycle in tracks and events
        times = [ep + timedelta(seconds=x) for x in case["times"]]
        a = new().get_orbit_track(times).position.m
        b = new().get_orbit_track(times, try_repeat=cfg["repeat_cycle_for_orbit_track"]).position.m
        n = new().get_orbit_track(times, try_repeat=not cfg["repeat_cycle_for_orbit_track"]).position.m
        c.event("track_setting")
        c.check(np.array_equal(a, b), "orbit tracks do not follow the repeat-cycle setting", sig="track-setting", case=case)
        if want is not None:
            c.check(not np.array_equal(b, n), "an explicit request does not override the repeat-cycle setting of orbit tracks", sig="track-override", case=case)
        pt = Point(id=0, latitude=10.0, longitude=case["t"] % 360 - 180, elevation=0.0)
        st, en = ep, ep + timedelta(days=1.3)
        ev = lambda **k: [(x.utc_datetime(), int(y)) for x, y in zip(*new().get_observation_events(pt, st, en, 10.0, **k))]
        a, b = ev(), ev(try_repeat=cfg["repeat_cycle_for_observation_events"])
        c.event("events_setting")
        c.check(a == b, "observation events do not follow the repeat-cycle setting", sig="events-setting", case=case)
        # lazy loading of derived element sets
        o = W.build_orbit(case["orbit"])
        x, y = o.to_tle(), o.to_tle()
        lz = cfg["orbit_tle_lazy_load"]
        c.event("tle_lazy_on" if lz else "tle_lazy_off")
        c.check((x is y) == lz and x == y, "the lazy-load setting of element sets has no effect", sig="tle-lazy", lazy=lz, case=case)
        z = o.to_tle(lazy_load=not lz)
        y2 = o.to_tle(lazy_load=True)
        c.check(z == x and o.to_tle(lazy_load=True) is y2 and o.to_tle(lazy_load=False) is not y2, "explicit lazy loading of element sets does not override the setting", sig="tle-lazy-override", lazy=lz, case=case)
        c.state("settings", *(cfg[k] for k in FIELDS if FIELDS[k][1] is bool), want is not None)
    finally:
        config.rc = rc0


def run(case, c):
    if case["kind"] == "settings":
        run_settings(case, c)
    elif case["kind"] == "module_defaults":
        from tatc import config
        c.event("module_defaults")
        got = {k: getattr(config.rc, k) for k in FIELDS}
        c.check(got == {k: v[0] for k, v in FIELDS.items()}, "the settings active after import are not the documented defaults", sig="module-defaults", got=got)
        r = config.RuntimeConfiguration()
        c.check({k: getattr(r, k) for k in FIELDS} == {k: v[0] for k, v in FIELDS.items()}, "an empty configuration is not the documented defaults", sig="class-defaults")
    else:
        run_file(case, c)


def valid(rng, k, edge=False):
    d, kind, lo = FIELDS[k]
    if kind is bool:
        return bool(rng.random() < 0.5)
    if kind is int:
        return lo[0] if edge else int(rng.integers(lo[0], 200))
    if edge and lo:
        return 1e-9
    return W.r(np.exp(rng.uniform(-3, 12)), 4) if rng.random() < 0.7 else float(int(rng.integers(1, 1000)))


def line(rng, k, v):
    if isinstance(v, bool):
        t = str(rng.choice(["true", "True", "TRUE", "yes", "on"] if v else ["false", "False", "no", "off"]))
    else:
        t = format(v, ".10f") if isinstance(v, float) and v < 1e-3 else repr(v)
    q = '"' + k + '"' if rng.random() < 0.1 else k
    return f"{q}: {t}" + ("  # note" if rng.random() < 0.1 else "")


def gen_text(rng, given, extra=()):
    ls = [line(rng, k, v) for k, v in given.items()] + list(extra)
    rng.shuffle(ls)
    if rng.random() < 0.15 and not extra:
        return "{" + ", ".join(x.split("  #")[0] for x in ls) + "}\n"
    nl = "\r\n" if rng.random() < 0.1 else "\n"
    return ("# settings" + nl if rng.random() < 0.3 else "") + ("---" + nl if rng.random() < 0.1 else "") + nl.join(ls) + nl


MALFORMED = ["a: [1, 2", "a: b: c", "\t- x", "}{", "'unclosed", "a: *missing", "%YAML 9.9\n---\na: 1", "---\na: 1\n---\nb: 2", "a: 2024-13-45", "a: !!timestamp never", "a: !!bool maybe", "a: !!int ''",
             "a: 0b_", "a: !!python/object:os.system x", "!!float abc", "[" * 2000, "a: " + "9" * 5000, "a: \x07", "- 1\n- 2", "just text", "42", "1.5", "true", "!!set {a, b}", "!!binary x", "? [1, 2]\n: 3"]


def gen(rng, i):
    keys = list(FIELDS)
    u = i % 100
    if u < 8:
        inc = W.r(rng.uniform(40, 105), 2)
        res = rng.random() < 0.75
        alt = c22.resonant(inc, float(rng.choice([15.0, 14.0, 2.0, 4.0, 14.5, 13.0]))) if res else rng.uniform(400e3, 1500e3)
        if alt is None or alt < 300e3:
            inc, alt = 66.0, c22.resonant(66.0, 15)
        cfg = {k: FIELDS[k][0] for k in keys}
        cfg.update(footprint_points_elliptical=int(rng.integers(4, 90)), footprint_points_rectangular_side=int(rng.integers(1, 30)),
                   repeat_cycle_search_duration_days=float(rng.choice([1.2, 2.5])), repeat_cycle_delta_position_m=float(rng.choice([1e3, 2e4, 1e5])),
                   repeat_cycle_delta_velocity_m_per_s=float(rng.choice([5.0, 50.0, 500.0])), repeat_cycle_search_elevation_deg=float(rng.choice([40.0, 80.0, 88.0])))
        for k in keys[6:]:
            cfg[k] = bool(rng.random() < 0.5)
        return {"kind": "settings", "config": cfg, "orbit": {"type": "circular", "altitude": W.r(alt, 1), "inclination": inc, "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2), "true_anomaly": W.r(rng.uniform(0, 359), 2), "epoch": W.gen_epoch(rng).isoformat()},
                "t": W.r(rng.uniform(0, 86400), 1), "view": [W.r(rng.uniform(2, 40), 1), W.r(rng.uniform(2, 40), 1), W.r(rng.uniform(-20, 20), 1)],
                "times": [W.r(x, 2) for x in rng.uniform(90000, 3e5, 3)], "override": str(rng.choice(["max_delta_position", "max_delta_velocity", "min_elevation_angle", "max_search_duration", ""]))}
    n = int(rng.integers(1, len(keys) + 1))
    ks = [str(k) for k in rng.permutation(keys)[:n]]
    given = {k: valid(rng, k) for k in ks}
    if u < 35:
        return {"kind": "subset", "given": given, "text": gen_text(rng, given)}
    if u < 40:
        return {"kind": "unknown_keys", "given": given, "text": gen_text(rng, given, ["colour: blue", "repeat_cycle: [1, 2]", "1: 2"][: int(rng.integers(1, 4))])}
    if u < 46:
        given = {k: valid(rng, k, True) for k in ks}
        return {"kind": "boundary", "given": given, "text": gen_text(rng, given)}
    if u < 58:
        k = ks[0]
        kind = FIELDS[k][1]
        bad = ["abc", "[1]", "{a: 1}", "null", "''"] + ({int: ["7.5", ".nan", ".inf", "2024-01-01"], float: ["2024-01-01", "[]"], bool: ["2", "3.5", "maybe"]}[kind])
        v = str(rng.choice(bad))
        others = {q: w for q, w in given.items() if q != k}
        return {"kind": "wrong_type", "field": k, "value": v, "text": gen_text(rng, others, [f"{k}: {v}"])}
    if u < 70:
        k = str(rng.choice([q for q in keys if FIELDS[q][2]]))
        lo, inc = FIELDS[k][2]
        v = (lo - 1 if inc else lo) if rng.random() < 0.5 else -int(rng.integers(1, 10000))
        if FIELDS[k][1] is float and rng.random() < 0.2:
            v = ".nan"
        others = {q: w for q, w in given.items() if q != k}
        return {"kind": "out_of_range", "field": k, "value": v, "text": gen_text(rng, others, [f"{k}: {v}"])}
    if u < 80:
        t = str(rng.choice(MALFORMED))
        if rng.random() < 0.3:
            t = DEFAULT_TEXT + t
        return {"kind": "malformed", "text": t, "must_refuse": "\n1.5" not in t and "\n42" not in t}
    if u < 90:
        if rng.random() < 0.5:
            b = bytes(int(x) for x in rng.integers(0, 256, int(rng.integers(1, 300))))
        else:
            b = "".join(str(rng.choice(list("{}[]:,-?!&*#|>@%'\" \n\t0123456789abetruenl.~_"))) for _ in range(int(rng.integers(1, 120)))).encode()
        return {"kind": "binary", "bytes": list(b)}
    if u < 97:
        b = bytearray(DEFAULT_TEXT.encode())
        for _ in range(int(rng.integers(1, 6))):
            p = int(rng.integers(0, len(b)))
            v = rng.random()
            if v < 0.4:
                b[p] = int(rng.integers(0, 256)) if rng.random() < 0.3 else ord(str(rng.choice(list(":-#'\"[]{}&*!|>%@`0123456789.e \n\t"))))
            elif v < 0.7:
                del b[p]
            else:
                b[p:p] = str(rng.choice([":", "!!int ", "!!bool ", "&a ", "*a", "- ", "\n", "'", "2024-99-99", "0x", "0b_", "1:60.5"])).encode()
        return {"kind": "fuzzed", "bytes": list(b)}
    return {"kind": "missing", "name": str(rng.choice(["none.yml", "a/b/c.yml", "..yml", "ünï.yml"]))}


def fixed_cases():
    out = [{"kind": "module_defaults"}, {"kind": "directory"}, {"kind": "missing", "name": "nothing.yml"}]
    out += [{"kind": "empty", "text": t, "given": {}} for t in ("", "\n", "# only a comment\n", "---\n", "{}\n", "null\n", "~")]
    out += [{"kind": "malformed", "text": t, "must_refuse": True} for t in MALFORMED]
    # documents that are false-like but no mapping of settings
    out += [{"kind": "malformed", "text": t, "must_refuse": True} for t in ("false", "0", "0.0", "[]", "''", '""', "---\n[]\n", "no", "!!set {}", "!!binary ''", "!!omap []")]
    return out

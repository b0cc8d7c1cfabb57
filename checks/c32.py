"""C32: work spread over threads or processes gives the same answers as in sequence.

A seeded scheduler owns the threads: a trace function stops every thread at
each line of tatc it executes and lets exactly one go on, so the switch points
lie between the statements of the code under test (not wherever the interpreter
happens to switch) and a seed replays a schedule.
"""
import copy
import os
import pickle
import subprocess
import sys
import threading
import time

import numpy as np

from vp import boot, core, work as W
from checks import c22, c25

PROPERTY = "C32"
RULE = "a case counts when at least three jobs ran concurrently (threads preempted inside tatc, or processes) and each was compared with the same job run alone on new objects"
CASES = {"quick": 400, "thorough": 12000}
JOBS = ["tle", "track", "cycle", "events", "derived", "closest", "getters", "observe", "multi", "downlinks", "orbit_track", "ground_track", "gtrack", "pixels", "dop", "ro", "members",
        "aggregate", "reduce", "latencies", "reduce_lat", "grid_obs", "grid_lat", "points", "fibonacci", "cells", "split", "normalize"]
MODES = ["mixed", "points", "same_call", "repeat", "mixed", "fork"]
REQUIRED_EVENTS = ["job:" + j for j in JOBS] + ["mode:" + m for m in ("mixed", "points", "same_call", "repeat", "fork", "spawn")] + [
    "preempted", "shared_cold", "shared_warm", "lazy_off", "inputs_unchanged", "config_unchanged", "both_in_orbit", "repeats", "fine", "coarse"]
ASSUMPTIONS = ["jobs read shared satellites, points, lists and tables; no job assigns to them while others run", "switches are injected between statements of tatc, not inside the libraries it calls"]
SRC = os.path.realpath(boot.SRC)


def install():
    pass


class Schedule:
    """One thread at a time, handed over at random lines."""

    def __init__(self, seed, n, p):
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.current = 0
        self.where = {}
        self.steps = self.switches = self.stolen = 0
        self.pairs = set()
        self.trail = []
        self.dice = iter(())

    def roll(self):
        try:
            return next(self.dice)
        except StopIteration:
            self.dice = iter(self.rng.random(4096).tolist())
            return next(self.dice)

    def wait_turn(self, me):
        while self.current != me:
            if not self.cond.wait(2.0) and self.current != me:
                # the one to go on is inside a library call (or waits for a lock)
                self.stolen += 1
                self.current = me

    def point(self, me, code):
        with self.cond:
            self.steps += 1
            self.where[me] = code.co_name
            self.wait_turn(me)
            heavy = code.co_filename.endswith("orbit.py")
            if len(self.alive) > 1 and self.roll() < (min(0.5, self.p * 5) if heavy else self.p):
                others = sorted(self.alive - {me})
                to = others[int(self.roll() * len(others))]
                self.switches += 1
                self.pairs.add((code.co_name, self.where.get(to, "-")))
                self.trail.append((me, code.co_name))
                self.current = to
                self.cond.notify_all()
                self.wait_turn(me)

    def leave(self, me):
        with self.cond:
            self.alive.discard(me)
            self.where.pop(me, None)
            if self.alive and self.current == me:
                self.current = sorted(self.alive)[int(self.roll() * len(self.alive))]
            self.cond.notify_all()


def run_threads(jobs, seed, p):
    """jobs: callables. Returns outcomes and the schedule."""
    s = Schedule(seed, len(jobs), p)
    out = [None] * len(jobs)

    def body(me):
        def local(frame, event, arg):
            if event == "line":
                s.point(me, frame.f_code)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SRC) else None
        with s.cond:
            s.wait_turn(me)
        sys.settrace(tracer)
        try:
            out[me] = c25.outcome(jobs[me])
        finally:
            sys.settrace(None)
            s.leave(me)
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
    for t in ts:
        t.start()
    end = time.time() + 120
    for t in ts:
        t.join(max(0.1, end - time.time()))
    return out, s, not any(t.is_alive() for t in ts)


def run_forked(jobs):
    """Each job in a child process with a copy of everything."""
    out = []
    kids = []
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(c25.outcome(j), f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out.append(pickle.loads(data))
        except Exception as e:  # noqa: BLE001
            out.append(("lost", f"{type(e).__name__}: {e}"))
    return out


SPAWNED = """
import pickle, sys
sys.path.insert(0, {verif!r})
from vp import boot, core
from checks import c25
from tatc import config
rc, name, sats, systems, inp, k = pickle.load(sys.stdin.buffer)
config.rc = config.RuntimeConfiguration(**rc)
r = c25.outcome(lambda: c25.call(name, sats, systems, inp, k))
sys.stdout.buffer.write(b"RESULT" + pickle.dumps(r))
"""


def run_spawned(rc, jobs, world):
    """Each job in a new interpreter that gets the pickled arguments."""
    ps = []
    for name, k in jobs:
        p = subprocess.Popen([sys.executable, "-c", SPAWNED.format(verif=core.VERIF)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=os.environ)
        ps.append((p, pickle.dumps((rc, name, world.live, world.systems, world.inputs, k))))
    out = []
    for p, data in ps:
        o, e = p.communicate(data, timeout=170)
        if b"RESULT" not in o:
            if b"MemoryError" in e or b"ImportError" in e:
                raise OSError(e[-500:].decode(errors="replace"))
            out.append(("lost", e[-300:].decode(errors="replace")))
        else:
            out.append(pickle.loads(o.split(b"RESULT", 1)[1]))
    return out


def run(case, c):
    from tatc import config
    rc0 = config.rc
    base = dict(case["rc"], repeat_cycle_search_duration_days=1.15)
    try:
        config.rc = config.RuntimeConfiguration(**base)
        jobs = [(j["name"], j) for j in case["jobs"]]
        w = c25.World(case)
        c25.derive_tables(w.inputs)
        tables = {k: w.inputs[k] for k in ("obs", "down", "cells", "agg", "red", "lat", "redlat")}
        want = []
        for name, k in jobs:
            f = c25.World(case)
            f.inputs.update(tables)
            want.append(c25.outcome(lambda: c25.call(name, f.live, f.systems, f.inputs, k)))
        if case["warm"]:
            c.event("shared_warm")
            for s in w.live:
                c25.outcome(lambda: s.orbit.to_tle())
        else:
            c.event("shared_cold")
        if not base.get("orbit_tle_lazy_load", True):
            c.event("lazy_off")
        before = c25.shot([w.live, w.systems, list(w.inputs.values())])
        rc = config.rc.model_dump()
        calls = [lambda name=name, k=k: c25.call(name, w.live, w.systems, w.inputs, k) for name, k in jobs]
        mode = case["mode"]
        c.event("mode:" + mode)
        if mode == "fork":
            got = run_forked(calls)
        elif mode == "spawn":
            got = run_spawned(base, jobs, w)
        else:
            with core.suspend():
                got, s, done = run_threads(calls, case["schedule"], case["p"])
            if not c.check(done, "concurrent calls never come back", sig="deadlock", jobs=[n for n, _ in jobs]):
                return
            c.event("preempted", s.switches)
            c.event("lines", s.steps)
            c.event("library_overlap", s.stolen)
            c.event("fine" if case["p"] > 0.02 else "coarse")
            for a, b in s.pairs:
                c.state("preempt", a, b)
            inorbit = {"to_tle", "get_orbit_track", "get_closest_tle_index", "get_epoch", "partition_by_tle_index", "get_repeat_cycle", "get_observation_events"}
            c.event("both_in_orbit", sum(a in inorbit and b in inorbit for a, b in s.pairs))
            c.state("schedule", hash(tuple(s.trail)) & 0xFFFFFFFF)
        for (name, k), a, b in zip(jobs, want, got):
            c.event("job:" + name)
            if name == "cycle" and a == ("ok", a[1]) and a[1] is not None:
                c.event("repeats")
            ok = b is not None and a[0] == b[0] and c25.same(a[1], b[1])
            c.check(ok, f"{name} run concurrently gives another answer than alone", sig=f"concurrent:{mode if mode in ('fork', 'spawn') else 'threads'}:{name}", want=str(a)[:500], got=str(b)[:500], mode=mode, jobs=[n for n, _ in jobs])
        c.check(c25.shot([w.live, w.systems, list(w.inputs.values())]) == before, "concurrent calls modify their shared arguments", sig="modified")
        c.event("inputs_unchanged")
        c.check(config.rc.model_dump() == rc, "concurrent calls leave other settings behind", sig="settings", before=rc, after=config.rc.model_dump())
        c.event("config_unchanged")
    finally:
        config.rc = rc0


def gen(rng, i):
    b = c25.gen(rng, i)
    case = {k: b[k] for k in ("sats", "systems", "times", "places", "start", "hours", "mask", "tables")}
    case["hours"] = min(case["hours"], 5.0)
    mode = MODES[i % len(MODES)]
    if i % 42 == 9:
        mode = "spawn"
    case["kind"] = case["mode"] = mode
    n = int(rng.integers(3, 6)) if mode != "spawn" else 3
    pool = JOBS
    jobs = []
    first = JOBS[(i * 7 + i // 5) % len(JOBS)]
    u = int(rng.integers(0, 6))
    if mode == "repeat":
        # first search of the repeat cycle of a shared orbit
        u = 0
        inc = W.r(rng.uniform(50, 100), 2)
        alt = c22.resonant(inc, float(rng.choice([15.0, 15.0, 14.0]))) or 6e5
        case["sats"][0]["orbit"] = {"type": "circular", "altitude": W.r(max(alt, 3e5), 1), "inclination": inc, "right_ascension_ascending_node": W.r(rng.uniform(0, 359), 2),
                                    "true_anomaly": W.r(rng.uniform(0, 359), 2), "epoch": W.orbit_epoch(case["sats"][0]["orbit"]).isoformat()}
        case["start"] = W.r(rng.uniform(90000, 200000), 1)
        case["times"] = [W.r(x, 1) for x in rng.uniform(90000, 300000, 5)]
    for q in range(n):
        k = {"i": int(rng.integers(0, 6)), "j": int(rng.integers(0, 6)), "n": int(rng.integers(0, 12))}
        if mode == "points":
            # the documented way: one satellite, many points
            k.update(name="observe" if i % 12 < 6 else str(rng.choice(["observe", "downlinks", "dop", "events"])), i=u, n=q + int(rng.integers(0, 2)) * 3)
        elif mode == "repeat":
            k.update(name=str(rng.choice(["cycle", "cycle", "track", "orbit_track", "events", "observe", "gtrack"])), i=0)
        elif mode == "same_call":
            k.update(name=first, i=u if rng.random() < 0.8 else k["i"])
        else:
            k["name"] = first if q == 0 else str(rng.choice(pool))
            if rng.random() < 0.6:
                k["i"] = u
        jobs.append(k)
    case["jobs"] = jobs
    case["warm"] = bool(rng.random() < 0.25)
    case["rc"] = {"orbit_tle_lazy_load": bool(rng.random() < 0.8), "repeat_cycle_lazy_load": bool(rng.random() < 0.8), "repeat_cycle_for_orbit_track": bool(rng.random() < 0.5),
                  "repeat_cycle_for_observation_events": bool(rng.random() < 0.3)}
    if mode == "repeat":
        case["warm"] = False
        case["rc"] = {"orbit_tle_lazy_load": True, "repeat_cycle_lazy_load": True, "repeat_cycle_for_orbit_track": True, "repeat_cycle_for_observation_events": bool(rng.random() < 0.5)}
    case["p"] = float(rng.choice([0.2, 0.05, 0.01]))
    case["schedule"] = int(rng.integers(0, 2**31))
    return case


def fixed_cases():
    return []
